// node check.mjs <property> [quick|thorough]
import { seedAndTier, Violation, Inconclusive, Report } from "./lib/util.mjs";

const id = process.argv[2];
if (!/^C\d\d$/.test(id ?? "")) { console.error("usage: node check.mjs C01 [quick|thorough]"); process.exit(2); }
const conf = seedAndTier(process.argv);
const quiet = console.debug; void quiet;
let code = 2;
let report;
try {
  const mod = await import(`./lib/checks/${id.toLowerCase()}.mjs`);
  report = new Report(id, conf, mod.level ?? "exploration", mod.rule);
  try {
    await mod.default(report, conf);
    code = report.finish();
  } catch (e) {
    if (e instanceof Violation) { report.violation(e.message, e.detail); code = report.finish(); }
    else if (report.violations.length) { console.error(e); code = report.finish(); }
    else throw e;
  }
} catch (e) {
  console.error(e instanceof Inconclusive ? `INCONCLUSIVE property=${id}: ${e.message}` : e);
  code = 2;
}
process.exit(code);
