// Requests of the real client under random orders of calls, answers, connection losses and timers.
import { simulate, bulk } from "./sim.mjs";
import { rounds } from "./common.mjs";
import { Inconclusive } from "../util.mjs";

export const rule = "a case is one scenario: a sequence of calls and socket events chosen by the scheduler, followed by the monitor to its end; non-trivial with two or more calls; distinct by the sequence of events";

export default async function (report, conf) {
  await rounds(conf, 420, (seed) => simulate(report, conf, {
    tag: "c17", seed, kinds: ["method", "frame"], count: conf.tier === "thorough" ? 8000 : 2500,
    profiles: ["requests", "idle", "lateClose", "slowOpen", "flaky", "lossy", "shutDown", "mixed", "streams", "churn"],
  }));
  if (!report.violations.length) await bulk(report, { tag: "c17", kind: "method", seed: conf.seed, total: conf.tier === "thorough" ? 400000 : 80000, outstanding: 3000 });
  if (!report.violations.length && (report.counts.answers ?? 0) < 2000) throw new Inconclusive("too few answers");
}
