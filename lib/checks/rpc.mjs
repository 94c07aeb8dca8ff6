// Runs the server harness (harness/rpc): scenarios on the real backend, proxy and WebSocket endpoint, in several processes.
import fs from "node:fs";
import path from "node:path";
import { VERIF, REPO, WORK, mkdirp, buildBin, spawn, Inconclusive, tail } from "../util.mjs";
import { rounds } from "./common.mjs";

export const rule = "a case is one scenario: a random sequence of connects, calls, subscriptions, cancellations, malformed input and departures on the real server, with the recorded history judged offline; non-trivial if at least two calls ran; distinct by the recorded interleaving of events";

export function buildHarness() {
  const src = path.join(VERIF, "harness/rpc"), dir = mkdirp(path.join(WORK, "rpc"));
  mkdirp(path.join(dir, "src"));
  const put = (p, s) => { if (!fs.existsSync(p) || fs.readFileSync(p, "utf8") !== s) fs.writeFileSync(p, s); };
  put(path.join(dir, "Cargo.toml"), fs.readFileSync(path.join(src, "Cargo.toml"), "utf8").replaceAll('"/repo', `"${REPO}`));
  for (const f of fs.readdirSync(path.join(src, "src"))) put(path.join(dir, "src", f), fs.readFileSync(path.join(src, "src", f), "utf8"));
  return buildBin(dir, "rpc-harness", "backend with methods and streams");
}

/** one process; resolves with the parsed lines. `onLine` sees every line as it is printed. */
function job(bin, args, run) {
  return new Promise((ok) => {
    const p = spawn(bin, args, { stdio: ["ignore", "pipe", "pipe"], env: { ...process.env, RUST_BACKTRACE: "0" } });
    let rest = "", err = "";
    const lines = [];
    const take = (l) => {
      if (!l) return;
      let v; try { v = JSON.parse(l); } catch { return; /* cut off */ }
      lines.push(v);
      if (run.decides(v)) run.stop();
    };
    p.stdout.on("data", (d) => { const parts = (rest + d).split("\n"); rest = parts.pop(); parts.forEach(take); });
    p.stderr.on("data", (d) => { err = tail(err + d, 3000); });
    const timer = setTimeout(() => p.kill("SIGKILL"), 400_000);
    run.running.add(p);
    p.on("close", (code, signal) => { clearTimeout(timer); run.running.delete(p); take(rest); ok({ args, code, signal, lines, err }); });
  });
}

/** Runs the jobs; once one has shown a violation the others get a few seconds more. */
async function pool(tasks, width, decides) {
  const run = {
    decides, running: new Set(), stopped: false,
    stop() {
      if (run.stopped) return;
      run.stopped = true;
      setTimeout(() => { for (const p of run.running) p.kill("SIGKILL"); }, 4000).unref();
    },
  };
  const out = [];
  let next = 0;
  await Promise.all(Array.from({ length: width }, async () => { while (next < tasks.length && !run.stopped) { const i = next++; out[i] = await tasks[i](run); } }));
  return { results: out.filter(Boolean), stopped: run.stopped };
}

/** jobs: [profile, mode, count]; volumes: [what, size, threads, transport]; kinds: the problems that break this property */
export async function serve(report, conf, { jobs, kinds, storms = 0, volumes = [] }) {
  const bin = buildHarness();
  const deep = conf.tier === "thorough";
  await rounds(conf, 420, async (seed) => {
    const tasks = [];
    const s = String(seed);
    for (const [profile, mode, count] of jobs) {
      const chunk = { raw: 120, proxy: 120, threads: 40, ws: 20, ws1: 20 }[mode];
      for (let from = 0; from < count * (deep ? 3 : 1); from += chunk) tasks.push((run) => job(bin, ["run", s, String(from), String(Math.min(chunk, count * (deep ? 3 : 1) - from)), profile, mode], run));
    }
    for (let i = 0; i < storms; i++) tasks.push((run) => job(bin, ["storm", String(seed * 100 + i), deep ? "12" : "4", String(2 + (i % 5)), i % 2 ? "60" : "250"], run));
    for (const [what, size, threads, transport] of volumes) tasks.push((run) => job(bin, ["volume", s, what, String(size * (deep && transport !== "ws" ? 4 : 1)), String(threads), transport], run));
    // slow ones first
    const decides = (l) => l.t === "violation" && breaks(l.kind, kinds);
    const { results, stopped } = await pool(tasks.reverse(), 10, decides);
    for (const r of results) collect(report, r, kinds, stopped);
    if (report.violations.length) return;
  });
}

const breaks = (kind, kinds) => kinds.includes(kind) || ["hang", "crash"].includes(kind);

function collect(report, r, kinds, stopped) {
  const where = r.args.join(" ");
  let done = false, found = false;
  for (const l of r.lines) {
    if (l.t === "eval") report.eval(l.h || null);
    else if (l.t === "sample") report.sample({ scenario: l.scenario, events: l.events });
    else if (l.t === "done") { done = true; for (const [k, n] of Object.entries(l.counts)) report.count(k, n); }
    else if (l.t === "violation") {
      found = true;
      report.count(`observed problem: ${l.kind}`);
      if (breaks(l.kind, kinds)) report.violation(`${l.scenario}: [${l.kind}] ${l.msg}`, { rerun: `rpc-harness ${where}`, head: l.head, tail: l.tail });
    }
  }
  if (done || found) return;
  if (stopped && r.signal === "SIGKILL") return;
  if (["SIGSEGV", "SIGABRT", "SIGBUS", "SIGILL"].includes(r.signal)) report.violation(`the server process ends with ${r.signal}`, { rerun: `rpc-harness ${where}`, stderr: r.err });
  else throw new Inconclusive(`${where} ended with ${r.signal ?? r.code}: ${r.err}`);
}
