// Calls through the real generated client: the server's log and the results against what was called.
import { Rng } from "../rng.mjs";
import { Gen } from "../corpus.mjs";
import { Program, loadModule } from "../types.mjs";
import { Server, recorder, start, until, sleep, expected, readAs, same } from "./e2e.mjs";
import { lit, rounds, defect } from "./common.mjs";
import { Inconclusive, head } from "../util.mjs";
import { toJson, T, prim, ref, computeDepths } from "../spec.mjs";

export const rule = "a case is one call of a generated function that reached the real server: log entry and result compared; distinct by (method, arguments)";

export default async function (report, conf) {
  report.info.programs = await rounds(conf, 420, (seed) => round(report, conf, seed), 3);
  await knownCalls(report);
}

/** calls that are known to fail */
async function knownCalls(report) {
  const g = new Gen(new Rng("known"), { rpc: true });
  const ns = g.namespace("Known");
  const d = g.add({ name: "Adj", exp: "Adj", ns, mod: null, kind: "enum", attrs: ['tag = "t"', 'content = "c"'], docs: [], tag: { m: "adj", tag: "t", content: "c" }, tags: new Set(), variants: [{ name: "A", base: "A", wire: "A", attrs: [], style: "newtype", skipDe: false, fields: [{ id: null, attrs: [], ty: T("bmap", { kt: prim("u8"), t: prim("u8") }), dflt: false, skipDe: false }] }] });
  const m = g.method(ns, { name: "adj", kind: "method", n: 1, ctx: { noRefs: true } });
  m.args[0].ty = ref(d); m.ret = { how: "none", ty: prim("unit") };
  computeDepths(g.decls);
  const p = Program.build("c08k", "c08k", g, { what: "known calls" });
  const server = new Server(p.bin);
  try {
    await server.ready;
    recorder(server.port);
    const mod = await loadModule(p.generate(), `${p.crate}/gen`);
    const arg = { t: "A", c: new Map([[1, 2]]) };
    const out = await Promise.race([mod.Known.adj(arg).then(() => "ok", (e) => `rejected: ${head(JSON.stringify(e) ?? "", 200)}`), sleep(5000).then(() => "pending")]);
    report.eval("known adjacent-int-keys");
    if (out !== "ok" || server.calls.length !== 1) defect(report, "adjacent-int-keys", `an adjacently tagged argument with a map with integer keys: ${out}`, { arg });
  } finally { server.stop(); }
}

async function round(report, conf, seed) {
  const e = await start("c08", seed, conf, { methods: conf.tier === "thorough" ? 90 : 60 });
  const { rng, server, rec, cases } = e;
  try {
    const todo = rng.shuffle(cases);
    let i = 0;
    while (i < todo.length) {
      // bursts of concurrent calls, from one at a time to many
      const burst = todo.slice(i, i + rng.pick([1, 1, 2, 5, 20]));
      i += burst.length;
      const from = server.calls.length, sentFrom = rec.sent.length;
      for (const c of burst) {
        c.items = [];
        try {
          if (c.m.kind === "method") { c.out = c.m.f(...c.v); c.settled = c.out.then((r) => { c.result = r; c.state = "ok"; }, (x) => { c.result = x; c.state = "rejected"; }); }
          else { c.store = c.m.f(...c.v); c.off = c.store.subscribe((x) => c.items.push(x)); c.state = "stream"; }
        } catch (x) { c.state = "threw"; c.result = x; }
        if (rng.p(0.2)) await sleep(0);
      }
      const streams = burst.filter((c) => c.state === "stream");
      const settled = Promise.all(burst.map((c) => c.settled));
      await Promise.race([settled, sleep(8000)]);
      await until(() => streams.every((c) => c.items.length >= expected(c.m, c.v).length), 4000);
      await until(() => server.calls.length >= from + burst.length, 3000);
      for (const c of streams) { c.off(); if (rng.p(0.5)) c.store.close(); }
      if (server.dead) { report.violation(server.dead, { stderr: server.err }); return; }
      // every valid call ran once, in order, with equal arguments
      const ran = server.calls.slice(from);
      const frames = rec.sent.slice(sentFrom).filter((f) => "exec" in JSON.parse(f));
      if (frames.length !== burst.length) report.violation(`${burst.length} calls sent ${frames.length} requests`, { frames: frames.slice(0, 5), calls: burst.map((c) => c.m.where) });
      const show = (c) => `${c.m.where}(${c.v.map(lit).join(", ")})`;
      if (ran.length !== burst.length) report.violation(`${burst.length} calls ran ${ran.length} methods`, { calls: burst.map(show), ran });
      burst.forEach((c, k) => {
        report.eval(`${c.m.where} ${toJson(c.v)}`);
        report.count(c.m.kind === "method" ? "method calls" : "stream calls");
        const l = ran[k];
        if (l && (l.ns !== c.m.ns.exported || l.m !== c.m.name)) report.violation(`${show(c)} ran ${l.ns}.${l.m}`, {});
        else if (l) {
          l.args.forEach((a, x) => {
            const r = readAs(c.m.args[x].ty, a);
            report.count("arguments compared");
            if (r.bad || !same(r.v, c.v[x])) report.violation(`${show(c)}: argument ${x} (${c.m.args[x].name}) arrived as ${head(JSON.stringify(a), 200)}`, { sent: c.v[x], frame: frames[k] });
          });
          if (l.args.length !== c.v.length) report.violation(`${show(c)} ran with ${l.args.length} arguments`, {});
        }
        if (c.m.kind === "method") {
          if (c.state !== "ok") { report.violation(`${show(c)} ${c.state === "rejected" ? `rejects: ${head(String(c.result?.message ?? JSON.stringify(c.result)), 300)}` : c.state === "threw" ? `throws: ${head(String(c.result?.message ?? c.result), 300)}` : "does not settle"}`, { frame: frames[k] }); return; }
          const r = readAs(c.m.ret.ty, c.result);
          report.count("results compared");
          if (r.bad || !same(r.v, expected(c.m, c.v) ?? (c.m.ret.ty.k === "opt" ? undefined : null))) report.violation(`${show(c)} resolves to ${head(JSON.stringify(c.result) ?? "undefined", 200)}`, { expected: expected(c.m, c.v) });
        } else {
          if (c.state !== "stream") { report.violation(`${show(c)} ${c.state}: ${head(String(c.result?.message ?? c.result), 300)}`, {}); return; }
          const want = expected(c.m, c.v);
          report.count("stream items compared", want.length);
          if (c.items.length !== want.length) report.violation(`${show(c)} delivers ${c.items.length} of ${want.length} items`, { items: c.items });
          else want.forEach((w, x) => { const r = readAs(c.m.ret.ty, c.items[x]); if (r.bad || !(same(r.v, w) || (w === undefined && r.v === undefined))) report.violation(`${show(c)}: item ${x} is ${head(JSON.stringify(c.items[x]), 200)}`, { expected: w }); });
        }
        if (report.samples.length < 6 && k % 7 === 3) report.sample({ call: head(show(c), 200), logged: head(JSON.stringify(l), 200), result: head(JSON.stringify(c.result ?? c.items) ?? "", 120) });
      });
      if (report.violations.length > 8) return;
    }
    await sleep(50);
    const total = todo.length;
    if (server.calls.length !== total && !report.violations.length) report.violation(`${total} calls ran ${server.calls.length} methods in the end`, {});
    report.count("connections", rec.sockets);
    report.count("methods", e.all.length);
  } finally { server.stop(); }
  void Inconclusive;
}
