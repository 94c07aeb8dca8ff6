// Calls with wrong arguments through the real generated client: nothing may leave it, and valid calls are never refused.
import { start, until, sleep } from "./e2e.mjs";
import { lit, rounds, singles, mutate, clone, strip, POOL, verdict, outOfScope } from "./common.mjs";
import { Inconclusive, head } from "../util.mjs";
import { toJson, undefable, gen } from "../spec.mjs";

export const rule = "a case is one call of a generated function judged by its outcome, the frames it sent and the server's log; distinct by (method, arguments); the validity of an argument list is serde's verdict";

export default async function (report, conf) {
  report.info.programs = await rounds(conf, 420, (seed) => round(report, conf, seed), 3);
}

async function round(report, conf, seed) {
  const e = await start("c09", seed, conf, { methods: 60 });
  const { rng, server, rec, p, all } = e;
  try {
    const bad = [];
    for (const m of all) {
      const vr = rng.sub(`bad ${m.where}`);
      const seen = new Set();
      const put = (v, kind, why) => { const k = `${lit(v)} ${v.length}`; if (!seen.has(k) && !outOfScope(v)) { seen.add(k); bad.push({ m, v, kind, why }); } };
      const good = () => m.args.map((a) => gen(a.ty, vr, vr.r(0, 4)));
      // the number of arguments
      for (let j = 0; j < 2; j++) {
        const v = good();
        if (v.length) put(v.slice(0, -1), "one missing", "count");
        if (v.length > 1) put([], "all missing", "count");
        put([...v, clone(vr.pick(POOL))], "one more", "count");
        put([...v, undefined], "one more", "count");
      }
      m.args.forEach((a, i) => { const v = good(); for (const x of singles(v[i], 10, vr)) put(v.map((y, j) => (j === i ? x : clone(y))), "single"); });
      const n = conf.tier === "thorough" ? 60 : 28;
      for (let j = 0; m.args.length && j < n; j++) {
        const v = good();
        const i = vr.n(v.length);
        const w = vr.f();
        if (w < 0.55) { const tr = []; try { v[i] = mutate(m.args[i].ty, v[i], vr, tr); } catch { continue; } put(v, `mutation ${tr.at(-1) ?? "?"}`); }
        else if (w < 0.75) { v[i] = clone(vr.pick(POOL)); put(v, "foreign value"); }
        else if (w < 0.85 && v.length > 1) { const k = (i + 1) % v.length; [v[i], v[k]] = [v[k], v[i]]; put(v, "swapped"); }
        else if (w < 0.92) { const o = vr.pick(all); if (o.args.length === m.args.length) put(o.args.map((a) => gen(a.ty, vr, 2)), "arguments of another method"); }
        else { v[i] = [v[i]]; put(v, "wrapped"); }
      }
    }
    // what serde says about them
    const asked = bad.filter((b) => b.why !== "count" && b.m.root && b.v.length === b.m.args.length);
    p.serde(asked.map((b) => ({ root: b.m.root.index, doc: toJson(b.v), mode: "v" }))).forEach((r, i) => { asked[i].serde = r; });
    // values that differ from a valid one only by keys which zod drops: recorded findings of C02
    const rejected = asked.filter((b) => b.serde.ok === undefined);
    await p.load();
    const tolerated = rejected.map((b) => { const r = verdict(p.schemaOf(b.m.root), clone(b.v)); return r.success ? [b, strip(b.m.tuple, b.v, r.data)] : null; }).filter(Boolean);
    p.serde(tolerated.map(([b, v]) => ({ root: b.m.root.index, doc: toJson(v), mode: "v" }))).forEach((r, i) => { if (r.ok !== undefined) tolerated[i][0].finding = true; });
    for (const b of bad) b.invalid = b.why === "count" || (b.serde && b.serde.ok === undefined && !b.finding);
    const todo = rng.shuffle(bad.filter((b) => b.invalid));
    report.count("valid by serde or recorded findings of C02, not used", bad.length - todo.length);

    const fences = rng.shuffle(e.cases);
    let k = 0;
    const show = (c) => `${c.m.where}(${c.v.map(lit).join(", ")})`;
    const valid = async (c) => {
      report.count("valid calls");
      report.eval(`valid ${c.m.where} ${toJson(c.v)}`);
      try {
        if (c.m.kind === "method") return await Promise.race([c.m.f(...c.v).then(() => true, (x) => { report.violation(`${show(c)} is refused: ${head(String(x?.message ?? JSON.stringify(x)), 300)}`, {}); return false; }), sleep(8000).then(() => null)]);
        const s = c.m.f(...c.v);
        const off = s.subscribe(() => {});
        await sleep(1); off(); s.close();
        return true;
      } catch (x) { report.violation(`${show(c)} is refused: ${head(String(x?.message ?? x), 300)}`, {}); return false; }
    };
    const methods = fences.filter((c) => c.m.kind === "method");
    for (let i = 0; i < todo.length;) {
      const part = todo.slice(i, i + rng.r(1, 30));
      i += part.length;
      const sentFrom = rec.sent.length, ranFrom = server.calls.length;
      const valids = [];
      for (const c of part) {
        report.eval(`${c.m.where} ${lit(c.v)} ${c.v.length}`);
        report.count(`invalid: ${c.kind}`);
        let out, threw;
        const frames = rec.sent.length;
        try { out = c.m.f(...clone(c.v)); } catch (x) { threw = x; }
        if (c.m.kind === "stream") {
          if (!threw) report.violation(`${show(c)} does not throw (${c.kind}${c.serde ? `: ${c.serde.err}` : ""})`, { args: c.v });
        } else if (threw) report.violation(`${show(c)} throws instead of rejecting`, { error: String(threw) });
        else if (typeof out?.then !== "function") report.violation(`${show(c)} returns no promise`, {});
        else {
          let state = "pending";
          out.then((r) => { state = "resolved"; c.result = r; }, (x) => { state = "rejected"; c.result = x; });
          for (let j = 0; j < 8 && state === "pending"; j++) await null;
          if (state !== "rejected") report.violation(`${show(c)} is not rejected by the client but ${state} (${c.kind}${c.serde ? `: ${c.serde.err}` : ""})`, { args: c.v, frames: rec.sent.slice(frames) });
          // an answer of the server is no rejection by the client
          else if (!(c.result instanceof Error)) report.violation(`${show(c)} is rejected with ${head(JSON.stringify(c.result) ?? "", 200)}`, {});
        }
        if (rng.p(0.05)) valids.push(fences[k++ % fences.length]), await valid(valids.at(-1));
      }
      // everything sent so far has been handled once this valid call is answered
      const fence = methods[k++ % methods.length];
      valids.push(fence);
      const r = await valid(fence);
      if (r === null) report.violation(`${show(fence)} is not answered`, {});
      await until(() => server.calls.length >= ranFrom + valids.length, 2000);
      const execs = rec.sent.slice(sentFrom).map((f) => JSON.parse(f)).filter((f) => f.exec);
      if (execs.length !== valids.length || execs.some((f, x) => `${f.exec.namespace}.${f.exec.method}` !== valids[x].m.where)) report.violation(`${part.length} invalid and ${valids.length} valid calls sent ${execs.length} requests`, { sent: execs.slice(0, 10), invalid: part.map(show).slice(0, 40), valid: valids.map(show) });
      const ran = server.calls.slice(ranFrom);
      if (ran.length !== valids.length) report.violation(`${valids.length} valid calls ran ${ran.length} methods`, { ran: ran.slice(0, 10), invalid: part.map(show).slice(0, 40) });
      if (server.dead) { report.violation(server.dead, { stderr: server.err }); return; }
      if (report.violations.length > 8) return;
      if (report.samples.length < 6) report.sample({ invalid: head(show(part[0]), 200), kind: part[0].kind, serde: part[0].serde?.err, requests_sent: execs.length, valid: valids.length });
    }
    if (todo.length < 300) throw new Inconclusive(`only ${todo.length} invalid calls`);
    report.count("methods", all.length);
  } finally { server.stop(); }
  void undefable;
}
