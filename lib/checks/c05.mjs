// Recursive type graphs: generation ends, deep values and faults at any depth get the same verdict from zod and serde, in any order of declaration.
import { Rng } from "../rng.mjs";
import { Gen } from "../corpus.mjs";
import { Program, z } from "../types.mjs";
import { gen, revive, same, toJson, Mismatch, reach, children, typeDepth, liveFields, liveVariants, isUnitVariant, isWrap, wrapVariant, genFields } from "../spec.mjs";
import { lit, describe, verdict, issues, strip, mutate, outOfScope, guardModel, clone, POOL, rounds } from "./common.mjs";
import { Inconclusive, head } from "../util.mjs";

export const rule = "a case is one (recursive type, value) judged by serde and zod in two programs that differ in the order of declarations; non-trivial if the value passes through a cycle or serde rejects it; distinct by (type, JSON)";

export default async function (report, conf) {
  report.info.programs = 2 * await rounds(conf, 420, (seed, i) => round(report, conf, seed, i), 3);
}

// Validation in bounded work: the steps of zod (calls of parse functions) are counted. A schema which looks at every part of a
// value twice needs 2^depth steps: nobody gets a verdict about such a value.
class TooLong extends Error { }
const LIMIT = 100_000;
let steps = 0;
for (const f of ["_getType", "_processInputParams"]) {
  const orig = z.ZodType.prototype[f];
  z.ZodType.prototype[f] = function (...a) { if (++steps > LIMIT) throw new TooLong(`${LIMIT} steps of validation`); return orig.apply(this, a); };
}
const counted = (schema, v) => { steps = 0; const r = verdict(schema, v); r.steps = steps; return r; };

const leadsOn = (t) => reach(t, (x) => x.k === "ref" && x.d.recursive);
/** one long path down, everything else as small as possible */
function deep(t, rng, budget) {
  const small = (x) => gen(x, rng, 0);
  if (budget <= 0 || !leadsOn(t)) return small(t);
  if (isWrap(t.k)) return deep(t.t, rng, budget);
  const one = (ts) => { const c = ts.map((x, i) => i).filter((i) => leadsOn(ts[i]) && ts[i].k !== "phantom"); const hit = c.length ? rng.pick(c) : -1; return ts.map((x, i) => (i === hit ? deep(x, rng, budget - 1) : small(x))); };
  switch (t.k) {
    case "vec": return [deep(t.t, rng, budget - 1)];
    case "arr": return Array.from({ length: t.n }, (_, i) => (i === 0 ? deep(t.t, rng, budget - 1) : small(t.t)));
    case "hset": case "bset": return new Set([deep(t.t, rng, budget - 1)]);
    case "hmap": case "bmap": return new Map([[small(t.kt), deep(t.t, rng, budget - 1)]]);
    case "opt": return deep(t.t, rng, budget);
    case "res": return leadsOn(t.t) ? { Ok: deep(t.t, rng, budget - 1) } : { Err: deep(t.e, rng, budget - 1) };
    case "tup": return one(t.ts);
    case "phantom": return null;
  }
  const d = t.d;
  const fields = (fs, depth) => {
    const live = liveFields(fs);
    const c = live.filter((f) => leadsOn(f.ty) && f.ty.k !== "phantom");
    const hit = c.length ? rng.pick(c) : null;
    const o = genFields(live.filter((f) => f !== hit), rng, 0);
    if (hit) { const v = deep(hit.ty, rng, depth); if (v !== undefined) o[hit.wire] = v; }
    return o;
  };
  if (d.from) return deep(d.from, rng, budget);
  if (d.kind === "struct") {
    const live = liveFields(d.fields);
    if (d.transparent || d.style === "newtype") return deep(live[0].ty, rng, budget);
    return d.style === "tuple" ? one(live.map((f) => f.ty)) : fields(d.fields, budget - 1);
  }
  const c = liveVariants(d).filter((v) => v.fields.some((f) => leadsOn(f.ty) && f.ty.k !== "phantom"));
  if (!c.length) return small(t);
  const v = rng.pick(c);
  const cost = d.tag.m === "un" ? 0 : d.tag.m === "int" ? 0 : 1;
  const p = v.style === "named" ? fields(v.fields, budget - 1 - cost) : v.style === "newtype" ? deep(v.fields[0].ty, rng, budget - cost) : (budget -= cost, one(v.fields.map((f) => f.ty)));
  return wrapVariant(d, v, p);
}
const jsonDepth = (x) => (x && typeof x === "object" ? 1 + Math.max(0, ...Object.values(x).map(jsonDepth)) : 0);

/** replace something near the bottom of the longest path */
function fault(v, rng) {
  const path = [];
  const down = (x) => {
    if (!x || typeof x !== "object") return;
    const kids = x instanceof Map ? [...x.keys()].map((k) => [k, x.get(k)]) : x instanceof Set ? [...x].map((y, i) => [i, y]) : Object.entries(x);
    if (!kids.length) return;
    const best = kids.map(([k, y]) => [size(y) + rng.f(), k, y]).sort((a, b) => b[0] - a[0])[0];
    path.push(best[1]);
    down(best[2]);
  };
  const size = (x) => (x instanceof Map ? 1 + Math.max(0, ...[...x.values()].map(size)) : x instanceof Set ? 1 + Math.max(0, ...[...x].map(size)) : x && typeof x === "object" ? 1 + Math.max(0, ...Object.values(x).map(size)) : 0);
  down(v);
  const at = Math.max(0, path.length - 1 - rng.n(3));
  const bad = clone(rng.pick(POOL));
  const set = (x, i) => {
    if (i > at || i >= path.length) return bad;
    if (x instanceof Map) return new Map([...x].map(([k, y]) => (k === path[i] ? [k, set(y, i + 1)] : [k, y])));
    if (x instanceof Set) return new Set([...x].map((y, j) => (j === path[i] ? set(y, i + 1) : y)));
    const c = Array.isArray(x) ? [...x] : { ...x };
    c[path[i]] = set(x[path[i]], i + 1);
    return c;
  };
  return [set(v, 0), at];
}

/** positions that serde does not support */
const EXTRA = `
#[derive(zod::Zod)]
#[zod(namespace = "Gamma")]
pub struct NoSerde {
    a: std::sync::Weak<NoSerde>, b: std::marker::PhantomData<NoSerde>, c: [Option<Box<NoSerde>>; 3], d: std::cell::Cell<Option<Box<NoSerde>>>,
    e: std::collections::HashSet<NoSerdeToo>, f: std::collections::HashMap<NoSerdeToo, NoSerdeToo>, g: Result<NoSerdeToo, Result<Vec<NoSerde>, NoSerdeToo>>,
    h: std::borrow::Cow<'static, NoSerdeToo>,
}
#[derive(zod::Zod, PartialEq, Eq, Hash, Clone)]
#[zod(namespace = "Alpha")]
pub enum NoSerdeToo { A(${Array.from({ length: 30 }, (_, k) => (k % 2 ? "Box<NoSerdeToo>" : "std::collections::BTreeMap<String, NoSerdeToo>")).join(", ")}), B(Box<(${Array.from({ length: 30 }, (_, k) => (k % 3 ? "Option<NoSerdeToo>" : "Vec<NoSerdeToo>")).join(", ")})>), C([Vec<NoSerdeToo>; 2]) }
`.replace(", PartialEq, Eq, Hash, Clone)]", ")]").replace("h: std::borrow::Cow<'static, NoSerdeToo>,", "h: std::borrow::Cow<'static, Plain>,") + `
#[derive(zod::Zod, Clone)]
#[zod(namespace = "Beta")]
pub struct Plain { a: Option<Box<Plain>>, b: std::borrow::Cow<'static, String> }
`;

async function round(report, conf, seed, i) {
  const rng = new Rng(`c05:${seed}`);
  const g = new Gen(rng.sub("decls"));
  g.namespace("Alpha"); g.namespace("Beta", "beta_ns"); g.namespace("Gamma");
  // several independent graphs, from a single self-referential type to large ones
  for (const n of [1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 4, 6, 10, 16]) g.recursive(n);
  g.recursive(24, { mod: null });
  // every position a type can refer to itself in
  report.count("positions of references", g.loops(i === 0 || conf.tier === "thorough" ? 1 : 0.25).length);
  const p = Program.build("c05", "c05", g, { extraSource: EXTRA, what: "recursive types" });
  const q = Program.build("c05b", "c05b", g, { extraSource: EXTRA, what: "recursive types", order: rng.shuffle(g.decls) });
  for (const x of [p, q]) { x.generate(); x.dump(); await x.load(); }

  const cases = [];
  const seen = new Set();
  const put = (root, value, kind, info) => {
    if (outOfScope(value)) return;
    const doc = toJson(value);
    if (jsonDepth(JSON.parse(doc)) > 120 || seen.has(`${root.rust} ${doc}`)) return;
    seen.add(`${root.rust} ${doc}`);
    cases.push({ root, value, doc, kind, depth: info });
  };
  const per = conf.tier === "thorough" ? 60 : 30;
  for (const root of p.roots) {
    const vr = rng.sub(root.rust);
    report.count("types");
    for (let j = 0; j < per; j++) put(root, gen(root.ty, vr, j % 7), "value");
    for (let j = 0; j < per / 2; j++) {
      const v = deep(root.ty, vr, vr.pick([5, 20, 50, 80, 100, 115]));
      put(root, v, "deep value");
      for (let k = 0; k < 3; k++) put(root, fault(v, vr)[0], "fault in depth");
    }
    for (let j = 0; j < per; j++) { try { put(root, mutate(root.ty, gen(root.ty, vr, 1 + (j % 5)), vr), "mutation"); } catch { /* none */ } }
  }
  const out = p.serde(cases.map((c) => ({ root: c.root.index, doc: c.doc })));
  let refused = 0, valid = 0, maxDepth = 0, mostSteps = 0;
  const suspects = [], hopeless = new Set();
  cases.forEach((c, j) => {
    const { root, kind, doc } = c;
    if (hopeless.has(root)) return;
    const isValue = kind === "value" || kind === "deep value";
    let value = c.value;
    const serdeOk = out[j].ok !== undefined;
    if (isValue) {
      valid++;
      if (!serdeOk) { refused++; if (process.env.VERIF_DEBUG) console.error(root.rust, doc, out[j].err); return; }
      try { value = revive(root.ty, JSON.parse(out[j].ok)); } catch (e) { if (!(e instanceof Mismatch)) throw e; refused++; return; }
    }
    const depth = jsonDepth(JSON.parse(doc));
    maxDepth = Math.max(maxDepth, depth);
    report.eval(depth >= 3 || !serdeOk ? `${root.rust} ${doc}` : null);
    report.count(`${kind}${serdeOk ? "" : " (rejected by serde)"}`);
    const detail = { value, text: head(p.dump().roots[root.index].schema, 1000) };
    const r = counted(p.schemaOf(root), clone(value));
    const r2 = counted(q.schemaOf(q.roots[root.index]), clone(value));
    if (process.env.VERIF_DEBUG && r.steps > 20000) console.error("STEPS", r.steps, doc.length, root.rust, root.decl?.tag?.m);
    mostSteps = Math.max(mostSteps, r.steps);
    if (r.threw instanceof TooLong || r2.threw instanceof TooLong) { report.violation(`${describe(root)}: no verdict about a value of depth ${depth} and ${doc.length} bytes after ${LIMIT} steps: ${head(doc, 300)}`, detail); hopeless.add(root); return; }
    if (r.success !== r2.success) { report.violation(`${describe(root)}: the verdict about ${lit(value)} depends on the order of the declarations`, detail); return; }
    if (isValue) {
      if (!r.success) report.violation(`${describe(root)}: a value of depth ${depth} is rejected: ${issues(r)} for ${head(doc, 300)}`, detail);
      else if (!same(r.data, value)) report.violation(`${describe(root)}: a value of depth ${depth} is changed: ${head(doc, 300)}`, detail);
    } else if (r.success && !serdeOk) suspects.push({ root, value, doc, detail, depth, err: out[j].err, parsed: r.data });
    if (j % 1501 === 3) report.sample({ type: root.rust, kind, depth, json: head(doc, 160), serde: serdeOk, zod: r.success });
  });
  guardModel(refused, valid, "C05");
  const without = p.serde(suspects.map((s) => ({ root: s.root.index, doc: toJson(strip(s.root.ty, s.value, s.parsed)) })));
  suspects.forEach((s, j) => {
    if (without[j].ok !== undefined) { report.count("additional keys (recorded findings of C02)"); return; }
    report.violation(`${describe(s.root)}: a fault at depth ${s.depth} is accepted: ${head(s.doc, 300)}: ${s.err}`, s.detail);
  });
  report.info.deepest = Math.max(report.info.deepest ?? 0, maxDepth);
  report.info.mostSteps = Math.max(report.info.mostSteps ?? 0, mostSteps);
  if (maxDepth < 60) throw new Inconclusive("no deep values");
}
void [children, typeDepth, isUnitVariant];
