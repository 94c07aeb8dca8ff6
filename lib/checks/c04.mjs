// The TypeScript compiler judges literals against the generated types.
import { corpus, builtinRoots, gridRoots, singles, mutate, clone, lit, describe, defect, rounds } from "./common.mjs";
import { Program } from "../types.mjs";
import { gen, tup, prim, ref, rust, computeDepths, typeDepth, liveFields, liveVariants, isUnitVariant } from "../spec.mjs";
import { typedLiteral, explicit, admits, runProbes, literal } from "../probes.mjs";
import { Inconclusive, head } from "../util.mjs";

export const rule = "a case is one literal judged by tsc against one generated type (exported type, inline type, parameters or result of a client function); distinct by (type, literal)";

export default async function (report, conf) {
  report.info.programs = await rounds(conf, 420, (seed, i) => round(report, conf, seed, i), 3);
}

export function probesFor(type, ty, vr, { positive, negative }, info) {
  const out = [];
  const seen = new Set();
  const add = (good, value, kind) => {
    const l = literal(value);
    if (seen.has(l)) return;
    seen.add(l);
    out.push({ type, value, text: good ? typedLiteral(ty, value) : undefined, good, kind, info });
  };
  for (let j = 0; j < positive; j++) add(true, explicit(ty, gen(ty, vr, j % 5)), "value");
  for (let j = 0; j < 2; j++) for (const m of singles(explicit(ty, gen(ty, vr, 1 + 2 * j)), negative, vr)) if (!admits(ty, m)) add(false, m, "single");
  const more = out.length + Math.ceil(negative / 2);
  for (let j = 0; j < negative * 4 && out.length < more; j++) {
    const trace = [];
    let m;
    const v = explicit(ty, gen(ty, vr, 1 + (j % 4)));
    try { m = mutate(ty, clone(v), vr, trace); } catch { continue; }
    if (!admits(ty, m)) add(false, m, trace.at(-1) ?? "?");
  }
  return out;
}
export function judge(report, outcome, text) {
  for (const { probe, errors } of outcome) {
    report.eval(`${probe.type} ${probe.code ?? literal(probe.value)}`);
    report.count(probe.good ? "accepted literals" : "rejected literals");
    if (!probe.good) report.count(`mutation ${probe.kind}`);
    const what = head(probe.code ?? probe.text ?? literal(probe.value), 300);
    if (probe.finding) { if (probe.good ? errors.length : !errors.length) defect(report, probe.finding, `${probe.type} ${probe.good ? "rejects" : "accepts"} ${what}`, { errors }); continue; }
    if (probe.good && errors.length) report.violation(`${probe.info ?? probe.type}: the type rejects ${what}: ${head(errors[0], 300)}`, { ts: text?.(probe) });
    if (!probe.good && !errors.length) report.violation(`${probe.info ?? probe.type}: the type accepts ${what} (${probe.kind})`, { ts: text?.(probe) });
  }
}

/** keys an object of the declaration may have, if all of its values are objects */
function keysOf(d) {
  if (d.from || d.noDe || d.noRoot || d.transparent) return null;
  const names = (fs) => liveFields(fs).map((f) => f.wire);
  if (d.kind === "struct") return d.style === "named" ? names(d.fields) : null;
  const vs = liveVariants(d);
  if (d.tag.m === "adj") return [d.tag.tag, d.tag.content];
  if (d.tag.m === "ext") return vs.some(isUnitVariant) ? null : vs.map((v) => v.wire);
  return d.tag.m === "int" && vs.every((v) => v.style !== "newtype") ? [d.tag.tag, ...vs.flatMap((v) => names(v.fields))] : null;
}
/** structs with one or two flattened members */
function flats(g, rng, n) {
  const fit = g.decls.map((d) => [d, keysOf(d)]).filter(([, k]) => k && !k.includes("__proto__"));
  const out = [];
  for (let i = 0; fit.length && i < n; i++) {
    const parts = [];
    const used = new Set(["own"]);
    for (const [d, keys] of rng.sample(fit, Math.min(fit.length, 4))) {
      if (parts.length === 1 + (i % 2) || keys.some((k) => used.has(k))) continue;
      keys.forEach((k) => used.add(k));
      parts.push(d);
    }
    if (parts.length) out.push({ name: `Flat${i}`, own: rng.p(0.3) ? null : prim(rng.pick(["u8", "string", "bool"])), parts, first: rng.p(0.5), boxed: rng.p(0.3) });
  }
  return out;
}
const flatSource = (fl) => fl.map((f) => {
  const own = f.own ? [`pub own: ${rust(f.own)}`] : [];
  const parts = f.parts.map((d, i) => `#[serde(flatten)] pub part${i}: ${f.boxed ? `Box<${rust(ref(d))}>` : rust(ref(d))}`);
  return `#[derive(zod::Zod, serde::Deserialize)]\n#[zod(namespace = "Alpha")]\npub struct ${f.name} { ${(f.first ? [...own, ...parts] : [...parts, ...own]).join(", ")} }\n`;
}).join("");
// flattened types that are no plain objects
const FLAT_ODD = `
#[derive(zod::Zod, serde::Deserialize)]
#[zod(namespace = "Alpha")]
pub struct FlatResult { pub own: u8, #[serde(flatten)] pub r: Result<u8, String> }
#[derive(zod::Zod, serde::Deserialize)]
#[zod(namespace = "Alpha")]
pub struct FlatOption { pub own: u8, #[serde(flatten)] pub r: Option<FlatResult2> }
#[derive(zod::Zod, serde::Deserialize)]
#[zod(namespace = "Alpha")]
pub struct FlatResult2 { pub more: u8 }
#[derive(zod::Zod, serde::Deserialize)]
#[zod(namespace = "Alpha")]
pub struct FlatMap { pub own: u8, #[serde(flatten)] pub r: std::collections::BTreeMap<String, u8> }
`;
const FLAT_ODD_PROBES = [
  ["FlatResult", "{ own: 1, Ok: 2 }", true], ["FlatResult", '{ own: 1, Err: "x" }', true], ["FlatResult", '{ Err: "x" }', false], ["FlatResult", "{ Ok: 1 }", false], ["FlatResult", '{ own: 1, Ok: "x" }', false], ["FlatResult", "{ own: 1, Err: 1 }", false], ["FlatResult", "{ own: 1 }", false],
  ["FlatOption", "{ own: 1, more: 2 }", true], ["FlatOption", "{ more: 2 }", false], ["FlatOption", '{ own: 1, more: "x" }', false], ["FlatOption", "{ own: 1 }", true, "flatten-option"],
  ["FlatMap", "{ own: 1, x: 2 }", true, "flatten-map"],
].map(([t, text, good, finding]) => ({ type: `Alpha.${t}`, text, code: `const _v: Alpha.${t} = ${text};`, good, kind: "flatten odd", finding, info: `Alpha.${t}` }));
function flatProbes(f, vr, { positive, negative }) {
  const type = `Alpha.${f.name}`, out = [];
  const good = () => f.parts.map((d) => explicit(ref(d), gen(ref(d), vr, 3)));
  const isObject = (v) => v && typeof v === "object" && !Array.isArray(v) && !(v instanceof Map) && !(v instanceof Set);
  const join = (texts, own) => `{ ${[...(own === undefined ? [] : [`own: ${own}`]), ...texts.map((t) => t.replace(/^\{ ?(.*?)[ ,]*\}$/s, "$1")).filter(Boolean)].join(", ")} }`;
  const own = () => (f.own ? literal(gen(f.own, vr, 1)) : undefined);
  for (let j = 0; j < positive; j++) out.push({ type, text: join(good().map((v, i) => typedLiteral(ref(f.parts[i]), v)), own()), good: true, kind: "value" });
  for (let j = 0; j < negative; j++) {
    const vs = good();
    if (f.own && vr.p(0.15)) { out.push({ type, text: join(vs.map((v, i) => typedLiteral(ref(f.parts[i]), v)), vr.pick([undefined, "null", "[]"])), good: false, kind: "flatten own" }); continue; }
    const i = vr.n(vs.length);
    const bad = singles(vs[i], 40, vr).filter((m) => isObject(m) && !Object.hasOwn(m, "own") && !admits(ref(f.parts[i]), m));
    if (!bad.length) continue;
    const m = vr.pick(bad);
    // a member of the other part may repair what was taken away
    if (vs.some((v, k) => k !== i && Object.keys(v).some((key) => Object.hasOwn(m, key)))) continue;
    out.push({ type, text: join(vs.map((v, k) => (k === i ? literal(m) : typedLiteral(ref(f.parts[k]), v))), own()), good: false, kind: "flatten part" });
  }
  return out.map((p) => ({ ...p, code: `const _v: ${type} = ${p.text};`, info: `${type} of ${f.parts.map((d) => d.exp).join(" and ")}` }));
}

async function round(report, conf, seed, i) {
  const { g, rng } = corpus(seed, "c04", { n: conf.tier === "thorough" ? 160 : 110, mixed: true, grid: {}, flat: 3 });
  for (let j = 0; j < 40; j++) g.method(rng.pick(g.namespaces));
  computeDepths(g.decls);
  const fl = flats(g, rng.sub("flat"), 16);
  const p = Program.build("c04", "c04", g, { extraRoots: [...builtinRoots(), ...gridRoots(g)], extraSource: flatSource(fl) + FLAT_ODD, what: "corpus of supported types" });
  const code = p.generate();
  const dump = p.dump();
  const amount = conf.tier === "thorough" ? { positive: 10, negative: 14 } : { positive: 6, negative: 9 };
  const probes = [];
  for (const root of p.roots) {
    const vr = rng.sub(root.rust);
    const texts = dump.roots[root.index];
    const types = root.decl ? [`${root.decl.ns.exported}.${root.decl.exp}`] : [texts.inline, texts.type_def.text];
    if (root.decl && texts.inline !== types[0]) types.push(texts.inline);
    for (const type of new Set(types)) probes.push(...probesFor(type, root.ty, vr.sub(type), root.decl ? amount : { positive: 3, negative: 4 }, describe(root)));
    report.count("types");
  }
  for (const f of fl) { probes.push(...flatProbes(f, rng.sub(f.name), { positive: 4, negative: 8 })); report.count("flattening types"); }
  probes.push(...FLAT_ODD_PROBES);
  for (const ns of g.namespaces) {
    for (const m of ns.methods) {
      const f = `${ns.exported}.${m.name}`;
      const vr = rng.sub(f);
      report.count("functions");
      probes.push(...probesFor(`Parameters<typeof ${f}>`, tup(...m.args.map((a) => a.ty)), vr, amount, `arguments of ${f}`));
      const res = m.kind === "method" ? `Awaited<ReturnType<typeof ${f}>>` : `ItemOf<ReturnType<typeof ${f}>>`;
      probes.push(...probesFor(res, m.ret.ty, vr, amount, `result of ${f}`));
      const good = explicit(tup(...m.args.map((a) => a.ty)), gen(tup(...m.args.map((a) => a.ty)), vr, 3));
      const call = (args) => `${f}(${args.join(", ")});`;
      const texts = good.map((v, k) => typedLiteral(m.args[k].ty, v));
      probes.push({ type: f, code: call(texts), good: true, info: `call of ${f}` });
      if (good.length) probes.push({ type: f, code: call(texts.slice(1)), good: false, kind: "argument missing", info: `call of ${f}`, maybe: true });
      probes.push({ type: f, code: call([...texts, 1]), good: false, kind: "additional argument", info: `call of ${f}` });
      probes.push({ type: f, code: m.kind === "method" ? `const r: Promise<any> = ${f}(...([] as any as Parameters<typeof ${f}>));` : `const r: { subscribe(cb: (x: any) => void): () => void; close(): void } = ${f}(...([] as any as Parameters<typeof ${f}>));`, good: true, info: `kind of ${f}` });
    }
  }
  const outcome = runProbes(code, g.namespaces.map((n) => n.exported), probes, "type ItemOf<S> = S extends { subscribe(cb: (x: infer T) => void): any } ? T : never;");
  judge(report, outcome, (probe) => { const k = /^(\w+)\.(\w+)$/.exec(probe.type); const d = k && dump.collect[k[1]]?.find((x) => x.name === k[2]); return d?.type_def; });
  for (const o of outcome.filter((_, j) => j % 900 === 3)) report.sample({ type: o.probe.type, literal: head(o.probe.code ?? literal(o.probe.value), 160), expected: o.probe.good ? "accepted" : "rejected", errors: o.errors.length });
  const neg = outcome.filter((o) => !o.probe.good).length;
  if (neg < outcome.length / 5) throw new Inconclusive(`only ${neg} of ${outcome.length} probes are negative`);
}
void [lit, defect, typeDepth];
