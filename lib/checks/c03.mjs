// Asymmetric serde attributes: canonical input of the server against schemas and types; twins without serialisation-only attributes.
import { corpus, mutate, clone, strip, outOfScope, lit, describe, verdict, issues, guardModel, defect, rounds } from "./common.mjs";
import { Program } from "../types.mjs";
import { gen, toJson, same, isUnitVariant, liveFields, liveVariants, genFields, genPayload, wrapVariant, ref } from "../spec.mjs";
import { explicit, runProbes, literal } from "../probes.mjs";
import { probesFor, judge } from "./c04.mjs";
import { head, Inconclusive } from "../util.mjs";

export const rule = "a case is one (type with asymmetric attributes, input) judged by serde, zod and tsc, or one comparison of a type with its twin without serialisation-only attributes; distinct by (type, input)";

const EXTRA = `
#[derive(Debug, zod::Zod, serde::Serialize, serde::Deserialize)]
#[zod(namespace = "Alpha")]
pub struct DefTuple(pub u8, #[serde(default)] pub u8);
#[derive(Debug, zod::Zod, serde::Serialize, serde::Deserialize)]
#[zod(namespace = "Alpha")]
pub struct Inherits { #[serde(default)] pub constructor: String, #[serde(rename = "toString")] pub to_string: Option<u8> }
#[derive(Debug, zod::Zod, serde::Serialize, serde::Deserialize)]
#[zod(namespace = "Alpha")]
#[serde(tag = "t")]
pub enum WithOther { A { x: u8 }, #[serde(other)] Rest }
`;

/** attributes that influence serialisation only are removed */
function deOnly(a) {
  if (/^(skip_serializing|skip_serializing_if\b.*|into\b.*|serialize_with\b.*)$/s.test(a)) return null;
  const m = /^(rename|rename_all)\((.*)\)$/s.exec(a);
  if (!m) return a;
  const d = /deserialize = ("(?:[^"\\]|\\.)*")/.exec(m[2]);
  return d ? `${m[1]}(deserialize = ${d[1]})` : null;
}
function twinOf(d, ns) {
  const strip = (as) => as.map(deOnly).filter(Boolean);
  const field = (f) => ({ ...f, attrs: strip(f.attrs) });
  const t = { ...d, name: `${d.name}Tw`, ns, attrs: strip(d.attrs), into: false, noSer: true, twinOf: d, docs: [] };
  if (d.exp === d.name) t.exp = t.name;
  if (d.fields) t.fields = d.fields.map(field);
  if (d.variants) t.variants = d.variants.map((v) => ({ ...v, attrs: strip(v.attrs), fields: v.fields.map(field) }));
  return t;
}
const attrCount = (d) => JSON.stringify([d.attrs, d.fields?.map((f) => f.attrs), d.variants?.map((v) => [v.attrs, v.fields.map((f) => f.attrs)])]);

export default async function (report, conf) {
  report.info.programs = await rounds(conf, 420, (seed, i) => round(report, conf, seed, i), 3);
}

async function round(report, conf, seed, i) {
  const { g, rng } = corpus(seed, "c03", { n: conf.tier === "thorough" ? 150 : 110, asym: true });
  for (const d of g.grid({})) g.oneSided(d);
  const twinNs = g.namespace("Twin");
  twinNs.decls = [];
  const twins = [];
  for (const d of [...g.decls]) {
    const t = twinOf(d, twinNs);
    if (attrCount(t) !== attrCount(d) || d.into) { twins.push(t); g.decls.push(t); twinNs.decls.push(t); }
  }
  const p = Program.build("c03", "c03", g, { rawRoots: ["DefTuple", "WithOther", "Inherits"].map((n) => ({ rust: `crate::${n}`, exported: ["Alpha", n] })), extraSource: EXTRA, what: "corpus of types with asymmetric attributes" });
  await p.load();
  const dump = p.dump();
  const roots = p.roots.filter((r) => !r.raw && !r.decl.twinOf);
  const rootOf = new Map(p.roots.filter((r) => r.decl).map((r) => [r.decl, r]));

  // 1. twins
  for (const t of twins) {
    const a = dump.roots[rootOf.get(t.twinOf).index], b = dump.roots[rootOf.get(t).index];
    report.eval(`twin ${attrCount(t.twinOf)} ${a.schema}`);
    report.count("twins");
    if (a.schema !== b.schema) report.violation(`${t.twinOf.name}: attributes that only affect serialisation change the schema`, { with: a.schema, without: b.schema, attrs: attrCount(t.twinOf) });
    if (JSON.stringify(a.type_def) !== JSON.stringify(b.type_def)) report.violation(`${t.twinOf.name}: attributes that only affect serialisation change the type`, { with: a.type_def, without: b.type_def, attrs: attrCount(t.twinOf) });
  }

  // 2. values
  const per = conf.tier === "thorough" ? 160 : 80;
  const cases = [];
  const put = (root, value, kind, o = {}) => { if (!outOfScope(value)) cases.push({ root, value, kind, doc: toJson(value), ...o }); };
  for (const root of roots) {
    const d = root.decl, vr = rng.sub(root.rust);
    report.count("types");
    for (let j = 0; j < per; j++) put(root, gen(root.ty, vr, j % 5), "canonical");
    for (let j = 0; j < per; j++) {
      const trace = [];
      try { const m = mutate(root.ty, gen(root.ty, vr, 1 + (j % 4)), vr, trace); put(root, m, trace.at(-1) ?? "mutation"); } catch { /* no such mutation */ }
    }
    // names of the other direction and of members that are not read
    const fieldSets = d.kind === "struct" ? (d.style === "named" && !d.transparent && !d.from ? [[d.fields, (x) => x]] : []) : d.from ? [] : liveVariants(d).filter((v) => v.style === "named").map((v) => [v.fields, (x) => wrapVariant(d, v, x)]);
    for (const [fs, wrap] of fieldSets) {
      for (const f of fs) {
        const base = genFields(fs, vr, 3);
        const names = new Set([f.base, f.wire, `ser_${f.base}`, `alias_${f.base}`, f.base.toUpperCase()]);
        for (const live of liveFields(fs)) names.delete(live.wire);
        for (const n of names) {
          if (f.alias && n === `alias_${f.base}`) { // a second name of the same member: recorded for C02
            if (f.wire in base) { const o = { ...base, [n]: base[f.wire] }; delete o[f.wire]; put(root, wrap(o), "alias"); }
            continue;
          }
          const withName = { ...base, [n]: f.skipDe ? gen(f.ty, vr, 2) : (base[f.wire] ?? 1) };
          put(root, wrap(withName), "unread name", { unread: f.skipDe ? [n] : [] });
          if (!f.skipDe && f.wire in base) { const o = { ...withName }; delete o[f.wire]; put(root, wrap(o), "other name"); }
        }
        if (!f.skipDe) { const o = { ...base }; delete o[f.wire]; put(root, wrap(o), f.dflt ? "default omitted" : "required omitted"); }
      }
    }
    if (d.kind === "enum" && !d.from) {
      for (const v of d.variants) {
        const payload = isUnitVariant(v) ? undefined : genPayload(v, vr, 2);
        if (v.skipDe) put(root, wrapVariant(d, v, payload), "skipped variant", d.tag.m === "un" ? {} : { never: true });
        if (v.renamed) put(root, wrapVariant(d, { ...v, wire: v.base }, payload), "serialisation name of variant");
      }
    }
  }
  const out = p.serde(cases.map((c) => ({ root: c.root.index, doc: c.doc })));
  let refused = 0, canonical = 0;
  const suspects = [];
  cases.forEach((c, j) => {
    const { root, value, kind, doc } = c;
    const serdeOk = out[j].ok !== undefined || out[j].err.startsWith("SER ");
    const r = verdict(p.schemaOf(root), clone(value));
    report.eval(`${root.rust} ${doc}`);
    report.count(kind === "canonical" || serdeOk ? kind : `${kind} (rejected by serde)`);
    const detail = { value, text: head(dump.roots[root.index].schema, 1500), attrs: attrCount(root.decl) };
    if (kind === "canonical" || (kind === "default omitted" && serdeOk)) {
      canonical++;
      if (!serdeOk) { refused++; if (process.env.VERIF_DEBUG) console.error(root.rust, doc, out[j].err); return; }
      if (!r.success) report.violation(`${describe(root)}: the server accepts ${head(doc, 200)}, the schema rejects it: ${issues(r)}`, detail);
      else if (kind === "canonical" && !same(r.data, value)) report.violation(`${describe(root)}: ${head(doc, 200)} is parsed as ${lit(r.data)}`, detail);
      return;
    }
    if (kind === "required omitted" && r.success && !serdeOk) report.violation(`${describe(root)}: a required member may be omitted: ${lit(value)}`, detail);
    else if (c.never && r.success) report.violation(`${describe(root)}: a variant that is not deserialised is accepted: ${lit(value)}`, detail);
    else if (r.success && !serdeOk) suspects.push({ root, value, doc, detail, err: out[j].err, parsed: r.data });
    for (const n of c.unread ?? []) {
      const deep = root.decl.kind === "struct" ? r.data : r.success && payloadOf(root.decl, r.data);
      if (r.success && deep && typeof deep === "object" && Object.hasOwn(deep, n)) report.violation(`${describe(root)}: the member ${n} is not read by the server but part of the schema`, detail);
    }
    if (j % 3001 === 11) report.sample({ type: root.rust, kind, value: lit(value), serde: serdeOk, zod: r.success });
  });
  guardModel(refused, canonical, "C03");
  const without = p.serde(suspects.map((s) => ({ root: s.root.index, doc: toJson(strip(s.root.ty, s.value, s.parsed)) })));
  suspects.forEach((s, j) => {
    if (without[j].ok !== undefined || without[j].err.startsWith("SER ")) { report.count("additional keys (recorded findings of C02)"); return; }
    report.violation(`${describe(s.root)}: the schema accepts ${lit(s.value)}, the server rejects ${head(s.doc, 200)}: ${s.err}`, s.detail);
  });

  // 3. types
  const probes = [];
  for (const root of roots) {
    const d = root.decl, vr = rng.sub(`ts${root.rust}`), type = `${d.ns.exported}.${d.exp}`;
    probes.push(...probesFor(type, root.ty, vr, { positive: 5, negative: 5 }, describe(root)));
    if (d.kind === "struct" && d.style === "named" && !d.transparent && !d.from) {
      for (const f of d.fields) {
        const base = explicit(root.ty, genFields(d.fields, vr, 2));
        if (f.skipDe && liveFields(d.fields).length) probes.push({ type, value: { ...base, [f.wire]: null }, good: false, kind: "unread member", info: describe(root) });
        if (f.dflt) { const o = { ...base }; delete o[f.wire]; probes.push({ type, code: `const p: ${type} = ${literalWithout(root.ty, o)};`, good: true, info: describe(root) }); }
      }
    }
    if (d.kind === "enum" && !d.from && d.tag.m !== "un") for (const v of d.variants) if (v.skipDe) probes.push({ type, value: wrapVariant(d, v, isUnitVariant(v) ? undefined : genPayload(v, vr, 1)), good: false, kind: "skipped variant", info: describe(root) });
  }
  judge(report, runProbes(p.generate(), g.namespaces.map((n) => n.exported), probes), (q) => q.type);

  // recorded findings
  const [raw, other, inherits] = ["DefTuple", "WithOther", "Inherits"].map((n) => p.roots.find((r) => r.rust === `crate::${n}`));
  const [w] = p.serde([{ root: other.index, doc: '{"t":"unheard of"}' }]);
  if (i === 0 && w.ok !== undefined && !verdict(p.schemaOf(other), { t: "unheard of" }).success) defect(report, "other", 'WithOther: the server reads {"t":"unheard of"} as the variant with #[serde(other)], the schema rejects it');
  const [o] = p.serde([{ root: raw.index, doc: "[42]" }]);
  if (i === 0 && o.ok !== undefined && !verdict(p.schemaOf(raw), [42]).success) defect(report, "default-in-tuple", "DefTuple: the server accepts [42], the schema rejects it");
  const [h] = p.serde([{ root: inherits.index, doc: "{}" }]);
  if (i === 0 && h.ok !== undefined && !verdict(p.schemaOf(inherits), {}).success) defect(report, "inherited-key", "Inherits: the server accepts {}, the schema rejects it");
  if (!twins.length) throw new Inconclusive("no twins");
}
function literalWithout(ty, o) { return typedLiteral(ty, o); }
function payloadOf(d, data) {
  if (d.tag.m === "ext") return data && typeof data === "object" ? Object.values(data)[0] : null;
  if (d.tag.m === "adj") return data?.[d.tag.content];
  return data;
}
import { typedLiteral } from "../probes.mjs";
void [ref, literal];
