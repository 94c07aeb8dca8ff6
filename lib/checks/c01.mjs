// Values that the real serde serialises, judged by the real zod running the real generated schemas.
import { corpus, builtinRoots, gridRoots, RAW_DOCS, lit, describe, issues, verdict, guardModel, defect, rounds } from "./common.mjs";
import { Program } from "../types.mjs";
import { gen, revive, same, toJson, Mismatch } from "../spec.mjs";
import { Violation, head } from "../util.mjs";

export const rule = "a case is one (type, value): the value is serialised by serde, revived into the documented representation and parsed by zod; non-trivial and distinct by (type, JSON of the value)";

const EXTRA = `
#[derive(Debug, zod::Zod, serde::Serialize, serde::Deserialize)]
#[zod(namespace = "Alpha")]
pub struct FlatInner { pub b: String }
#[derive(Debug, zod::Zod, serde::Serialize, serde::Deserialize)]
#[zod(namespace = "Alpha")]
pub struct FlatOuter { pub a: u8, #[serde(flatten)] pub inner: FlatInner }
#[derive(Debug, zod::Zod, serde::Serialize, serde::Deserialize)]
#[zod(namespace = "Alpha")]
#[serde(tag = "t")]
pub enum TaggedUnit { A(()), B { x: u8 } }
#[derive(Debug, zod::Zod, serde::Serialize, serde::Deserialize)]
#[zod(namespace = "Alpha")]
#[serde(tag = "t")]
pub enum TaggedMap { A(std::collections::BTreeMap<String, u8>), B { x: u8 } }
#[derive(Debug, zod::Zod, serde::Serialize, serde::Deserialize)]
#[zod(namespace = "Alpha")]
#[serde(tag = "t")]
pub struct TaggedStruct { pub x: u8 }
#[derive(Debug, zod::Zod, serde::Serialize, serde::Deserialize)]
#[zod(namespace = "Alpha")]
pub enum FlatVariant { A { own: u8, #[serde(flatten)] o: Option<FlatInner> }, M { own: u8, #[serde(flatten)] m: std::collections::BTreeMap<String, u8> } }
#[derive(Debug, zod::Zod, serde::Serialize, serde::Deserialize)]
#[zod(namespace = "Alpha")]
pub struct Proto { #[serde(rename = "__proto__")] pub a: u8 }
`;
const RAW = [
  { rust: "crate::FlatOuter", exported: ["Alpha", "FlatOuter"] },
  { rust: "crate::TaggedUnit", exported: ["Alpha", "TaggedUnit"] },
  { rust: "crate::TaggedMap", exported: ["Alpha", "TaggedMap"] },
  { rust: "crate::TaggedStruct", exported: ["Alpha", "TaggedStruct"] },
  { rust: "crate::FlatVariant", exported: ["Alpha", "FlatVariant"] },
  { rust: "crate::Proto", exported: ["Alpha", "Proto"] },
  { rust: "std::sync::Weak<u8>" },
];

export default async function (report, conf) {
  const n = await rounds(conf, 420, (seed, i) => round(report, conf, seed, i), 3);
  report.info.programs = n;
}

async function round(report, conf, seed, i) {
  const { g, rng } = corpus(seed, "c01", { n: conf.tier === "thorough" ? 220 : 130, grid: {}, flat: 3 });
  const p = Program.build("c01", "c01", g, { extraRoots: [...(i === 0 ? builtinRoots() : builtinRoots().slice(0, 20)), ...gridRoots(g, { deep: conf.tier === "thorough" })], rawRoots: RAW, extraSource: EXTRA, what: "corpus of supported types" });
  await p.load();
  const per = conf.tier === "thorough" ? 250 : 150;
  const cases = [];
  for (const root of p.roots) {
    if (root.raw) continue;
    const vr = rng.sub(root.rust);
    const docs = new Set(RAW_DOCS[root.ty.k] ?? []);
    for (let j = 0; j < per; j++) docs.add(toJson(gen(root.ty, vr, j % 6)));
    for (const doc of docs) cases.push({ root: root.index, doc });
  }
  const out = p.serde(cases);
  let refused = 0;
  const schemas = new Map();
  for (const root of p.roots) {
    if (root.raw) continue;
    const forms = { exported: p.schemaOf(root) };
    const texts = p.dump().roots[root.index];
    for (const form of ["schema", "inline_schema"]) {
      try { forms[form] = p.evalSchema(texts[form]); } catch (e) { throw new Violation(`${form}() of ${describe(root)} does not evaluate: ${e.message}`, { text: texts[form] }); }
      if (typeof forms[form]?.safeParse !== "function") throw new Violation(`${form}() of ${describe(root)} is no schema`, { text: texts[form] });
    }
    schemas.set(root.index, forms);
    report.count("types");
    report.count(`kind ${root.decl ? (root.decl.from ? "from" : root.decl.kind === "enum" ? `enum/${root.decl.tag.m}` : `struct/${root.decl.transparent ? "transparent" : root.decl.style}`) : "builtin"}`);
  }
  for (let c = 0; c < cases.length; c++) {
    const root = p.roots[cases[c].root];
    const o = out[c];
    if (o.err !== undefined) { refused++; report.count("model values serde refused"); if (process.env.VERIF_DEBUG) console.error(root.rust, cases[c].doc, o.err); continue; }
    let value;
    try { value = revive(root.ty, JSON.parse(o.ok)); } catch (e) { if (!(e instanceof Mismatch)) throw e; refused++; report.count("documents the model could not read"); continue; }
    report.eval(`${root.rust} ${o.ok}`);
    for (const [form, schema] of Object.entries(schemas.get(root.index))) {
      const r = verdict(schema, value);
      if (!r.success) { report.violation(`${describe(root)}: serde writes ${head(o.ok, 200)} which the ${form} schema rejects: ${issues(r)}`, { value, text: p.dump().roots[root.index].schema }); break; }
      if (!same(r.data, value)) { report.violation(`${describe(root)}: serde writes ${head(o.ok, 200)}, parsed as ${lit(r.data)}`, { value, form, text: p.dump().roots[root.index].schema }); break; }
    }
    if (c % 997 === 5) report.sample({ type: root.rust, serde: head(o.ok, 200), parsed: "equal" });
  }
  guardModel(refused, cases.length, "C01");

  // recorded findings
  const raw = (name) => p.roots.find((r) => r.raw && r.rust.endsWith(name));
  const probes = [
    ["flatten", "::FlatOuter", '{"a":1,"b":"x"}', { a: 1, b: "x" }, "a flattened struct"],
    ["weak", "Weak<u8>", "7", undefined, "a dangling Weak<u8>"],
    ["internal-unit", "::TaggedUnit", '{"t":"A"}', { t: "A" }, "an internally tagged variant around ()"],
    ["internal-map", "::TaggedMap", '{"t":"A","k":1}', undefined, "an internally tagged variant around a map"],
    ["struct-tag", "::TaggedStruct", '{"t":"TaggedStruct","x":1}', { t: "TaggedStruct", x: 1 }, "a struct with a tag"],
    ["flatten-option", "::FlatVariant", '{"A":{"own":1}}', { A: { own: 1 } }, "a struct variant with a flattened Option"],
    ["flatten-map", "::FlatVariant", '{"M":{"own":1,"x":2}}', { M: { own: 1, x: 2 } }, "a struct variant with a flattened map"],
    ["proto", "::Proto", '{"__proto__":1}', JSON.parse('{"__proto__":1}'), "a struct with a member named __proto__"],
  ];
  const written = p.serde(probes.map(([, name, doc]) => ({ root: raw(name).index, doc })));
  probes.forEach(([key, name, , want, what], k) => {
    if (written[k].ok === undefined) throw new Error(`probe ${key}: ${written[k].err}`);
    const v = JSON.parse(written[k].ok);
    const r = verdict(raw(name).exported ? p.schemaOf(raw(name)) : p.evalSchema(p.dump().roots[raw(name).index].schema), v);
    if (!r.success || (want && !same(r.data, want))) defect(report, key, `${what}, serialised as ${written[k].ok}, is not represented: ${r.success ? lit(r.data) : issues(r)}`);
  });
}
