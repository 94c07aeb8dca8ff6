// What zod accepts, the real serde must accept: type directed mutations, foreign values and boundary numbers.
import { corpus, builtinRoots, gridRoots, singles, POOL, outOfScope, mutate, clone, strip, noZeros, lit, describe, verdict, defect, rounds } from "./common.mjs";
import { Program } from "../types.mjs";
import { gen, toJson, isInt, isFloat } from "../spec.mjs";
import { Inconclusive, head } from "../util.mjs";

export const rule = "a case is one (type, JavaScript value); non-trivial if zod accepts the value (then serde must) or serde rejects its JSON (then zod must have rejected it); distinct by (type, value)";

const EXTRA = `
#[derive(Debug, zod::Zod, serde::Serialize, serde::Deserialize)]
#[zod(namespace = "Alpha")]
pub struct DefTuple(pub u8, #[serde(default)] pub u8);
#[derive(Debug, zod::Zod, serde::Serialize, serde::Deserialize)]
#[zod(namespace = "Alpha")]
pub struct OptNew(pub Option<u8>);
#[derive(Debug, zod::Zod, serde::Serialize, serde::Deserialize)]
#[zod(namespace = "Alpha")]
pub struct HoldsOptNew { pub x: OptNew }
#[derive(Debug, zod::Zod, serde::Serialize, serde::Deserialize)]
#[zod(namespace = "Alpha")]
pub enum OptVar { A(Option<u8>), B { x: u8 } }
#[derive(Debug, zod::Zod, serde::Serialize, serde::Deserialize)]
#[zod(namespace = "Alpha")]
#[serde(deny_unknown_fields)]
pub struct Deny { pub a: u8 }
#[derive(Debug, zod::Zod, serde::Serialize, serde::Deserialize)]
#[zod(namespace = "Alpha")]
#[serde(tag = "t", content = "c")]
pub enum Adj { A, B(u8), C(#[serde(skip)] u8) }
#[derive(Debug, zod::Zod, serde::Serialize, serde::Deserialize)]
#[zod(namespace = "Alpha")]
pub struct Alias { #[serde(alias = "b")] pub a: u8 }
#[derive(Debug, zod::Zod, serde::Serialize, serde::Deserialize)]
#[zod(namespace = "Alpha")]
pub struct Proto { #[serde(rename = "__proto__")] pub a: u8 }
#[derive(Debug, zod::Zod, serde::Serialize, serde::Deserialize)]
#[zod(namespace = "Alpha")]
pub enum ProtoEnum { #[serde(rename = "__proto__")] A { x: u8 }, B { __proto__: u8 } }
`;
const N = undefined;
// recorded findings: [key, type, exported name, value that zod accepts and serde rejects]
const PROBES = [
  ["default-in-tuple", "DefTuple", [1, N]],
  ["option-newtype", "HoldsOptNew", {}],
  ["option-variant", "OptVar", { A: N }],
  ["extra-key-enum", "OptVar", { B: { x: 1 }, other: 1 }],
  ["deny-unknown", "Deny", { a: 1, other: 1 }],
  ["alias", "Alias", { a: 1, b: 1 }],
  ["adjacent-unit-content", "Adj", { t: "A", c: 5 }],
  ["adjacent-skipped", "Adj", { t: "C" }],
  // no findings: members of this name are members
  ["proto", "Proto", {}], ["proto", "Proto", JSON.parse('{"__proto__":"x"}')], ["proto", "ProtoEnum", {}], ["proto", "ProtoEnum", JSON.parse('{"__proto__":{}}')], ["proto", "ProtoEnum", { B: {} }],
];
const RAW = ["DefTuple", "HoldsOptNew", "OptVar", "Deny", "Adj", "Alias", "Proto", "ProtoEnum"].map((n) => ({ rust: `crate::${n}`, exported: ["Alpha", n] }));
RAW.push({ rust: "std::net::Ipv6Addr" }, { rust: "std::net::IpAddr" }, { rust: "Result<u8, String>" }, { rust: "Result<Option<u8>, String>" });

export default async function (report, conf) {
  report.info.programs = await rounds(conf, 420, (seed, i) => round(report, conf, seed, i), 3);
}

async function round(report, conf, seed, i) {
  const { g, rng } = corpus(seed, "c02", { n: conf.tier === "thorough" ? 200 : 130, grid: {}, flat: 3 });
  const p = Program.build("c02", "c02", g, { extraRoots: [...builtinRoots(), ...gridRoots(g, { deep: conf.tier === "thorough" })], rawRoots: RAW, extraSource: EXTRA, what: "corpus of supported types" });
  await p.load();
  const per = conf.tier === "thorough" ? 300 : 160;
  const roots = p.roots.filter((r) => !r.raw);
  const cases = [];
  for (const root of roots) {
    const vr = rng.sub(root.rust);
    const schema = p.schemaOf(root);
    report.count("types");
    const seen = new Set();
    const put = (v, kind) => {
      if (outOfScope(v)) return;
      const key = lit(v);
      if (seen.has(key)) return;
      seen.add(key);
      cases.push({ root: root.index, value: v, kind, accepted: verdict(schema, clone(v)).success, doc: toJson(v) });
    };
    for (const v of POOL) put(v, "pool");
    if (isInt(root.ty.k) || isFloat(root.ty.k)) for (const b of Array.from({ length: 66 }, (_, k) => 2 ** k)) for (const s of [1, -1]) for (const d of [-1, 0, 1, 0.5]) put(s * b + d, "power of two");
    for (let j = 0; j < per; j++) {
      const v = gen(root.ty, vr, 1 + (j % 5));
      if (j % 8 === 0) put(v, "valid");
      const trace = [];
      let m = v;
      for (let k = vr.p(0.8) ? 1 : 2; k > 0; k--) { try { m = mutate(root.ty, k > 1 ? clone(v) : m, vr, trace); } catch { break; } }
      put(m, trace.at(-1) ?? "none");
    }
    for (let j = 0; j < 4; j++) for (const m of singles(gen(root.ty, vr, 1 + j), 60, vr)) put(m, "single");
    // a value of another type
    for (let j = 0; j < 15; j++) { const o = vr.pick(roots); put(gen(o.ty, vr, 2), "value of another type"); }
  }
  const out = p.serde(cases);
  let accepted = 0;
  const suspects = [];
  for (let c = 0; c < cases.length; c++) {
    const { root: ri, value, kind, accepted: ok, doc } = cases[c];
    const root = p.roots[ri];
    const serdeOk = out[c].ok !== undefined || out[c].err.startsWith("SER ");
    if (ok) accepted++;
    report.count(ok ? (serdeOk ? "both accept" : "only zod accepts") : serdeOk ? "only serde accepts" : "both reject");
    report.eval(ok || !serdeOk ? `${root.rust} ${lit(value)}` : null);
    report.count(`mutation ${kind}`);
    if (ok && !serdeOk) suspects.push({ root, value, doc, err: out[c].err });
    if (c % 4999 === 7) report.sample({ type: root.rust, value: lit(value), zod: ok, serde: serdeOk });
  }
  // is the only objection a key that zod ignores or a leading zero of an embedded IPv4 address (recorded findings)?
  const without = p.serde(suspects.map(({ root, value }) => ({ root: root.index, doc: toJson(noZeros(strip(root.ty, value, p.schemaOf(root).safeParse(clone(value)).data))) })));
  suspects.forEach(({ root, value, doc, err }, j) => {
    if (without[j].ok !== undefined) { report.count("additional keys or leading zeros (recorded findings)"); return; }
    report.violation(`${describe(root)}: zod accepts ${lit(value)} but the server rejects ${head(doc, 200)}: ${err}`, { value, text: head(p.dump().roots[root.index].schema, 1500) });
  });
  if (accepted < cases.length / 50) throw new Inconclusive(`zod accepted only ${accepted} of ${cases.length} values`);

  if (i > 0) return;
  const raw = new Map(p.roots.filter((r) => r.raw).map((r) => [r.exported ? r.exported[1] : r.rust, r]));
  const probes = [...PROBES.map(([key, name, value]) => ({ key, root: raw.get(name), value })),
    { key: "ipv6-zone", root: raw.get("std::net::Ipv6Addr"), value: "fe80::1%eth0" }, { key: "ipv6-zone", root: raw.get("std::net::IpAddr"), value: "fe80::1%eth0" },
    { key: "ipv6-octets", root: raw.get("std::net::Ipv6Addr"), value: "::0.0.0.00" }, { key: "ipv6-octets", root: raw.get("std::net::IpAddr"), value: "::1.2.3.04" },
    { key: "extra-key-result", root: raw.get("Result<u8, String>"), value: { Ok: 1, other: 1 } }, { key: "option-result", root: raw.get("Result<Option<u8>, String>"), value: { Ok: N } }];
  const res = p.serde(probes.map((x) => ({ root: x.root.index, doc: toJson(x.value) })));
  probes.forEach((x, j) => {
    report.eval(`probe ${x.key} ${x.root.rust}`);
    if (verdict(p.schemaOf(x.root), x.value).success && res[j].ok === undefined) defect(report, x.key, `${x.root.rust}: zod accepts ${lit(x.value)} but the server rejects ${toJson(x.value)}: ${res[j].err}`);
  });
}
