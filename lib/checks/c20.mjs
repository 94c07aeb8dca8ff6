// Programs with one fault must not compile; the same programs without it must.
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { Rng } from "../rng.mjs";
import { Gen, emitProgram } from "../corpus.mjs";
import { computeDepths, ref, rust } from "../spec.mjs";
import { writeCrate } from "../types.mjs";
import { rounds, defect } from "./common.mjs";
import { TARGET, buildBin, cargo, spawn, mkdirp, tail, Inconclusive, Violation } from "../util.mjs";

export const rule = "a case is one program given to the real compiler and macros: either with exactly one fault from the list, among valid declarations, or without; distinct by its text; a faulty program only counts if its repaired twin compiles";

const pick = (r, ...l) => r.pick(l);
/** the parts of a program; `bad` picks the faulty form */
function parts(r) {
  let n = 0;
  const id = (p) => `${p}${++n}`;
  const ty = () => pick(r, "u8", "String", "Option<u32>", "Vec<bool>", "(u8, String)", "std::collections::BTreeMap<String, u8>", "f64", "[u8; 3]");
  const derives = () => pick(r, "zod::Zod", "zod::Zod", "zod::Zod, serde::Serialize, serde::Deserialize", "serde::Deserialize, zod::Zod", "Debug, Clone, zod::Zod");
  const vis = () => pick(r, "pub ", "pub ", "", "pub(crate) ");
  const doc = () => pick(r, "", "", "/// documented\n", "#[allow(dead_code)]\n");
  // attributes of serde need one of its derives
  const head = (ns, { serde = [], derive } = {}) => {
    let d = derive ?? derives();
    if (serde.length && !d.includes("serde::")) d = pick(r, `${d}, serde::Deserialize`, `serde::Deserialize, ${d}`);
    const a = [`#[derive(${d})]`, ...(ns ? [`#[zod(namespace = "${ns}")]`] : []), ...serde.map((s) => `#[serde(${s})]`)];
    const first = a.shift();
    if (r.p(0.5)) a.reverse();
    return `${doc()}${[first, ...a].join("\n")}\n`;
  };
  const body = () => pick(r, `{ a: ${ty()} }`, `{ pub a: ${ty()}, r#type: ${ty()} }`, `(${ty()});`, `(${ty()}, pub ${ty()});`);
  const simple = (ns, name = id("T")) => head(ns) + `${vis()}struct ${name} ${body()}\n`;
  const en = (ns, name = id("E")) => head(ns) + `${vis()}enum ${name} { A, B(${ty()}), C { x: ${ty()} } }\n`;
  const method = (name = id("m")) => pick(r,
    `pub async fn ${name}(&mut self, a: ${ty()}) -> ${ty()} { unimplemented!() }\n`, `async fn ${name}(&mut self) {}\n`,
    `pub fn ${name}(&mut self, _n: u8) -> impl futures::Stream<Item = ${ty()}> { futures::stream::iter(Vec::new()) }\n`,
    `fn ${name}(&mut self) -> std::pin::Pin<Box<dyn futures::Stream<Item = u8> + Send>> { unimplemented!() }\n`,
    `pub async fn ${name}(&mut self, mut a: ${ty()}, r#in: ${ty()}) -> Option<u8> { let _ = &mut a; let _ = r#in; None }\n`);
  const ns = (name) => `${pick(r, "", `#[namespace(name = "${name.toLowerCase()}_exported")]\n`)}`.replace(/^/, "#[derive(zod::Namespace)]\n") + `pub struct ${name}${pick(r, ";", " { pub state: u8 }")}\n`;
  const rpc = (name, methods) => `#[zod::rpc::namespace]\nimpl ${name} {\n${methods.join("")}}\n`;
  const mod = (s) => (r.p(0.4) ? `pub mod ${id("inner")} {\n#[allow(unused_imports)] use super::*;\n${s}}\n` : s);
  return { id, ty, derives, vis, doc, head, body, simple, en, method, ns, rpc, mod };
}

/** faults: name -> (parts, rng) => [faulty, repaired] or {faulty, repaired} texts; `Ns` is a namespace without RPC */
const FAULTS = {
  "no namespace": (p, r) => {
    const kind = r.n(4);
    const name = p.id("F");
    const b = kind === 3 ? `enum ${name} { A, B(u8) }` : `struct ${name} ${p.body()}`;
    const good = `#[derive(zod::Zod)]\n#[zod(namespace = "Ns")]\n`;
    const bad = pick(r, "#[derive(zod::Zod)]\n", "#[derive(zod::Zod)]\n#[zod()]\n", "#[derive(serde::Serialize, serde::Deserialize, zod::Zod)]\n", "/// text\n#[derive(zod::Zod, Debug)]\n", "#[derive(zod::Zod, serde::Deserialize)]\n#[serde(rename_all = \"camelCase\")]\n",
      "#[derive(zod::Zod)]\n#[zod(namespace = \"Missing\")]\n", "#[derive(zod::Zod)]\n#[zod(namespace = \"Plain\")]\n");
    return [bad + b, good + b];
  },
  "unit struct": (p, r) => {
    const h = pick(r, p.head("Ns"), p.head("Ns", { serde: ['rename = "Other"'] }), p.head("Ns", { serde: ["deny_unknown_fields"], derive: "serde::Deserialize, zod::Zod" }));
    const name = p.id("U");
    return [`${h}${p.vis()}struct ${name};`, `${h}struct ${name} ${pick(r, "{ a: u8 }", "{ a: u8, b: String }")}`];
  },
  "enum without variants": (p, r) => {
    const name = p.id("E");
    const tag = pick(r, [], ['tag = "t"'], ['tag = "t", content = "c"'], ["untagged"], ['rename_all = "camelCase"']);
    const none = r.p(0.3);
    const skip = () => pick(r, "#[serde(skip)]", "#[serde(skip_deserializing)]");
    const v = none ? [] : Array.from({ length: 1 + r.n(3) }, (_, i) => `${skip()} V${i}${pick(r, "", "(u8)", " { a: u8 }")}`);
    // internally tagged newtypes of u8 do not serialise, but nobody does
    const h = p.head("Ns", { serde: tag, derive: none && !tag.length ? undefined : pick(r, "zod::Zod, serde::Deserialize", "serde::Deserialize, zod::Zod") });
    const good = [...v];
    good.splice(r.n(good.length + 1), 0, "Real { x: u8 }");
    return [`${h}enum ${name} { ${v.join(", ")} }`, `${h}enum ${name} { ${good.join(", ")} }`];
  },
  "required after default": (p, r, i) => {
    const name = p.id("D");
    const n = 2 + r.n(4);
    const d = () => pick(r, "#[serde(default)] ", '#[serde(default = "make")] ');
    // any arrangement in which a required field comes after a defaulted one
    let fields, at;
    do {
      const basic = ["dr", "drd", "ddr", "rdr", "drr", "dsr", "drs", "sdr"][i];
      fields = basic ? [...basic].map((c) => ({ s: c === "s", d: c === "d" })) : Array.from({ length: n }, () => { const w = r.n(5); return { s: w === 0, d: w === 1 || w === 2 }; });
      at = fields.findIndex((f) => f.d);
    } while (at < 0 || !fields.some((f, i) => i > at && !f.d && !f.s));
    const show = (fs) => fs.map((f) => (f.s ? "#[serde(skip)] " : f.d ? d() : "") + "u8").join(", ");
    const h = p.head("Ns", { derive: "zod::Zod, serde::Serialize" });
    const bad = show(fields);
    const good = show(fields.map((f, i) => (i < at || f.s ? f : { ...f, d: true })));
    return [`${h}struct ${name}(${bad});`, `${h}struct ${name}(${good});`];
  },
  "two types of one name": (p, r) => {
    const a = p.id("N"), b = p.id("N");
    const item = (ident, name, ns = "Ns") => {
      const ren = name === ident && r.p(0.8) ? [] : [pick(r, `rename = ${JSON.stringify(name)}`, `rename(deserialize = ${JSON.stringify(name)})`, `rename(serialize = "elsewhere", deserialize = ${JSON.stringify(name)})`)];
      const h = p.head(ns, { serde: ren, derive: pick(r, "zod::Zod, serde::Serialize, serde::Deserialize", "serde::Deserialize, zod::Zod") });
      return h + (r.p(0.6) ? `pub struct ${ident} ${p.body()}` : `pub enum ${ident} { A, B(u8) }`);
    };
    const name = pick(r, a, a, "Shared", "with-dash", "with space", "Größe", "type", "1st");
    const inner = p.id("inner");
    const wrap = (s) => `mod ${inner} { #[allow(unused_imports)] use super::*; ${s} }`;
    const first = item(a, name);
    const sameIdent = name === a && r.p(0.6);
    const bi = sameIdent ? a : b;
    const second = (n2, ns2) => item(bi, n2, ns2);
    const bad = sameIdent ? wrap(second(name)) : pick(r, wrap(second(name)), second(name));
    // another name, or the same name in another namespace, or the same name for serialising only
    const k = r.n(3);
    const good = k === 0 ? wrap(second(`${name}_2`)) : k === 1 ? wrap(second(name, "Other")) : wrap(p.head("Ns", { serde: [`rename(serialize = ${JSON.stringify(name)}, deserialize = "${b}_x")`], derive: "zod::Zod, serde::Serialize, serde::Deserialize" }) + `pub struct ${bi} ${p.body()}`);
    return [`${first}\n${bad}`, `${first}\n${good}`];
  },
  "two implementations": (p, r) => {
    const ns = p.id("Dup");
    const decl = p.ns(ns);
    const m1 = Array.from({ length: r.n(3) }, () => p.method()), m2 = Array.from({ length: r.n(3) }, () => p.method());
    const inner = p.id("inner");
    const second = (attr) => { const s = `${attr}impl ${ns} {\n${m2.join("")}}\n`; return s; };
    const wrap = r.p(0.5) ? (s) => `mod ${inner} { #[allow(unused_imports)] use super::*; ${s} }\n` : (s) => s;
    const two = [p.rpc(ns, m1), wrap(second("#[zod::rpc::namespace]\n"))], one = [p.rpc(ns, m1), wrap(second(""))];
    return [decl + two.join(""), decl + one.join("")];
  },
  "receiver": (p, r) => {
    const ns = p.id("Rpc");
    const decl = p.ns(ns), others = Array.from({ length: r.n(3) }, () => p.method());
    const recv = pick(r, "self", "&self", "mut self", "", "self: Box<Self>", "self: &Self", "this: &mut Self", "self: std::sync::Arc<Self>");
    const stream = r.p(0.5), args = pick(r, [], ["a: u8"], ["a: u8", "b: String"]);
    const m = (rc) => `pub ${stream ? "" : "async "}fn target(${[rc, ...args].filter(Boolean).join(", ")}) -> ${stream ? "impl futures::Stream<Item = u8>" : "u8"} { ${stream ? "futures::stream::iter(vec![1u8])" : "1"} }\n`;
    const at = r.n(others.length + 1);
    const put = (x) => p.rpc(ns, [...others.slice(0, at), x, ...others.slice(at)]);
    return [decl + put(m(recv)), decl + put(m("&mut self"))];
  },
  "async stream": (p, r) => {
    const ns = p.id("Rpc");
    const decl = p.ns(ns), others = Array.from({ length: r.n(3) }, () => p.method());
    const t = pick(r, "impl futures::Stream<Item = u8>", "impl futures::Stream<Item = u8> + Send", "std::pin::Pin<Box<dyn futures::Stream<Item = u8> + Send>>", "futures::stream::BoxStream<'static, u8>");
    const expr = t.startsWith("impl") ? "futures::stream::iter(vec![1u8])" : "Box::pin(futures::stream::iter(vec![1u8]))";
    const m = (a) => `pub ${a}fn target(&mut self, _x: u8) -> ${t} { ${expr} }\n`;
    const at = r.n(others.length + 1);
    const put = (x) => p.rpc(ns, [...others.slice(0, at), x, ...others.slice(at)]);
    return [decl + put(m("async ")), decl + put(m(""))];
  },
  "neither async nor stream": (p, r) => {
    const ns = p.id("Rpc");
    const decl = p.ns(ns), others = Array.from({ length: r.n(3) }, () => p.method());
    const [t, expr] = r.pick([["", ""], ["-> ()", ""], ["-> u8", "1"], ["-> String", "String::new()"], ["-> Vec<u8>", "vec![]"], ["-> Option<u8>", "None"], ["-> Result<u8, String>", "Ok(1)"], ["-> impl Iterator<Item = u8>", "vec![1u8].into_iter()"], ["-> impl std::future::Future<Output = u8>", "async { 1u8 }"], ["-> std::vec::IntoIter<u8>", "vec![1u8].into_iter()"]]);
    const bad = `pub fn target(&mut self, _x: u8) ${t} { ${expr} }\n`;
    const good = /impl|IntoIter/.test(t) ? "pub fn target(&mut self, _x: u8) -> impl futures::Stream<Item = u8> { futures::stream::iter(vec![1u8]) }\n" : `pub async fn target(&mut self, _x: u8) ${t} { ${expr} }\n`;
    const at = r.n(others.length + 1);
    const put = (x) => p.rpc(ns, [...others.slice(0, at), x, ...others.slice(at)]);
    return [decl + put(bad), decl + put(good)];
  },
};

/** declarations close to a fault that are right */
const NEAR = (p, r) => [
  () => p.head("Ns", { serde: ["default"], derive: "serde::Deserialize, zod::Zod, Default" }) + `struct ${p.id("V")} { a: u8, b: String }`,
  () => p.head("Ns", { serde: ['rename = "Ns"'] }) + `struct ${p.id("V")} { a: u8 }`,
  () => p.head("Ns", { derive: "serde::Deserialize, zod::Zod" }) + `struct ${p.id("V")}(u8, #[serde(default)] u8, #[serde(skip)] u8, #[serde(default = "make")] u8);`,
  () => p.head("Ns", { derive: "serde::Deserialize, zod::Zod" }) + `struct ${p.id("V")}(#[serde(skip)] u8, String);`,
  () => p.head("Ns", { derive: "serde::Deserialize, zod::Zod" }) + `enum ${p.id("V")} { #[serde(skip)] A, #[serde(skip_deserializing)] B(u8), C, #[serde(skip_serializing)] D { x: u8 } }`,
  () => p.head("Ns", { derive: "serde::Deserialize, zod::Zod" }) + `enum ${p.id("V")} { #[serde(skip_serializing)] A }`,
  () => p.head("self::Ns") + `enum ${p.id("V")} { r#A(u8), r#Self_ { r#type: u8 } }`,
  () => { const n = p.id("W"); return `#[derive(zod::Namespace)] pub struct ${n};\n#[zod::rpc::namespace] impl ${n} {}\n#[derive(zod::rpc::Backend)] struct ${p.id("B")} { field: ${n} }`; },
  () => { const n = p.id("W"); return `#[derive(zod::Namespace)] pub struct ${n};\n#[zod::rpc::namespace] impl ${n} { pub const X: u8 = 1; async fn r#match(&mut self, r#fn: u8) -> u8 { r#fn } fn s(&mut self) -> futures::stream::BoxStream<'static, Option<u8>> { unimplemented!() } }\n#[derive(zod::rpc::Backend)] pub struct ${p.id("B")}(${n});\nimpl ${n} { pub fn new() -> Self { ${n} } fn other(self) {} }`; },
  () => { const a = p.id("W"), b = p.id("W"); return `#[derive(zod::Namespace)] pub struct ${a};\n#[derive(zod::Namespace)] pub struct ${b};\n#[zod::rpc::namespace] impl ${a} { async fn same(&mut self, a: u8) -> u8 { a } }\n#[zod::rpc::namespace] impl ${b} { async fn same(&mut self, a: String) -> String { a } }\n#[derive(zod::rpc::Backend)] pub struct ${p.id("B")}(pub ${a}, ${b});`; },
  () => `#[doc = r#"raw "text" */"#]\n#[doc(hidden)]\n#[cfg_attr(all(), doc = "more")]\n${p.head("Ns", { derive: "zod::Zod" })}#[doc(alias = "x")]\nstruct ${p.id("V")} { #[doc(hidden)] a: u8, #[cfg(any())] b: Missing, #[cfg_attr(any(), serde(skip))] c: u8 }`,
  () => { const n = p.id("M"); return `macro_rules! ${n} { ($n:ident, $t:ty, $d:expr, $(#[$m:meta])*) => { #[doc = $d] $(#[$m])* #[derive(zod::Zod)] #[zod(namespace = "Ns")] pub struct $n { a: $t, b: Vec<$t> } } }\n${n}!(${p.id("V")}, Option<u8>, "text", #[allow(unused)]);`; },
  () => { const n = p.id("W"); return `#[derive(zod::Namespace)] pub struct ${n};\n#[zod::rpc::namespace] impl ${n} { /// text\n#[allow(unused)] async fn a(&mut self, #[allow(unused)] x: u8) {} #[cfg(all())] #[inline] async fn b(&mut self,) -> (u8,) { (1,) } }`; },
  () => { const n = p.id("f"); return `fn ${n}() { #[derive(zod::Namespace)] struct Local;\n#[derive(zod::Zod)]\n#[zod(namespace = "Local")]\nstruct Inner { a: u8 }\n#[derive(zod::Zod)]\n#[zod(namespace = "Ns")]\nenum ${p.id("V")} { A(Inner), B } }`; },
  () => { const a = p.id("m"), b = p.id("m"), n = p.id("W"); const one = (m, x) => `pub mod ${m} { #[derive(zod::Namespace)] #[namespace(name = "${m}_ns")] pub struct ${n} { x: ${x} }\n#[zod::rpc::namespace] impl ${n} { pub async fn get(&mut self, a: ${x}) -> ${x} { a } } }\n`; return one(a, "u8") + one(b, "String") + `#[derive(zod::rpc::Backend)] pub struct ${p.id("B")}(${a}::${n}, ${b}::${n});\n#[derive(zod::rpc::Backend)] pub struct ${p.id("B")} { one: ${a}::${n}, two: self::${b}::${n} }`; },
  () => { const n = p.id("W"), m = p.id("m"); return `#[derive(zod::Namespace)] pub struct ${n};\npub mod ${m} { #[derive(zod::Zod)] #[zod(namespace = "super::${n}")] pub struct ${n} { a: u8 } pub mod deep { #[derive(zod::Zod)] #[zod(namespace = "super::super::${n}")] struct Other { a: super::${n} } } }`; },
  () => { const n = p.id("V"); return `${p.head("Ns", { derive: "zod::Zod" })}struct ${n} { next: Option<Box<${n}>>, all: Vec<${n}> }`; },
  // names the generated code could use itself, arguments without Debug, an alias of Result
  () => { const n = p.id("W"), m = p.id("m"); const T = (x) => `#[derive(zod::Zod, serde::Deserialize, serde::Serialize)] #[zod(namespace = "${n}")] pub struct ${x} { a: u8 }\n`;
    const ts = [`${n}Req`, "Req", "S", "T", "D", "Error", "Response", "Request", "Item", "Stream", "Args", "Value", "Member"];
    return `pub mod ${m} { pub type Result<T> = std::result::Result<T, String>;\n#[derive(zod::Namespace)] pub struct ${n};\n${ts.map(T).join("")}#[zod::rpc::namespace] impl ${n} {${ts.map((t) => `pub async fn m_${t.toLowerCase()}(&mut self, a: ${t}, b: Vec<${t}>) -> Result<${t}> { let _ = b; Ok(a) } pub fn s_${t.toLowerCase()}(&mut self, a: ${t}) -> impl futures::Stream<Item = Result<${t}>> { futures::stream::iter([Ok(a)]) } pub fn b_${t.toLowerCase()}(&mut self, a: ${t}) -> futures::stream::BoxStream<'static, ${t}> { Box::pin(futures::stream::iter([a])) }`).join("\n")} }\n#[derive(zod::rpc::Backend)] pub struct BackendOf${n} { pub one: ${n} } }\n`; },
  () => { const m = p.id("m"), names = ["Error", "S", "D", "T", "Req", "Request", "Value"]; return `pub mod ${m} { ${names.map((x) => `#[derive(zod::Namespace)] #[namespace(name = "${m}_${x}")] pub struct ${x};\n#[derive(zod::Zod, serde::Deserialize, serde::Serialize)] #[zod(namespace = "${x}")] pub enum In${x} { A, B(u8) }\n#[zod::rpc::namespace] impl ${x} { async fn m(&mut self, a: In${x}) -> In${x} { a } fn s(&mut self, a: In${x}) -> impl futures::Stream<Item = In${x}> { futures::stream::iter([a]) } }\n`).join("")} #[derive(zod::rpc::Backend)] pub struct ${p.id("B")}(${names.join(", ")}); #[derive(zod::rpc::Backend)] pub struct ${p.id("B")} { ${names.map((x) => `pub ${x.toLowerCase()}_: self::${x}`).join(", ")} } }`; },
  // methods and arguments with names the generated code uses
  () => { const n = p.id("W"), names = ["call", "deserialize", "fmt", "id", "ctx", "sender", "args", "res", "s", "evt", "jh", "value", "method", "namespace", "req", "name", "schema", "docs", "clone", "into", "from", "from_value", "backend", "handle_request", "generate", "st", "err", "data", "result", "new"]; return `pub mod ${p.id("m")} { #[derive(zod::Namespace)] pub struct ${n};\n#[zod::rpc::namespace] impl ${n} { ${names.map((x, i) => (i % 2 ? `async fn ${x}(&mut self, ${x}: u8) -> u8 { ${x} }` : `fn ${x}(&mut self, ${x}: u8) -> impl futures::Stream<Item = u8> { futures::stream::iter([${x}]) }`)).join("\n")} }\n${names.slice(0, 8).map((x) => `#[derive(zod::rpc::Backend)] pub struct ${p.id("B")} { ${x}: ${n} }`).join("\n")} }`; },
  // attributes of other macros, in any syntax
  () => { const n = p.id("W"), at = () => pick(r, "#[clippy::x(=> y)] ", "#[rustfmt::thing(a = b + c)] ", "#[rustfmt::skip] ", "#[clippy::x { a: 1, .. }] ", "#[rustfmt::thing = \"x\"] ", "#[rustfmt::thing(name = users, 1 + 2)] "); return `#[derive(zod::Namespace)] ${at()} pub struct ${n};\n#[derive(zod::Zod)] ${at()} #[zod(namespace = "${n}")] ${at()} /// text\n enum ${p.id("V")} { ${at()} A { ${at()} a: u8 }, ${at()} B(${at()} u8) }\n#[derive(zod::Zod)] #[zod(namespace = "${n}")] ${at()} struct ${p.id("V")} { ${at()} a: u8 }\n#[zod::rpc::namespace] ${at()} impl ${n} { ${at()} async fn a(&mut self, ${at()} x: u8) -> u8 { x } }\n#[derive(zod::rpc::Backend)] ${at()} struct ${p.id("B")} { ${at()} a: ${n} }`; },
  // methods that are configured away
  () => { const n = p.id("W"); return `#[derive(zod::Namespace)] pub struct ${n};\n#[zod::rpc::namespace] impl ${n} { #[cfg(any())] async fn get(&mut self, a: Missing) -> Missing { a } #[cfg(all())] async fn b(&mut self) {} #[cfg(any())] fn st(&mut self) -> impl futures::Stream<Item = Missing> { nope } #[cfg(all())] fn st2(&mut self, a: u8) -> impl futures::Stream<Item = u8> { futures::stream::iter([a]) } #[cfg(not(debug_assertions))] async fn x(&mut self, a: u8) -> u8 { a } #[cfg(debug_assertions)] async fn x(&mut self, a: String) -> String { a } }\n#[derive(zod::Namespace)] pub struct Other${n};\n#[zod::rpc::namespace] impl Other${n} { #[cfg(any())] ${pick(r, "async fn get(&mut self, a: Missing) -> Missing { a }", "fn get(&mut self) -> Missing { a }")} }\n#[derive(zod::rpc::Backend)] pub struct ${p.id("B")} { f: ${n}, g: Other${n} }`; },
  // everything declared by another macro, with names and types it is given and names of its own
  () => { const x = p.id("x"); return `pub mod ${p.id("m")} { macro_rules! ${x} { ($ns:ident, $t:ident, $m:ident, $m2:ident, $a:ident, $b:ident, $f:ident, $x:ident, $y:ident, $ty:ty) => { #[derive(zod::Namespace)] pub struct $ns;\n#[derive(zod::Zod, serde::Deserialize, serde::Serialize)] #[zod(namespace = "User")] pub struct $t { $f: $ty, other: Option<$ty> }\n#[derive(zod::Zod, serde::Deserialize, serde::Serialize)] #[zod(namespace = "User")] pub enum $x { $y, Z($t), W { $f: $t } }\n#[zod::rpc::namespace] impl $ns { async fn $m(&mut self, $a: $t) -> $t { $a } async fn own(&mut self, arg: $ty) -> $ty { arg } fn $m2(&mut self, $a: $t) -> impl futures::Stream<Item = $t> { futures::stream::iter([$a]) } }\n#[derive(zod::rpc::Backend)] pub struct $b { $f: $ns }\n#[derive(zod::rpc::Backend)] pub struct Tuple($ns); } }\n${x}!(User, P, get, st, ${pick(r, "arg", "id", "ctx")}, B, ${pick(r, "field", "r#type")}, X, Y, ${pick(r, "u8", "Vec<String>")}); }`; },
  () => { const x = p.id("x"); return `pub mod ${p.id("m")} { macro_rules! ${x} { () => { #[derive(zod::Namespace)] pub struct User;\n#[derive(zod::Zod, serde::Deserialize, serde::Serialize)] #[zod(namespace = "User")] pub struct P { a: u8 }\n#[zod::rpc::namespace] impl User { async fn get(&mut self, arg: P) -> P { arg } fn st(&mut self, arg: P) -> impl futures::Stream<Item = P> { futures::stream::iter([arg]) } }\n#[derive(zod::rpc::Backend)] pub struct B { f: User } } }\n${x}!(); }`; },
  () => { const x = p.id("x"); return `pub mod ${p.id("m")} { #[derive(zod::Namespace)] pub struct User;\nmacro_rules! ${x} { ($ns:ty, $s:ty, $e:expr) => { #[zod::rpc::namespace] impl $ns { async fn get(&mut self) {} fn st(&mut self) -> $s { $e } }\n#[derive(zod::rpc::Backend)] pub struct B($ns); } }\n${x}!(User, futures::stream::BoxStream<'static, u8>, Box::pin(futures::stream::empty())); }`; },
  // words that are keywords only in some editions, as names of types and namespaces
  () => { const n = p.id("W"); return `pub mod ${p.id("m")} { #[derive(zod::Namespace)] pub struct ${n};\n${["r#async", "r#await", "r#dyn", "r#try", "r#type", "r#match", "union", "auto"].map((x) => `#[allow(non_camel_case_types)] #[derive(zod::Zod)] #[zod(namespace = "${n}")] pub struct ${x} { a: u8 }\n`).join("")}${["async", "dyn", "self", "Self", "crate", "_", "union"].map((x, i) => (x === "union" ? "" : `#[derive(zod::Zod, serde::Deserialize)] #[serde(rename = "${x}")] #[zod(namespace = "Ns${n}")] pub struct Re${i} { a: u8 }\n`)).join("")}#[derive(zod::Namespace)] pub struct Ns${n}; }`; },
];

const PROBES = [
  ["prelude-names", "a module in which a name of the prelude (None of a variant imported with use Level::*) means something else", 'pub mod e { pub enum Level { None, Low } }\n#[allow(unused)] use e::Level::*;\n#[derive(zod::Namespace)] pub struct N;\n#[zod::rpc::namespace] impl N { async fn a(&mut self) {} }'],
  ["doc-macro", "documentation written as a macro", '#[derive(zod::Zod)]\n#[zod(namespace = "Ns")]\n#[doc = concat!("a", "b")]\nstruct D { a: u8 }'],
];

const PRELUDE = `#[allow(unused)] fn make() -> u8 { 1 }\n#[derive(zod::Namespace)] pub struct Ns;\n#[derive(zod::Namespace)] #[namespace(name = "other_ns")] pub struct Other { x: u8 }\npub struct Plain;\n`;

function caseOf(seed, fault, i) {
  const r = new Rng(seed);
  const p = parts(r);
  const around = Array.from({ length: r.n(4) }, () => p.mod(pick(r, p.simple, p.en)(pick(r, "Ns", "Other"))));
  if (r.p(0.3)) { const n = p.id("Ok"); around.push(p.ns(n) + p.rpc(n, [p.method(), p.method()])); }
  const [bad, good] = FAULTS[fault](p, r, i);
  const at = r.n(around.length + 1);
  const nested = r.p(0.3) ? p.id("deep") : null;
  const put = (x) => PRELUDE + [...around.slice(0, at), nested ? `pub mod ${nested} { #[allow(unused_imports)] use super::*;\n${x}\n}` : x, ...around.slice(at)].join("\n");
  return { fault, bad: put(bad), good: put(good), core: bad };
}

function compiler(dir, externs) {
  let n = 0;
  const tmp = mkdirp(path.join(dir, "out"));
  return (source, emit = "metadata") => new Promise((ok) => {
    const f = path.join(tmp, `p${n++}`);
    fs.writeFileSync(`${f}.rs`, source);
    const p = spawn("rustc", ["--edition", "2021", "--crate-type", "lib", "--crate-name", `p${n}`, `--emit=${emit}`, "--cap-lints", "allow", "-Awarnings", "-L", `dependency=${path.join(TARGET, "debug/deps")}`, ...externs.flatMap(([k, v]) => ["--extern", `${k}=${v}`]), "-o", `${f}.out`, `${f}.rs`],
      { stdio: ["ignore", "ignore", "pipe"], env: { ...process.env, CARGO_MANIFEST_DIR: dir, CARGO_PKG_NAME: "zod-types-harness", CARGO_CRATE_NAME: "p" } });
    let err = "";
    p.stderr.on("data", (d) => { err = (err + d).slice(0, 20000); });
    const timer = setTimeout(() => p.kill("SIGKILL"), 120_000);
    p.on("close", (code, signal) => {
      clearTimeout(timer);
      for (const x of [".rs", ".out"]) fs.rmSync(f + x, { force: true });
      if (signal || /internal compiler error/.test(err)) ok({ broken: `${signal ?? "internal compiler error"} ${tail(err, 500)}` });
      else ok({ compiles: code === 0, err });
    });
  });
}
async function all(list, f) {
  let next = 0;
  const out = [];
  await Promise.all(Array.from({ length: Math.max(2, os.cpus().length) }, async () => { while (next < list.length) { const i = next++; out[i] = await f(list[i]); } }));
  return out;
}

export default async function (report, conf) {
  const deep = conf.tier === "thorough";
  // the compiled dependencies
  const dir = writeCrate("c20", { c20: "#[path = \"../support.rs\"] mod support; fn main() { let _ = support::Host::new(); }\n" });
  buildBin(dir, "c20", "empty program");
  fs.appendFileSync(path.join(dir, "src/c20/main.rs"), `// ${Date.now()}\n`);
  const b = cargo(["build", "--offline", "--bin", "c20", "-v"], { cwd: dir });
  const line = (b.stderr.split("\n").find((l) => /Running `.*--crate-name c20 /.test(l)) ?? "");
  const found = new Map([...line.matchAll(/--extern (?:\w+:)?(\w+)=([^\s`]+)/g)].map((m) => [m[1], m[2]]));
  const externs = ["zod", "zod_core", "serde", "serde_json", "futures", "tokio", "axum", "smol_str", "ordered_float"].map((k) => [k, found.get(k)]);
  if (externs.some((x) => !x[1])) throw new Inconclusive("dependencies not found");
  const compile = compiler(dir, externs);
  // recorded findings: programs that should compile
  for (const [key, what, text] of PROBES) {
    const x = await compile(PRELUDE + text);
    if (x.broken) throw new Inconclusive(x.broken);
    report.eval(text);
    if (!x.compiles) defect(report, key, `${what} does not compile`, { program: text, error: tail(x.err, 2000) });
  }
  await rounds(conf, 420, async (seed) => {
    const per = deep ? 40 : 20;
    const cases = [];
    for (const fault of Object.keys(FAULTS)) for (let i = 0; i < per; i++) cases.push(caseOf(`c20:${seed}:${fault}:${i}`, fault, i));
    // programs without a fault, all in one crate
    const r = new Rng(`c20:near:${seed}`);
    const valid = cases.map((c) => ({ c, src: c.good }));
    for (let i = 0; i < 24; i++) { const p = parts(r); valid.push({ src: PRELUDE + NEAR(p, r).filter(() => r.p(0.6)).map((f) => f()).join("\n") }); }
    await checkValid(report, compile, valid);
    const asked = cases.filter((c) => c.valid);
    const res = await all(asked, (c) => compile(c.bad));
    for (const [i, c] of asked.entries()) {
      let x = res[i];
      if (x.broken) throw new Inconclusive(x.broken);
      // some errors only occur when code is generated
      if (x.compiles) x = await compile(c.bad, "link");
      report.eval(c.bad);
      report.count(`rejected: ${c.fault}`, x.compiles ? 0 : 1);
      if (x.compiles) report.violation(`a program with the fault "${c.fault}" compiles: ${c.core}`, { program: c.bad });
      else if (i % (per * 2) === 3) report.sample({ fault: c.fault, program: c.core, error: (x.err.match(/^error.*$/m) ?? [""])[0] });
    }
    // a large program with everything
    const g = new Gen(new Rng(`c20:large:${seed}`));
    const nss = [g.namespace("Alpha"), g.namespace("Beta", "beta_ns")];
    for (let i = 0; i < 120; i++) g.any({});
    g.recursive(6, { ns: nss[0] });
    for (let i = 0; i < 30; i++) g.method(r.pick(nss));
    computeDepths(g.decls);
    const roots = g.decls.filter((d) => !d.noRoot).map((d) => ({ ty: ref(d), rust: rust(ref(d)), decl: d, serdeless: d.noSer || d.noDe }));
    const src = emitProgram(g, { roots }).replace(/#\[path = "[^"]*"\]\s*mod support;/, `#[path = "${path.join(dir, "src/support.rs")}"] mod support;`);
    const x = await compile(src);
    if (x.broken) throw new Inconclusive(x.broken);
    report.eval(src);
    report.count("declarations of large valid programs", g.decls.length);
    if (!x.compiles) report.violation("a program of supported declarations does not compile", { error: tail(x.err, 4000) });
  });
}

async function checkValid(report, compile, valid) {
  const crate = (l) => l.map((v, i) => `pub mod program_${i} {\n${v.src}\n}`).join("\n");
  const bisect = async (l) => {
    const x = await compile(crate(l));
    if (x.broken) throw new Inconclusive(x.broken);
    if (x.compiles) { for (const v of l) { if (v.c) v.c.valid = true; report.eval(v.src); } report.count("valid programs", l.length); return; }
    if (l.length === 1) {
      if (report.violations.length < 4) report.violation(`a valid program does not compile${l[0].c ? ` (repaired: ${l[0].c.fault})` : ""}: ${(x.err.match(/^error.*$/m) ?? [""])[0]}`, { program: l[0].src, error: tail(x.err, 3000) });
      return;
    }
    const h = l.length >> 1;
    await bisect(l.slice(0, h));
    if (report.violations.length < 4) await bisect(l.slice(h));
  };
  const chunks = [];
  for (let i = 0; i < valid.length; i += 30) chunks.push(valid.slice(i, i + 30));
  await all(chunks, bisect);
  void Violation;
}
