// Registry observations of real programs against their declarations.
import { Rng } from "../rng.mjs";
import { Gen } from "../corpus.mjs";
import { Program, loadModule } from "../types.mjs";
import { computeDepths, prim } from "../spec.mjs";
import { rounds } from "./common.mjs";
import { exportsOf } from "./c06.mjs";
import { head } from "../util.mjs";

export const rule = "a case is one entry (type or method) in one registry view of one program; distinct by (program, view, entry)";

export default async function (report, conf) {
  let i = 0;
  report.info.programs = 2 * await rounds(conf, 420, async (seed) => {
    await round(report, conf, seed, "all");
    await round(report, conf, seed, "few");
    i++;
  }, 2);
}

const key = (ns, name) => `${ns}.${name}`;
function multiset(list) { const m = new Map(); for (const x of list) m.set(x, (m.get(x) ?? 0) + 1); return m; }

async function round(report, conf, seed, size) {
  const rng = new Rng(`c19:${size}:${seed}`);
  const g = new Gen(rng.sub("decls"));
  const few = size === "few";
  const mk = (name, exp) => g.namespace(name, exp, rng.p(0.3) ? { unit: false } : {});
  const nss = few ? [mk("One"), mk("Two", "One_")] : [mk("Alpha"), mk("Beta", "beta_ns"), mk("Left", "Right"), mk("Right", "Left"), mk("AlphaX"), mk("Alph"), mk("Quiet"), mk("Silent", "silent")];
  // types of the same name in different modules, and one that another crate exports
  if (!few) nss.push(mk("Twin", "TwinA"), mk("Twin", "TwinB"), mk("Foreign", "Foreign_"));
  if (!few) { const [a, b, f] = nss.slice(-3); a.path = "crate::twin_a::Twin"; b.path = "crate::twin_b::Twin"; f.path = "library::Foreign"; f.external = true; f.unit = true; f.methods.push({ ns: f, name: "far", args: [], kind: "method" }, { ns: f, name: "farther", args: [], kind: "stream" }); }
  // used by nothing but themselves
  const outside = few ? [] : [mk("Outside"), mk("Lonely", "Lone")];
  const typed = few ? nss : [...nss.slice(0, 6), ...nss.slice(-3, -1)];
  if (few) { if (rng.p(0.7)) g.any({ ns: nss[0] }); }
  else {
    const n = conf.tier === "thorough" ? 130 : 80;
    // all over the program: nested modules and functions, too
    const mods = [null, null, "m1", "m2", "deep_mod", "r#type"];
    for (let i = 0; i < n; i++) g.any({ ns: rng.pick(typed), mod: rng.pick(mods), asym: rng.p(0.3) });
    g.recursive(5, { ns: typed[0] });
    for (const [i, ns] of typed.slice(0, 6).entries()) if (rng.p(0.7)) g.struct({ ns, name: "Same", mod: `same${i}`, plain: true });
    const inside = [...g.decls];
    for (let i = 0; i < 6; i++) g.any({ ns: rng.pick(outside) });
    for (const ns of nss) if (ns.name !== "Silent" && !ns.external) for (let i = rng.r(0, 5); i > 0; i--) g.method(ns, { ctx: { pool: inside } });
    for (const ns of nss.slice(0, 4)) g.method(ns, { name: "shared", ctx: { pool: inside } });
    for (const ns of outside) for (let i = 0; i < 2; i++) g.method(ns, { ctx: { pool: g.decls } });
  }
  computeDepths(g.decls);
  // declared inside of a function and by a macro
  const extra = few ? [] : [
    { ns: nss[0], exp: "LocalType", rust: null }, { ns: nss[1], exp: "FromMacro", rust: "crate::FromMacro" }, { ns: nss[1], exp: "FromMacro2", rust: "crate::FromMacro2" }, { ns: nss[2], exp: "InConst", rust: null },
    // equal in everything but the namespace
    ...typed.flatMap((ns) => ["Equal", "EqualNew", "EqualEnum"].map((exp) => ({ ns, exp, rust: null }))),
    ...["Far", "Farther"].map((exp) => ({ ns: nss[nss.length - 1], exp, rust: "library::Far" })), { ns: nss[0], exp: "UsesFar", rust: "crate::UsesFar" },
  ];
  const extraSource = few ? "" : `
pub fn local() { #[derive(zod::Zod, Debug, serde::Serialize, serde::Deserialize)] #[zod(namespace = "Alpha")] struct LocalType { a: u8 } }
macro_rules! declare { ($($n:ident),*) => { $(#[derive(zod::Zod, Debug, serde::Serialize, serde::Deserialize)] #[zod(namespace = "Beta")] pub struct $n { a: u8 })* } }
declare!(FromMacro, FromMacro2);
const _: () = { #[derive(zod::Zod, Debug, serde::Serialize, serde::Deserialize)] #[zod(namespace = "Left")] struct InConst { a: u8 } };
#[derive(zod::Zod, Debug, serde::Serialize, serde::Deserialize)] #[zod(namespace = "Alpha")] pub struct UsesFar { a: library::Far, b: Option<library::deeper::Farther> }
${typed.map((ns, i) => `pub mod equal${i} {
  #[derive(zod::Zod, Debug, serde::Serialize, serde::Deserialize)] #[zod(namespace = "${ns.path ?? `crate::${ns.name}`}")] pub struct Equal { pub a: u8, pub b: Vec<String> }
  #[derive(zod::Zod, Debug, serde::Serialize, serde::Deserialize)] #[zod(namespace = "${ns.path ?? `crate::${ns.name}`}")] pub struct EqualNew(pub u8);
  #[derive(zod::Zod, Debug, serde::Serialize, serde::Deserialize)] #[zod(namespace = "${ns.path ?? `crate::${ns.name}`}")] pub enum EqualEnum { A, B(u8) }
}`).join("\n")}
`;
  const library = few ? undefined : `
#[derive(zod::Namespace)] #[namespace(name = "Foreign_")] pub struct Foreign;
#[derive(zod::Zod, Debug, serde::Serialize, serde::Deserialize)] #[zod(namespace = "Foreign")] pub struct Far { pub a: u8 }
pub mod deeper { #[derive(zod::Zod, Debug, serde::Serialize, serde::Deserialize)] #[zod(namespace = "crate::Foreign")] pub enum Farther { A(super::Far), B } }
#[zod::rpc::namespace] impl Foreign {
  pub async fn far(&mut self) -> Far { Far { a: 1 } }
  pub fn farther(&mut self) -> impl futures::Stream<Item = deeper::Farther> { futures::stream::iter(vec![deeper::Farther::B]) }
}
`;
  const backends = few ? [{ name: "Single", namespaces: [nss[0]] }] : [
    { name: "Everything", namespaces: [...nss, ...outside], named: true },
    ...[0, 1, 2].map((i) => ({ name: `Part${i}`, namespaces: rng.sample(nss, rng.r(1, nss.length - 1)), named: rng.p(0.5) })),
  ];
  const p = Program.build(`c19${size}`, `c19${size}`, g, { backend: nss, backends, extraSource, library, what: "program with registries" });
  const dump = p.dump();
  const all = [...nss, ...outside];
  const types = (ns) => [...ns.decls.map((d) => d.exp), ...extra.filter((e) => e.ns === ns).map((e) => e.exp)];
  const tag = `${size} ${seed}`;

  /** compare two multisets of names */
  const agree = (view, want, have) => {
    const w = multiset(want), h = multiset(have);
    for (const k of new Set([...w.keys(), ...h.keys()])) {
      report.eval(`${tag} ${view} ${k}`);
      report.count(`entries of ${view.split(" ")[0]}`);
      if ((w.get(k) ?? 0) !== (h.get(k) ?? 0)) report.violation(`${view}: ${k} occurs ${h.get(k) ?? 0} times instead of ${w.get(k) ?? 0}`, { want: [...w.keys()], have: [...h.keys()] });
    }
  };

  // 1. the names that the namespaces declare
  agree("Namespace::NAME", g.namespaces.map((n, i) => `${i} ${n.exported}`), dump.namespaces.map((n, i) => `${i} ${n.name}`));
  agree("RpcNamespace::NAME", all.map((n, i) => `${i} ${n.exported}`), dump.rpc_namespaces.map((n, i) => `${i} ${n.name}`));
  // 2. members of every namespace
  g.namespaces.forEach((ns, i) => agree(`Namespace::members of ${ns.exported}`, types(ns).map((t) => key(ns.exported, t)), dump.namespaces[i].members.map((m) => key(m.ns, m.name))));
  // 3. the collected registry
  agree("collect names", g.namespaces.filter((n) => types(n).length).map((n) => n.exported), Object.keys(dump.collect));
  agree("collect entries", g.namespaces.flatMap((n) => types(n).map((t) => `${n.exported}: ${key(n.exported, t)}`)), Object.entries(dump.collect).flatMap(([k, ms]) => ms.map((m) => `${k}: ${key(m.ns, m.name)}`)));
  // 4. methods of every namespace
  all.forEach((ns, i) => {
    const have = dump.rpc_namespaces[i].members;
    agree(`RpcNamespace::rpc_members of ${ns.exported}`, ns.methods.map((m) => key(ns.exported, m.name)), have.map((m) => key(m.ns, declared(m.decl))));
    for (const m of ns.methods) for (const h of have.filter((x) => declared(x.decl) === m.name)) checkDecl(report, tag, ns, m, h.decl);
  });
  // 5. the views of every backend, and the code generated for it
  for (const b of [{ name: "Server", namespaces: nss, view: { ...dump.server } }, ...backends.map((b) => ({ ...b, view: dump.backends[b.name] }))]) {
    const v = b.view;
    report.count("backends");
    agree(`${b.name} NS_NAMES`, b.namespaces.map((n) => n.exported), v.ns_names);
    agree(`${b.name} zod_namespaces`, b.namespaces.flatMap((n) => types(n).map((t) => `${n.exported}: ${key(n.exported, t)}`)), Object.entries(v.zod_namespaces).flatMap(([k, ms]) => ms.map((m) => `${k}: ${key(m.ns, m.name)}`)));
    agree(`${b.name} rpc_members`, b.namespaces.flatMap((n) => n.methods.map((m) => `${n.exported}: ${m.name}`)), Object.entries(v.rpc_members).flatMap(([k, ds]) => ds.map((d) => `${k}: ${declared(d)}`)));
    const { exports } = exportsOf(v.code, b.name);
    agree(`${b.name} generated`, b.namespaces.flatMap((n) => [...types(n).flatMap((t) => [key(n.exported, t), key(n.exported, t)]), ...n.methods.map((m) => key(n.exported, m.name))]), [...exports].flatMap(([n, ms]) => [...ms].flatMap(([m, kinds]) => kinds.map(() => key(n, m)))));
    // the same entries, not only the same names
    const by = (o) => new Map(Object.values(o).flat().map((m) => [key(m.ns, m.name), m]));
    const reg = by(dump.collect);
    for (const m of Object.values(v.zod_namespaces).flat()) same(report, `${b.name} zod_namespaces ${key(m.ns, m.name)}`, reg.get(key(m.ns, m.name)), m);
  }
  dump.namespaces.forEach((n) => { const reg = new Map((dump.collect[n.name] ?? []).map((m) => [m.name, m])); for (const m of n.members) same(report, `members ${key(n.name, m.name)}`, reg.get(m.name), m); });
  // 6. a registered entry is the type itself
  const reg = new Map(Object.values(dump.collect).flat().map((m) => [key(m.ns, m.name), m]));
  for (const root of p.roots.filter((r) => r.decl)) {
    const t = dump.roots[root.index], e = reg.get(key(root.decl.ns.exported, root.decl.exp));
    report.eval(`${tag} entry ${root.rust}`);
    report.count("entries compared with their type");
    if (!e) { report.violation(`${root.rust} is not registered as ${root.decl.ns.exported}.${root.decl.exp}`, {}); continue; }
    if (e.schema !== t.schema) report.violation(`${root.rust}: the registered schema differs from that of the type`, { registered: e.schema, type: t.schema });
    if (e.type_def.text !== t.type_def.text || e.type_def.form !== t.type_def.form) report.violation(`${root.rust}: the registered type differs from that of the type`, { registered: e.type_def, type: t.type_def });
    // references lead to exactly this entry
    const { text, kind } = { text: t.inline, kind: "type" };
    report.eval(`${tag} reference ${root.rust}`);
    if (text !== key(root.decl.ns.exported, root.decl.exp) && !/^\s*[({\[]|\bArray|\|/.test(text) && /^[\w$\u0080-\uffff]+\.[\w$\u0080-\uffff]+$/.test(text) && !refersOn(root.decl)) report.violation(`${root.rust} is referred to as ${kind} ${text}, but registered as ${key(root.decl.ns.exported, root.decl.exp)}`, {});
  }
  // ... and the exported schema of the module is the one registered under this name: as seen by reference and by name
  const mod = await loadModule(p.generate(), `${p.crate}/gen`);
  for (const d of g.decls) {
    if (!nss.includes(d.ns)) continue;
    const t = dump.roots[p.roots.find((r) => r.decl === d).index];
    report.eval(`${tag} inline ${d.exp}`);
    const names = Object.keys(mod).filter((k) => /^[\p{ID_Start}$_][\p{ID_Continue}$]*$/u.test(k));
    let s;
    try { s = new Function("z", ...names, `return (${t.inline_schema})`)(await zod(), ...names.map((n) => mod[n])); } catch (e) { report.violation(`${d.name}: its inline schema does not evaluate: ${e.message}`, { text: t.inline_schema }); continue; }
    if (s?._def?.typeName === "ZodLazy") {
      const to = s._def.getter();
      report.count("references followed");
      const want = mod[d.ns.exported]?.[d.exp];
      if (to !== want) {
        const at = Object.entries(mod).flatMap(([n, m]) => (m && typeof m === "object" ? Object.entries(m) : []).filter(([, x]) => x === to).map(([k]) => `${n}.${k}`));
        if (!(d.from || d.transparent)) report.violation(`a reference to ${d.ns.exported}.${d.exp} leads to ${at[0] ?? "something else"}`, { text: t.inline_schema });
      }
    }
  }
  report.sample({ program: size, namespaces: g.namespaces.map((n) => `${n.name} as ${n.exported}: ${types(n).length} types, ${n.methods.length} methods`), backends: backends.map((b) => b.namespaces.map((n) => n.exported)) });
  void [prim, head];
}
const refersOn = (d) => d.transparent || d.from || d.style === "newtype";
let zodModule;
async function zod() { return (zodModule ??= (await import("../types.mjs")).z); }
/** the name of the function a declaration declares */
function declared(decl) { return /(?:function\s*\*?\s*|(?:const|let|var)\s+)([^\s(=:<]+)/.exec(decl)?.[1] ?? `?${decl.slice(0, 60)}`; }
function checkDecl(report, tag, ns, m, decl) {
  report.eval(`${tag} decl ${ns.exported}.${m.name}`);
  // the exported function is the one of this namespace
  if (!decl.includes(ns.exported) || !decl.includes(m.name)) report.violation(`the declaration of ${ns.exported}.${m.name} does not name its namespace and method`, { decl });
}
function same(report, what, a, b) {
  report.eval(what);
  if (!a) report.violation(`${what} is not in the collected registry`, {});
  else if (a.schema !== b.schema || a.type_def.text !== b.type_def.text || a.type_def.form !== b.type_def.form) report.violation(`${what} differs between the views`, { a, b });
}
