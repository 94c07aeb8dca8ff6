// The generated module of several backends per program: syntax, diagnostics, exports, and every exported thing is usable.
import { Rng } from "../rng.mjs";
import { Gen } from "../corpus.mjs";
import { Program, typeCheck, ZOD_STUB, loadModule, ts, z } from "../types.mjs";
import { gen, tup, computeDepths, liveFields, liveVariants, reach } from "../spec.mjs";
import { defect, rounds, verdict, lit } from "./common.mjs";
import { Inconclusive, Violation, head, mkdirp } from "../util.mjs";
import path from "node:path";

export const rule = "a case is one exported (or wrongly exported) name of a generated module together with the use made of it; distinct by (backend, name, kind of use)";

export default async function (report, conf) {
  report.info.programs = await rounds(conf, 420, (seed) => round(report, conf, seed), 3);
  await knownNames(report);
}

/** everything the generated module is seen to export, from the compiler's symbol table */
export function exportsOf(code, what) {
  const { diagnostics, program } = typeCheck({ "/api.ts": code, "/zod.d.ts": ZOD_STUB }, ["/api.ts"]);
  const checker = program.getTypeChecker();
  const sf = program.getSourceFile("/api.ts");
  const sym = checker.getSymbolAtLocation(sf);
  const out = new Map();
  for (const s of sym ? checker.getExportsOfModule(sym) : []) {
    if (!(s.flags & (ts.SymbolFlags.Namespace))) continue;
    const members = new Map();
    for (const m of checker.getExportsOfModule(s)) {
      const kinds = (m.declarations ?? []).map((d) => ts.isFunctionDeclaration(d) || ts.isVariableDeclaration(d) ? "value" : ts.isInterfaceDeclaration(d) || ts.isTypeAliasDeclaration(d) ? "type" : ts.SyntaxKind[d.kind]);
      members.set(m.name, kinds.sort());
    }
    out.set(s.name, members);
  }
  return { diagnostics, exports: out, what };
}

/** follow every lazy reference of a schema; returns the number of nodes */
export function resolve(schema, seen = new Set()) {
  if (seen.has(schema)) return 0;
  seen.add(schema);
  if (!(schema instanceof z.ZodType)) throw new Error(`not a schema: ${String(schema)}`);
  let n = 1;
  const d = schema._def;
  const kids = [d.type, d.innerType, d.schema, d.valueType, d.keyType, d.left, d.right].filter((x) => x && typeof x === "object");
  if (Array.isArray(d.items)) kids.push(...d.items);
  if (d.options) kids.push(...(Array.isArray(d.options) ? d.options : d.options.values()));
  if (typeof d.shape === "function") kids.push(...Object.values(d.shape()));
  if (typeof d.getter === "function") {
    const t = d.getter();
    if (!(t instanceof z.ZodType)) throw new Error("a reference that does not lead to a schema");
    kids.push(t);
  }
  for (const k of kids) n += resolve(k, seen);
  return n;
}

/** a WebSocket that opens soon and keeps what is sent */
export class Wire extends EventTarget {
  static CONNECTING = 0; static OPEN = 1; static CLOSING = 2; static CLOSED = 3;
  static frames = [];
  readyState = 0;
  constructor() {
    super();
    queueMicrotask(() => { if (this.readyState !== 0) return; this.readyState = 1; const e = new Event("open"); this.onopen?.(e); this.dispatchEvent(e); });
  }
  send(x) { if (this.readyState !== 1) throw new Error("not open"); Wire.frames.push(x); }
  close() { this.readyState = 3; }
}

export function silence() {
  for (const k of ["debug", "trace", "info", "warn"]) console[k] = () => {};
  const log = console.log;
  console.log = (...a) => { if (a[0] !== "Exec Response") log(...a); };
}

async function round(report, conf, seed) {
  const rng = new Rng(`c06:${seed}`);
  const g = new Gen(rng.sub("decls"));
  const nss = [g.namespace("Alpha"), g.namespace("Beta", "beta_ns"), g.namespace("Left", "Right"), g.namespace("Right", "Left"), g.namespace("Types", "ünïcode"), g.namespace("Methods", "$m"), g.namespace("Empty"), g.namespace("Wide", "Alpha2"), g.namespace("r#dyn", "dyn")];
  const [Alpha, Beta, Left, Right, Types, Methods, Empty, Wide, Raw] = nss;
  // only referred to by itself and never part of any backend, so nothing of it may appear
  const Outside = g.namespace("Outside"), Unused = g.namespace("Unused", "unused_ns");
  const typed = [Alpha, Beta, Left, Right, Types, Wide, Raw];
  const n = conf.tier === "thorough" ? 110 : 70;
  for (let i = 0; i < n; i++) g.any({ ns: rng.pick(typed), asym: rng.p(0.3) });
  g.recursive(4, { ns: Alpha }); g.recursive(4, { ns: Left });
  // equal type names in different namespaces
  for (const [i, ns] of [Alpha, Left, Right].entries()) g.struct({ ns, name: "Same", mod: `same${i}`, plain: true });
  for (const [i, ns] of [Beta, Types].entries()) g.enum({ ns, name: "Other", mod: `same${i}`, plain: true });
  // names that are keywords of Rust only
  g.struct({ ns: Alpha, name: "r#match", style: "named", plain: true }); g.enum({ ns: Raw, name: "r#impl", plain: true }); g.struct({ ns: Raw, name: "r#async", style: "named", mod: "same0", plain: true });
  g.struct({ ns: Left, name: "Größe", style: "named", plain: true }); g.enum({ ns: Raw, name: "Типы", plain: true });
  g.strangeNames({ namespaces: typed });
  const inside = [...g.decls];
  for (let i = 0; i < 8; i++) g.any({ ns: rng.pick([Outside, Unused]) });
  computeDepths(g.decls);
  const pool = { pool: inside };
  for (const ns of [Alpha, Beta, Left, Right, Methods, Wide, Raw]) {
    for (let i = rng.r(2, 6); i > 0; i--) g.method(ns, { ctx: pool });
    g.method(ns, { name: "shared", ctx: pool });
    if (rng.p(0.5)) g.method(ns, { name: "Same_", ctx: pool });
    g.method(ns, { name: rng.pick([ns.name === "Wide" ? "Wide" : "Other_", "toString", "constructor", "then", "name", "length", "apply", "valueOf"]), ctx: pool });
  }
  for (const ns of [Outside, Unused]) for (let i = 0; i < 3; i++) g.method(ns, { ctx: { pool: g.decls } });
  for (const ns of [Alpha, Left]) g.method(ns, { n: 3, name: "strange_args", ctx: pool });
  const backends = [
    { name: "BackendAll", namespaces: nss, named: true },
    // other sets of namespaces: with every namespace that the types of the chosen ones lead to
    ...[1, 2, 3].map((k) => ({ name: `Backend${k}`, namespaces: closure(rng.sample(nss, rng.r(1, 3)), g), named: rng.p(0.5) })),
  ];
  const p = Program.build("c06", "c06", g, { backend: nss, backends, what: "program with several backends" });
  const dump = p.dump();
  silence();
  const gens = [["Server", nss, p.generate()], ...backends.map((b) => [b.name, b.namespaces, dump.backends[b.name].code])];
  for (const [name, members, code] of gens) await judge(report, name, members, code, rng.sub(name), p.crate, conf);
  void Empty;
}
export function closure(start, g) {
  const out = new Set(start);
  for (let grew = true; grew;) {
    grew = false;
    for (const ns of [...out]) {
      const roots = [...ns.decls.map((d) => ({ k: "ref", d })), ...ns.methods.flatMap((m) => [...m.args.map((a) => a.ty), m.ret.ty])];
      for (const t of roots) reach(t, (x) => { if (x.k === "ref" && !out.has(x.d.ns)) { out.add(x.d.ns); grew = true; } return false; });
    }
  }
  return g.namespaces.filter((n) => out.has(n));
}

export async function judge(report, name, nss, code, rng, crate, conf) {
  const { diagnostics, exports } = exportsOf(code, name);
  report.count("modules");
  for (const d of diagnostics) report.violation(`${name}: the compiler complains about the generated code: ${d.text}`, { source: d.source });
  if (diagnostics.length) report.eval(`${name} diagnostics`);
  const expected = new Map(nss.map((n) => [n.exported, n]));
  for (const [ns, members] of exports) {
    if (!expected.has(ns)) { report.eval(`${name} ${ns}`); report.violation(`${name}: exports ${ns}, which is no namespace of the backend`, { members: [...members.keys()] }); }
  }
  globalThis.WebSocket = Wire;
  const mod = await loadModule(code, path.join(crate, "gen"));
  for (const ns of nss) {
    const want = new Map();
    for (const d of ns.decls) want.set(d.exp, ["type", "value"]);
    for (const m of ns.methods) want.set(m.name, ["value"]);
    const have = exports.get(ns.exported) ?? new Map();
    const real = mod[ns.exported] ?? {};
    for (const [k, kinds] of want) {
      report.eval(`${name} ${ns.exported}.${k} exported`);
      report.count(kinds.length === 2 ? "types" : "functions");
      const got = have.get(k);
      if (!got) report.violation(`${name}: ${ns.exported}.${k} is not exported`, {});
      else if (got.join() !== kinds.join()) report.violation(`${name}: ${ns.exported}.${k} is exported as [${got}], expected [${kinds}]`, {});
    }
    for (const [k, kinds] of have) if (!want.has(k)) { report.eval(`${name} ${ns.exported}.${k}`); report.violation(`${name}: ${ns.exported}.${k} (${kinds}) is exported, but not declared in this namespace`, {}); }
    for (const k of Object.keys(real)) if (!want.has(k)) report.violation(`${name}: ${ns.exported}.${k} exists at run time, but is not declared in this namespace`, {});
    // every schema resolves and can be used
    for (const d of ns.decls) {
      const s = real[d.exp];
      if (!(s instanceof z.ZodType)) { report.violation(`${name}: ${ns.exported}.${d.exp} is no schema`, {}); continue; }
      report.eval(`${name} ${ns.exported}.${d.exp} resolved`);
      try { report.count("schema nodes", resolve(s)); } catch (e) { report.violation(`${name}: the schema ${ns.exported}.${d.exp} does not resolve: ${e.message}`, {}); continue; }
      const vr = rng.sub(d.exp);
      for (let j = 0; j < 4; j++) {
        const v = gen({ k: "ref", d }, vr, j);
        const r = verdict(s, v);
        report.eval(`${name} ${ns.exported}.${d.exp} value ${j}`);
        if (r.threw) report.violation(`${name}: ${ns.exported}.${d.exp} cannot be used: ${r.threw.message}`, { value: v });
        else if (!r.success) report.violation(`${name}: ${ns.exported}.${d.exp} is not the schema of the type: rejects ${lit(v)}`, { issues: r.error.issues });
      }
    }
    // every function can be called and leads to the method of this name
    for (const m of ns.methods) {
      const f = real[m.name];
      if (typeof f !== "function") { report.violation(`${name}: ${ns.exported}.${m.name} is no function`, {}); continue; }
      const vr = rng.sub(`call ${m.name}`);
      for (let j = 0; j < 3; j++) {
        const args = gen(tup(...m.args.map((a) => a.ty)), vr, 1 + j);
        Wire.frames.length = 0;
        report.eval(`${name} ${ns.exported}.${m.name} called ${j}`);
        report.count("calls");
        let r, failed;
        try { r = f(...args); } catch (e) { failed = e; }
        if (m.kind === "method" && r && typeof r.then === "function") r.catch((e) => { failed = e; });
        for (let k = 0; k < 12; k++) await null;
        const where = `${name}: ${ns.exported}.${m.name}(${m.args.map((a) => a.name)})`;
        if (failed) { report.violation(`${where} fails with valid arguments: ${head(String(failed.message ?? failed), 300)}`, { args }); continue; }
        if (m.kind === "method" ? typeof r?.then !== "function" : typeof r?.subscribe !== "function" || typeof r?.close !== "function") report.violation(`${where} returns no ${m.kind === "method" ? "promise" : "stream"}`, {});
        if (Wire.frames.length !== 1) { report.violation(`${where} sends ${Wire.frames.length} frames`, { frames: [...Wire.frames] }); continue; }
        const x = JSON.parse(Wire.frames[0]).exec;
        if (x?.namespace !== ns.exported || x?.method !== m.name || x?.args?.length !== m.args.length) report.violation(`${where} asks for ${x?.namespace}.${x?.method} with ${x?.args?.length} arguments`, { frame: Wire.frames[0] });
      }
    }
  }
  report.sample({ backend: name, namespaces: nss.map((n) => n.exported), exported: [...exports].map(([k, v]) => `${k}: ${v.size}`), bytes: code.length });
  void [conf, liveFields, liveVariants];
}

/** names that are known not to work, each in a backend of its own */
async function knownNames(report) {
  const g = new Gen(new Rng("known"));
  const P = { plain: true, mod: null, rename: false };
  const backends = [];
  const mk = (key, name, ns, message) => backends.push({ key, name, namespaces: [ns], message });
  const u8 = { k: "u8" };
  const field = (nm, ty) => ({ id: nm, base: nm, wire: nm, attrs: [], ty, dflt: false, skipDe: false });
  const struct = (ns, name, fields, attrs = [], exp = name) => g.add({ name, exp, ns, mod: null, kind: "struct", style: "named", attrs, docs: [], fields, tags: new Set() });
  const method = (ns, name) => g.method(ns, { name, kind: "method", n: 1, ctx: { noRefs: true } });
  const ns1 = g.namespace("NsReserved"); method(ns1, "delete");
  mk("reserved-method", "BReserved", ns1, "a method whose name is a reserved word of JavaScript (delete) makes the module invalid");
  const ns2 = g.namespace("NsRequest"); method(ns2, "request"); method(ns2, "other");
  mk("method-request", "BRequest", ns2, "a method named request (or subscribe) shadows the function that all methods of its namespace call");
  const ns9 = g.namespace("NsMethodZ"); method(ns9, "z"); method(ns9, "y"); struct(ns9, "Point", [field("z", u8)]);
  mk("method-z", "BMethodZ", ns9, "a method named z hides zod from all schemas of its namespace");
  const ns3 = g.namespace("NsMap"); struct(ns3, "Map", [field("a", u8)]); struct(ns3, "UsesMap", [field("m", { k: "bmap", kt: { k: "string" }, t: u8 })]);
  mk("type-shadows-global", "BMap", ns3, "a type named like a global the generated types refer to (Map) breaks the types of its namespace");
  const ns4 = g.namespace("NsIdent"); struct(ns4, "Odd", [field("a", u8)], ['rename = "a-b"'], "a-b");
  mk("name-no-identifier", "BIdent", ns4, "a type renamed to something that is no identifier (a-b) makes the module invalid");
  const ns5 = g.namespace("NsZ", "z"); struct(ns5, "InZ", [field("a", u8)]);
  mk("namespace-shadows", "BZ", ns5, "a namespace named like something the client uses (z) breaks the module");
  const ns6 = g.namespace("NsOwn"); struct(ns6, "Inner", [field("a", u8)]); g.method(ns6, { name: "NsOwn", kind: "method", n: 1, ctx: { pool: ns6.decls, pred: (t) => t.k === "ref" } });
  mk("own-name", "BOwn", ns6, "a type or method named like its namespace hides the namespace from the references of its members (NsOwn.Inner)");
  const ns7 = g.namespace("NsOuter"), far = struct(ns7, "Far", [field("a", u8)]), ns8 = g.namespace("NsInner");
  struct(ns8, "NsOuter", [field("a", u8)]); struct(ns8, "Refers", [field("far", { k: "ref", d: far })]);
  ns8.decls[0].mod = "deep";
  mk("type-shadows-namespace", "BFar", ns8, "a type or method named like another namespace hides it from the references of its own namespace (NsOuter.Far in a namespace with a type NsOuter)");
  backends.at(-1).namespaces = [ns7, ns8];
  computeDepths(g.decls);
  void P;
  const p = Program.build("c06k", "c06k", g, { backend: [], backends, what: "names" });
  const dump = p.dump();
  for (const b of backends) {
    const sub = { violations: [], eval() {}, count() {}, sample() {}, violation(m) { this.violations.push(m); } };
    try { await judge(sub, b.name, b.namespaces, dump.backends[b.name].code, new Rng(b.key), p.crate, {}); } catch (e) { if (!(e instanceof Violation)) throw e; sub.violations.push(e.message); }
    report.eval(`known ${b.key}`);
    if (sub.violations.length) defect(report, b.key, `${b.message}: ${sub.violations[0]}`, { all: sub.violations });
  }
}
void [Inconclusive, mkdirp];
