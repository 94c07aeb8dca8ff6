// Seeded generation of Rust programs: declarations with serde attributes, namespaces, docs and RPC methods.
import {
  T, prim, vec, opt, tup, ref, rust, isInt, isFloat, isWrap, hashable, clonable, sendable, symmetric, bufferable, undefable,
  defaultable, declFields, liveFields, computeDepths, typeDepth, RULES, ruleField, ruleVariant, INTS, reach, children,
} from "./spec.mjs";

const WORDS = ["id", "name", "value", "kind", "user_name", "created_at", "x", "y", "is_ok", "data", "inner_value", "list", "a_b_c", "type", "match", "use", "ref", "fn", "default", "class", "function", "delete", "this", "interface"];
const RAW = new Set(["type", "match", "use", "ref", "fn", "in", "let", "move", "loop", "where", "async", "await", "enum", "struct", "trait", "impl", "dyn", "static", "const", "return", "while", "for", "if", "else", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try", "abstract", "become", "mod", "pub", "as", "break", "continue", "extern", "unsafe", "mut", "true", "false"]);
export const rawIdent = (s) => (RAW.has(s) ? `r#${s}` : s);
const VARS = ["A", "B", "Idle", "InUse", "NotFound", "Xy", "Circle", "RectAngle", "Http2", "Ok", "Err", "None", "Some", "Self_", "Default", "Delete", "HTTP", "aB", "lower", "snake_case", "type", "X1Y2", "A_b"];
export const STRANGE_KEYS = ["kebab-case", "with space", "1st", "ünï", "dot.ted", "qu\"ote", "back\\slash", "a:b", "$dollar", "_under", "new", "class", "Z-1", "{brace}", "漢字", "'single'", "`tick`", "${x}", "*/", "42", "constructor", "toString", "valueOf", "hasOwnProperty", "then", "toJSON", "prototype", "arguments"];

export const PRIMS = ["bool", ...Object.keys(INTS), "f32", "f64", "char", "string", "unit", "ipv4", "ipv6", "ip", "smol", "nn32", "nn64"];
/** names that every object inherits: see the finding inherited-key of C03 */
const INHERITED = ["constructor", "toString", "valueOf", "hasOwnProperty"];
const KEY_PRIMS = ["string", "string", "char", "ipv4", "u8", "i32", "u64"];
const COMMON = ["bool", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f32", "f64", "char", "string", "unit", "ipv4", "ipv6", "ip", "smol", "nn64"];

/** no identifiers, or only if one asks the right standard */
const ODD_NAMES = ["x²", "x½", "²", "a\u0301", "ª", "Ⅷ", "٣", "a٣", "a·b", "😀", "", " ", "tab\tx", "nl\nx", "cr\rx", "nul\u0000", "\u2028", "\u0085", "del\u007f", "\ufeff", "a\u200db", "-", "#private", "@at", "a/b", "a\\", "\\u0041", "\"", "null", "true", "1e3", "-1", "a=b", "[x]", "a;b", "?", "async", "await"];

const q = (s) => JSON.stringify(s).replace(/\\(\\|[bf]|u([0-9a-f]{4}))/g, (m, c, h) => (h ? `\\u{${h}}` : c === "b" ? "\\u{8}" : c === "f" ? "\\u{c}" : m));

export class Gen {
  constructor(rng, o = {}) {
    this.rng = rng;
    this.o = o;
    this.decls = [];
    this.namespaces = [];
    this.counter = 0;
    this.prefix = o.prefix ?? "T";
  }
  namespace(name, exported = name, extra = {}) {
    const ns = { name, exported, methods: [], decls: [], ...extra };
    this.namespaces.push(ns);
    return ns;
  }
  fresh(stem = "") { return `${this.prefix}${this.counter++}${stem}`; }

  // ------------------------------------------------------------ types
  /** ctx: {noUndef, hash, key, rpc, noRefs} */
  type(depth, ctx = {}) {
    const r = this.rng;
    for (let i = 0; i < 50; i++) {
      const t = this.typeOnce(depth, ctx);
      if (ctx.noUndef && undefable(t)) continue;
      if (ctx.hash && !hashable(t)) continue;
      if (ctx.rpc && !(sendable(t) && clonable(t))) continue;
      if (ctx.dflt && !defaultable(t)) continue;
      if (ctx.pred && !ctx.pred(t)) continue;
      return t;
    }
    return prim(r.pick(["u8", "string", "bool"]));
  }
  typeOnce(depth, ctx) {
    const r = this.rng;
    const pool = ctx.noRefs ? [] : (ctx.pool ?? this.decls);
    const w = r.f();
    if (depth <= 0 || w < 0.4) return prim(ctx.rpc && r.p(0.06) ? r.pick(["u128", "i128"]) : r.pick(COMMON));
    if (pool.length && w < 0.62) return ref(r.pick(pool));
    const sub = (o = {}) => this.type(depth - 1, { ...ctx, ...o });
    switch (r.n(16)) {
      case 0: case 1: return vec(sub({ noUndef: false }));
      case 2: return T("arr", { t: sub({ noUndef: false }), n: r.pick([0, 1, 2, 3, 5]) });
      case 3: return T("hset", { t: sub({ noUndef: false, hash: true }) });
      case 4: return T("bset", { t: sub({ noUndef: false, hash: true }) });
      case 5: return T("hmap", { kt: this.keyType(ctx), t: sub({ noUndef: false }) });
      case 6: return T("bmap", { kt: this.keyType(ctx), t: sub({ noUndef: false }) });
      case 7: case 8: case 9: return opt(sub());
      case 10: return T("res", { t: sub({ noUndef: true }), e: sub({ noUndef: true }) });
      case 11: case 12: return tup(...Array.from({ length: r.r(1, 4) }, () => sub({ noUndef: false })));
      case 13: return T(r.pick(["box", "arc", "rc", "refcell", "mutex"]), { t: sub() });
      case 14: return r.p(0.5) ? T("cell", { t: prim(r.pick(["u8", "i32", "bool", "f64", "char"])) }) : T("cow", { t: prim(r.pick(["string", "u32", "i16"])) });
      default: return T("phantom", { t: sub({ noUndef: false }) });
    }
  }
  keyType(ctx) {
    const enums = (ctx.noRefs ? [] : (ctx.pool ?? this.decls)).filter((d) => d.kind === "enum" && d.tag.m === "ext" && !d.from && !d.asym && d.variants.every((v) => v.style === "unit" && !v.skipDe));
    if (enums.length && this.rng.p(0.25)) return ref(this.rng.pick(enums));
    return prim(this.rng.pick(KEY_PRIMS));
  }

  // ------------------------------------------------------------ fields
  field(i, used, o = {}) {
    const r = this.rng;
    let name = r.pick(WORDS);
    while (used.has(name)) name = `${r.pick(WORDS)}_${i}${r.n(9)}`;
    used.add(name);
    return { id: rawIdent(name), base: name, attrs: [], ty: this.type(o.depth ?? 2, o.ctx ?? {}), dflt: false, skipDe: false };
  }
  fields(n, o = {}) {
    const r = this.rng;
    const used = new Set(), out = [];
    for (let i = 0; i < n; i++) out.push(this.field(i, used, o));
    // attributes
    for (const f of out) {
      if (o.plain) continue;
      const live = out.filter((x) => !x.skipDe).length;
      if (r.p(0.15)) { f.ty = this.type(1, { ...(o.ctx ?? {}), dflt: true }); f.dflt = true; f.attrs.push("default"); if (f.ty.k === "vec" && r.p(0.5)) f.attrs.push('skip_serializing_if = "Vec::is_empty"'); }
      else if (r.p(0.08)) { f.ty = prim("u32"); f.dflt = true; f.attrs.push('default = "crate::default_u32"'); }
      else if (live > 1 && r.p(0.1)) { f.ty = this.type(1, { ...(o.ctx ?? {}), dflt: true, noRefs: true }); f.skipDe = true; f.attrs.push("skip"); }
      else if (f.ty.k === "opt" && r.p(0.3)) { f.attrs.push('skip_serializing_if = "Option::is_none"'); }
      else if (r.p(0.06)) f.attrs.push('skip_serializing_if = "crate::never"');
      else if (o.asym && live > 1 && r.p(0.15)) { f.ty = this.type(1, { ...(o.ctx ?? {}), dflt: true, noRefs: true }); f.skipDe = true; f.attrs.push("skip_deserializing"); f.serOnly = true; }
      if (o.asym && !f.skipDe && r.p(0.15)) { f.attrs.push("skip_serializing"); f.deOnly = true; }
      if (o.asym && !f.skipDe && r.p(0.15)) { f.attrs.push(`alias = "alias_${f.base}"`); f.alias = true; }
    }
    return out;
  }
  /** assign names on the wire */
  wire(fields, rule, o = {}) {
    const r = this.rng;
    const used = new Set();
    for (const f of fields) f.wire = ruleField(rule, f.base);
    for (const f of fields) used.add(f.wire);
    for (const f of fields) {
      if (o.plain) continue;
      const w = r.f();
      if (w < 0.12) {
        const k = r.pick(STRANGE_KEYS);
        if (!used.has(k) && !(o.avoid ?? []).includes(k) && !(INHERITED.includes(k) && (f.dflt || undefable(f.ty)))) { used.add(k); f.wire = k; f.attrs.push(`rename = ${q(k)}`); }
      } else if (o.asym && w < 0.3) {
        const k = `de_${f.base}`;
        if (!used.has(k)) { used.add(k); f.wire = k; f.attrs.push(r.p(0.5) ? `rename(serialize = "ser_${f.base}", deserialize = ${q(k)})` : `rename(deserialize = ${q(k)})`); f.renamed = true; }
      } else if (o.asym && w < 0.4) { f.attrs.push(`rename(serialize = "ser_${f.base}")`); f.serRenamed = true; }
    }
  }

  // ------------------------------------------------------------ declarations
  base(kind, o = {}) {
    const r = this.rng;
    const name = o.name ?? this.fresh();
    const d = {
      name, exp: name.replace(/^r#/, ""), ns: o.ns ?? r.pick(this.namespaces), mod: o.mod !== undefined ? o.mod : r.p(0.2) ? r.pick(["m1", "m2"]) : null,
      kind, attrs: [], docs: o.docs ?? [], asym: !!o.asym, tags: new Set(o.tags ?? []),
    };
    if (o.rename ?? (!o.plain && r.p(0.08))) { d.exp = `Renamed${name}`; d.attrs.push(o.asym ? `rename(deserialize = ${q(d.exp)})` : `rename = ${q(d.exp)}`); }
    return d;
  }
  add(d) { if (this.o.noDebug) d.noDebug = true; this.decls.push(d); d.ns.decls.push(d); return d; }

  struct(o = {}) {
    const r = this.rng;
    const d = this.base("struct", o);
    d.style = o.style ?? r.pick(["named", "named", "named", "newtype", "tuple"]);
    const ctx = { ...(o.ctx ?? {}) };
    if (d.style === "named") {
      d.fields = this.fields(o.n ?? r.r(1, 5), { ctx, asym: o.asym, plain: o.plain });
      if (!o.plain && r.p(0.15) && d.fields.every((f) => defaultable(f.ty))) {
        d.attrs.push("default"); d.deriveDefault = true; for (const f of d.fields) if (!f.skipDe) f.dflt = true;
      }
      d.rule = o.rule ?? (!o.plain && r.p(0.4) ? r.pick(RULES) : null);
      if (d.rule) {
        if (o.asym && r.p(0.5)) { d.attrs.push(`rename_all(deserialize = "${d.rule}"${r.p(0.5) ? ', serialize = "UPPERCASE"' : ""})`); }
        else d.attrs.push(`rename_all = "${d.rule}"`);
      }
      this.wire(d.fields, d.rule, { asym: o.asym, plain: o.plain });
    } else if (d.style === "newtype") {
      d.fields = [{ id: null, attrs: [], ty: this.type(2, { ...ctx, noUndef: true }), dflt: false, skipDe: false }];
    } else {
      d.fields = Array.from({ length: o.n ?? r.r(2, 4) }, () => ({ id: null, attrs: [], ty: this.type(2, ctx), dflt: false, skipDe: false }));
      if (!o.plain && r.p(0.25)) this.skipOne(d.fields);
    }
    if (!o.plain && r.p(0.12) && (d.style === "newtype" || d.style === "named")) this.makeTransparent(d, ctx);
    return this.add(d);
  }
  skipOne(fields) {
    const f = this.rng.pick(fields);
    f.ty = this.type(1, { dflt: true, noRefs: true, noUndef: true });
    f.skipDe = true;
    f.attrs.push("skip");
  }
  makeTransparent(d, ctx) {
    const r = this.rng;
    const mk = (ty, o = {}) => ({ id: d.style === "named" ? (o.id ?? "inner") : null, base: "inner", wire: o.id ?? "inner", attrs: [], ty, dflt: false, skipDe: false, ...o });
    d.transparent = true; d.deriveDefault = false; d.rule = null;
    d.attrs = [...d.attrs.filter((a) => a.startsWith("rename =") || a.startsWith("rename(")), "transparent"];
    const inner = mk(this.type(2, { ...ctx, noUndef: true, pred: (t) => t.k !== "phantom" && (ctx.pred ? ctx.pred(t) : true) }));
    const ph = mk(T("phantom", { t: prim("u8") }), { id: "marker", phantomOfTransparent: true });
    d.fields = r.p(0.5) ? [inner] : r.p(0.5) ? [ph, inner] : [inner, ph];
    if (d.style === "newtype" && d.fields.length > 1) for (const f of d.fields) f.id = null;
  }
  fromStruct(o = {}) {
    const r = this.rng;
    const d = this.base(o.kind ?? "struct", o);
    d.from = this.type(2, { ...(o.ctx ?? {}), noUndef: true, pred: (t) => clonable(t) });
    d.fromTry = r.p(0.5);
    d.into = !o.asym;
    if (o.asym && r.p(0.4)) { d.attrs.push('into = "String"'); d.intoOnly = "String"; }
    d.style = "newtype";
    d.fields = [{ id: null, attrs: [], ty: d.from, dflt: false, skipDe: false }];
    if (d.kind === "enum") {
      d.tag = { m: "ext" };
      d.variants = [{ name: "V", base: "V", wire: "V", style: "newtype", fields: d.fields, attrs: [] }];
    }
    return this.add(d);
  }

  enum(o = {}) {
    const r = this.rng;
    const d = this.base("enum", o);
    const m = o.m ?? r.pick(["ext", "ext", "int", "adj", "un"]);
    d.tag = { m };
    if (m === "int" || m === "adj") d.tag.tag = o.tag ?? r.pick(["type", "tag", "kind-of", "t", "$t", "#tag"]);
    if (m === "adj") d.tag.content = o.content ?? r.pick(["content", "c", "pay-load"]);
    if (m === "int") d.attrs.push(`tag = ${q(d.tag.tag)}`);
    if (m === "adj") d.attrs.push(`tag = ${q(d.tag.tag)}`, `content = ${q(d.tag.content)}`);
    if (m === "un") d.attrs.push("untagged");
    const ctx = { ...(o.ctx ?? {}) };
    // requests are read from serde_json::Value, where the content comes before the tag (recorded finding)
    if (m === "int" || m === "un" || (m === "adj" && this.o.rpc)) ctx.pred = (t) => bufferable(t) && (ctx.pred0 ? ctx.pred0(t) : true);
    if (o.ctx?.pred) { const p = o.ctx.pred; const p2 = ctx.pred; ctx.pred = (t) => p(t) && (p2 ? p2(t) : true); }
    const n = o.n ?? r.r(1, 5);
    const names = r.sample(VARS, n);
    d.variants = m === "un" ? this.untaggedVariants(names, ctx, o) : names.map((name) => this.variant(d, name, ctx, o));
    // variant level skips: never the last remaining one
    if (!o.plain && d.variants.length > 1 && r.p(o.asym ? 0.45 : 0.2)) {
      const v = r.pick(d.variants);
      v.skipDe = true;
      if (o.asym && r.p(0.5)) v.attrs.push("skip_deserializing"); else v.attrs.push("skip");
      for (const f of v.fields) { f.ty = this.type(1, { noRefs: true, dflt: true }); f.attrs = []; f.skipDe = false; f.dflt = false; }
    }
    d.rule = o.rule ?? (!o.plain && m !== "un" && r.p(0.35) ? r.pick(RULES) : null);
    if (d.rule) {
      if (o.asym && r.p(0.5)) d.attrs.push(`rename_all(deserialize = "${d.rule}")`);
      else d.attrs.push(`rename_all = "${d.rule}"`);
    }
    const used = new Set();
    for (const v of d.variants) { v.wire = ruleVariant(d.rule, v.base); }
    const dup = d.variants.length !== new Set(d.variants.map((v) => v.wire)).size;
    if (dup) { d.attrs = d.attrs.filter((a) => !a.startsWith("rename_all")); for (const v of d.variants) v.wire = v.base; }
    for (const v of d.variants) used.add(v.wire);
    for (const v of d.variants) {
      if (o.plain || m === "un") continue;
      const w = r.f();
      if (w < 0.12) { const k = r.pick(STRANGE_KEYS); if (!used.has(k)) { used.add(k); v.wire = k; v.attrs.push(`rename = ${q(k)}`); } }
      else if (o.asym && w < 0.3) { const k = `De${v.base}`; if (!used.has(k)) { used.add(k); v.wire = k; v.attrs.push(`rename(deserialize = ${q(k)})`); v.renamed = true; } }
    }
    for (const v of d.variants) {
      if (v.style !== "named") continue;
      const rule = !o.plain && r.p(0.3) ? r.pick(RULES) : null;
      if (rule) v.attrs.push(`rename_all = "${rule}"`);
      this.wire(v.fields, rule, { asym: o.asym, plain: o.plain, avoid: d.tag.tag ? [d.tag.tag] : [] });
      // the tag must not collide with a field of the variant
      for (const f of v.fields) if ([f.wire, f.base, ruleField(rule, f.base)].includes(d.tag.tag)) { f.attrs = f.attrs.filter((a) => !a.startsWith("rename")); f.wire = `${f.base}_f`; f.attrs.push(`rename = ${q(f.wire)}`); }
    }
    return this.add(d);
  }
  variant(d, name, ctx, o) {
    const r = this.rng;
    const v = { name: rawIdent(name), base: name, attrs: [], fields: [], skipDe: false };
    const m = d.tag.m;
    const style = r.pick(m === "int" ? ["unit", "named", "named", "newtype"] : ["unit", "newtype", "newtype", "tuple", "named"]);
    v.style = style;
    if (style === "newtype") {
      if (m === "int") {
        const cands = (ctx.pool ?? this.decls).filter((x) => okInternal(x, d.tag.tag) && (!o.ctx?.rpc || sendable(ref(x)) && clonable(ref(x))) && (!o.ctx?.pred || o.ctx.pred(ref(x))));
        if (!cands.length) { v.style = "unit"; return v; }
        v.fields = [{ id: null, attrs: [], ty: ref(r.pick(cands)), dflt: false, skipDe: false }];
      } else {
        v.fields = [{ id: null, attrs: [], ty: this.type(2, { ...ctx, noUndef: true }), dflt: false, skipDe: false }];
        // skipping the only field gives a unit variant
        if (!o.plain && m !== "adj" && r.p(0.06)) this.skipOne(v.fields);
      }
    } else if (style === "tuple") {
      v.fields = Array.from({ length: r.r(2, 3) }, () => ({ id: null, attrs: [], ty: this.type(2, ctx), dflt: false, skipDe: false }));
      if (!o.plain && r.p(0.2)) this.skipOne(v.fields);
    } else if (style === "named") {
      v.fields = this.fields(r.r(1, 3), { ctx, asym: o.asym, plain: o.plain });
    }
    return v;
  }
  /** variants of an untagged enum with pairwise distinguishable shapes */
  untaggedVariants(names, ctx, o) {
    const r = this.rng;
    const shapes = r.shuffle(["unit", "bool", "num", "str", "arr", "tuple", "obj1", "obj2"]).slice(0, names.length);
    if (shapes.includes("arr") && shapes.includes("tuple")) shapes[shapes.indexOf("tuple")] = "obj3";
    // serde reads structs from arrays, too: array shapes come first
    const order = (s) => (s === "arr" || s === "tuple" ? 0 : 1);
    shapes.sort((a, b) => order(a) - order(b));
    return names.map((name, i) => {
      const v = { name: rawIdent(name), base: name, attrs: [], fields: [], skipDe: false, style: "newtype" };
      const nt = (ty) => { v.fields = [{ id: null, attrs: [], ty, dflt: false, skipDe: false }]; };
      switch (shapes[i]) {
        case "unit": v.style = "unit"; break;
        case "bool": nt(prim("bool")); break;
        case "num": nt(prim(r.pick(["u8", "i32", "u64", "f64", "u32"]))); break;
        case "str": nt(prim(r.pick(["string", "char", "ip"]))); break;
        case "arr": nt(vec(this.type(1, ctx))); break;
        case "tuple": v.style = "tuple"; v.fields = [0, 1].map(() => ({ id: null, attrs: [], ty: this.type(1, ctx), dflt: false, skipDe: false })); break;
        default: {
          v.style = "named";
          const key = `only_${shapes[i]}`;
          v.fields = [{ id: key, base: key, attrs: [], ty: this.type(1, { ...ctx, noUndef: true }), dflt: false, skipDe: false },
            ...this.fields(r.n(2), { ctx, plain: true })];
        }
      }
      return v;
    });
  }
  /**
   * The same shapes in every program: each way of tagging with each form of variant, alone and among others, and each form
   * of struct. What varies with the seed are names and which leaf stands where.
   */
  grid({ modes = ["ext", "int", "adj", "un"], leaf, noUnit = false } = {}) {
    const r = this.rng;
    const inner = this.add({ ...this.base("struct", { plain: true, rename: false, mod: null }), style: "named" });
    const fld = (ty, o = {}) => ({ id: null, attrs: [], dflt: false, skipDe: false, ...o, ty });
    const nm = (name, ty, o = {}) => fld(ty, { id: name, base: name, wire: name, ...o });
    const dflt = (f) => ({ ...f, dflt: true, attrs: [...f.attrs, "default"] });
    const skip = (f) => ({ ...f, skipDe: true, attrs: [...f.attrs, "skip"] });
    const u8 = prim("u8"), str = prim("string"), unit = prim("unit"), o8 = opt(u8);
    inner.fields = [nm("p", u8), nm("q", opt(str))];
    const leaves = leaf ?? [u8, str, prim("bool"), prim("f64"), unit, prim("char"), vec(str), T("phantom", { t: u8 }), ref(inner), T("bmap", { kt: str, t: u8 }), T("bset", { t: u8 }), tup(u8, str), prim("ip"), T("res", { t: u8, e: unit }), T("box", { t: str })];
    const L = () => r.pick(leaves);
    const structs = [
      ["named", [nm("a", L())]], ["named", [nm("a", o8)]], ["named", [dflt(nm("a", u8))]], ["named", []], ["named", [skip(nm("a", u8))]],
      ["named", [nm("a", o8), nm("b", opt(str))]], ["named", [nm("a", L()), nm("b", L()), nm("c", o8)]], ["named", [skip(nm("a", u8)), nm("b", unit)]],
      ["named", [nm("a", vec(o8)), nm("b", tup(o8, o8))]], ["named", [dflt(nm("a", o8)), nm("b", o8)]],
      ...leaves.map((t) => ["newtype", [fld(t)]]),
      ["tuple", []], ["tuple", [fld(L()), fld(L())]], ["tuple", [fld(o8), fld(o8)]], ["tuple", [fld(unit), fld(o8)]], ["tuple", [fld(o8), fld(u8)]],
      ["tuple", [skip(fld(u8)), fld(str)]], ["tuple", [fld(o8), skip(fld(u8))]], ["tuple", [skip(fld(u8)), fld(u8), fld(str)]], ["tuple", [skip(fld(u8)), skip(fld(u8))]],
    ].map(([style, fields]) => this.add({ ...this.base("struct", { plain: true, rename: r.p(0.1) }), style, fields }));
    const payloads = [
      ["unit", []],
      ...leaves.map((t) => ["newtype", [fld(t)]]), ["newtype", [skip(fld(u8))]],
      ["tuple", []], ["tuple", [fld(u8), fld(str)]], ["tuple", [fld(o8), fld(o8)]], ["tuple", [fld(unit), fld(o8)]], ["tuple", [fld(L()), fld(L()), fld(L())]], ["tuple", [skip(fld(u8)), fld(o8)]], ["tuple", [fld(u8), skip(fld(u8))]],
      ["named", []], ["named", [nm("a", L())]], ["named", [nm("a", o8)]], ["named", [dflt(nm("a", u8))]], ["named", [skip(nm("a", u8))]], ["named", [nm("a", o8), nm("b", L())]], ["named", [nm("a", o8), dflt(nm("b", str)), skip(nm("c", u8))]],
    ];
    const wide = (n) => Array.from({ length: n }, (_, i) => nm(`w${i}`, r.pick(leaves), {}));
    structs.push(this.add({ ...this.base("struct", { plain: true }), style: "named", fields: wide(40) }), this.add({ ...this.base("struct", { plain: true }), style: "tuple", fields: wide(18).map((f) => ({ ...f, id: null })) }));
    const out = [...structs, inner];
    const mk = (m, shapes, tagNames) => {
      const d = this.base("enum", { plain: true, rename: r.p(0.1) });
      d.tag = { m };
      if (m === "int" || m === "adj") { d.tag.tag = tagNames[0]; d.attrs.push(`tag = ${q(d.tag.tag)}`); }
      if (m === "adj") { d.tag.content = tagNames[1]; d.attrs.push(`content = ${q(d.tag.content)}`); }
      if (m === "un") d.attrs.push("untagged");
      const copy = (f) => ({ ...f, attrs: [...f.attrs] });
      d.variants = shapes.map(([style, fields], i) => ({ name: `V${i}`, base: `V${i}`, wire: `V${i}`, attrs: [], style, fields: fields.map(copy), skipDe: false }));
      out.push(this.add(d));
    };
    for (const m of modes) {
      // the payload of an internally tagged variant is an object; a unit variant of an untagged enum is null
      let ps = payloads.filter(([style, fs]) => (m === "int" ? style === "unit" || style === "named" || (style === "newtype" && (fs[0].skipDe || fs[0].ty.k === "ref")) : true));
      // recorded findings: adjacently tagged variants with a skipped payload
      if (m === "adj") ps = ps.filter(([style, fs]) => !(style === "newtype" && fs[0].skipDe));
      if (noUnit) ps = ps.filter(([style]) => style !== "unit");
      const names = () => [r.pick(["t", "kind-of", "type"]), r.pick(["c", "pay-load"])];
      for (const x of ps) mk(m, [x], names());
      if (m === "un") continue;
      mk(m, ps, names());
      mk(m, r.shuffle(ps).slice(0, 2), names());
      if (!noUnit) mk(m, Array.from({ length: 40 }, (_, i) => (i % 2 ? ["unit", []] : ["named", [nm("a", r.pick(leaves))]])), names());
    }
    if (!noUnit) this.strangeNames({ modes: modes.filter((m) => m !== "un") });
    return out;
  }
  /** every strange name as member, variant, tag and content */
  strangeNames({ modes = ["ext", "int", "adj"], few = 6, namespaces = this.namespaces } = {}) {
    const r = this.rng, u8 = prim("u8"), str = prim("string"), out = [];
    const keys = r.shuffle([...STRANGE_KEYS, ...ODD_NAMES]);
    const fld = (ty, o = {}) => ({ id: null, attrs: [], dflt: false, skipDe: false, ...o, ty });
    const nm = (id, wire, ty, o = {}) => fld(ty, { id, base: id, wire, ...o, attrs: [...(o.attrs ?? []), `rename = ${q(wire)}`] });
    const members = (ks) => ks.map((k, i) => (INHERITED.includes(k) ? nm(`f${i}`, k, u8) : i % 4 === 1 ? nm(`f${i}`, k, opt(str)) : i % 4 === 3 ? nm(`f${i}`, k, u8, { dflt: true, attrs: ["default"] }) : nm(`f${i}`, k, r.pick([u8, str]))));
    const half = keys.length >> 1;
    for (const ks of [keys.slice(0, half), keys.slice(half)]) out.push(this.add({ ...this.base("struct", { plain: true, rename: false, ns: r.pick(namespaces) }), style: "named", fields: members(ks) }));
    const mk = (m, tag, content, variants) => {
      const d = this.base("enum", { plain: true, rename: false, ns: r.pick(namespaces) });
      d.tag = { m };
      if (m !== "ext") { d.tag.tag = tag; d.attrs.push(`tag = ${q(tag)}`); }
      if (m === "adj") { d.tag.content = content; d.attrs.push(`content = ${q(content)}`); }
      d.variants = variants.map(([wire, style, fields], i) => ({ name: `V${i}`, base: `V${i}`, wire, attrs: wire === `V${i}` ? [] : [`rename = ${q(wire)}`], style, fields, skipDe: false }));
      out.push(this.add(d));
    };
    const form = (m, i, k) => [["unit", []], ["named", [nm("a", r.pick(["a", "a-b", "a²"]), u8)]], m === "int" ? ["named", []] : ["newtype", [fld(u8)]]][i % 3];
    for (const m of modes) {
      mk(m, "t", "c", keys.map((k, i) => [k, ...form(m, i, k)]));
      mk(m, "t", "c", [[r.pick(keys), ...form(m, 1)]]);
      if (m === "ext") continue;
      for (const k of new Set(["qu\"ote", "a\\", "nl\nx", ...r.sample(keys, few)])) mk(m, k, r.pick(keys.filter((x) => x !== k)), [["V0", "unit", []], ["V1", "named", [nm("b", "own", u8)]], ...(m === "adj" ? [["V2", "newtype", [fld(str)]]] : [])]);
    }
    return out;
  }
  /** struct variants with flattened members: on the wire the same as if the members were their own */
  flattening() {
    const r = this.rng;
    const fit = this.decls.filter((d) => d.kind === "struct" && d.style === "named" && !d.transparent && !d.from && !d.asym && !d.noRoot && !d.noDe && bufferable(ref(d)));
    if (!fit.length) return;
    for (const m of ["ext", "int", "int", "adj", "un"]) {
      const d = this.base("enum", { plain: true, rename: r.p(0.1) });
      d.tag = { m };
      if (m === "int" || m === "adj") { d.tag.tag = r.pick(["t", "kind-of"]); d.attrs.push(`tag = ${q(d.tag.tag)}`); }
      if (m === "adj") { d.tag.content = "c"; d.attrs.push('content = "c"'); }
      if (m === "un") d.attrs.push("untagged");
      const own = (name, ty) => ({ id: name, base: name, wire: name, attrs: [], ty, dflt: false, skipDe: false });
      const leaf = () => prim(r.pick(["u8", "string", "bool"]));
      d.variants = ["A", "B", "C"].slice(0, m === "un" ? 1 : r.r(1, 3)).map((name, i) => {
        const v = { name, base: name, wire: name, attrs: [], skipDe: false, style: "named", fields: [] };
        if (i === 1 && r.p(0.7)) { if (r.p(0.5)) v.style = "unit"; else v.fields = [own("x", leaf())]; return v; }
        const used = new Set([d.tag.tag, "own", "more"]);
        const parts = [];
        for (const x of r.sample(fit, Math.min(fit.length, 5))) {
          if (parts.length === 1 + r.n(2) || x.fields.some((f) => used.has(f.wire) || f.wire === "__proto__")) continue;
          for (const f of x.fields) used.add(f.wire);
          parts.push(x);
        }
        parts.forEach((x, k) => {
          const ty = r.p(0.25) ? T("box", { t: ref(x) }) : ref(x);
          v.fields.push(...x.fields.map((f, j) => ({ ...f, id: `part${k}`, attrs: [], hidden: j > 0, flat: rust(ty) })));
          // a struct without members
          if (!x.fields.length) v.fields.push({ ...own(`part${k}`, prim("unit")), skipDe: true, flat: rust(ty) });
        });
        if (r.p(0.7)) v.fields.unshift(own("own", leaf()));
        if (r.p(0.4)) v.fields.push(own("more", opt(leaf())));
        return v;
      });
      this.add(d);
    }
  }
  /** attributes for one direction on a declaration of the grid */
  oneSided(d) {
    const r = this.rng;
    d.asym = true;
    if (r.p(0.3)) {
      if (r.p(0.5)) { d.exp = `De${d.name}`; d.attrs = d.attrs.filter((a) => !a.startsWith("rename")); d.attrs.push(r.p(0.5) ? `rename(deserialize = ${q(d.exp)})` : `rename(serialize = "Ser${d.name}", deserialize = ${q(d.exp)})`); }
      else { d.exp = d.name; d.attrs = d.attrs.filter((a) => !a.startsWith("rename")); d.attrs.push(`rename(serialize = "Ser${d.name}")`); }
    }
    const fields = (fs, named, rule) => {
      for (const f of fs) {
        if (f.skipDe && r.p(0.6)) { f.attrs = f.attrs.map((a) => (a === "skip" ? "skip_deserializing" : a)); f.serOnly = true; }
        else if (!f.skipDe && r.p(0.3)) { f.attrs.push("skip_serializing"); f.deOnly = true; }
        if (named && f.ty.k === "opt" && r.p(0.4)) f.attrs.push('skip_serializing_if = "Option::is_none"');
        else if (!f.attrs.some((a) => /^skip/.test(a)) && r.p(0.15)) f.attrs.push('skip_serializing_if = "crate::never"');
        if (!f.attrs.some((a) => /^(skip|with|flatten)/.test(a)) && r.p(0.1)) f.attrs.push('serialize_with = "crate::ser_debug"');
        if (named && !f.skipDe && r.p(0.2)) { f.attrs.push(`alias = "alias_${f.base}"`); f.alias = true; }
      }
      if (named) this.wire(fs, rule, { asym: true, avoid: d.tag?.tag ? [d.tag.tag] : [] });
    };
    if (!d.transparent && !d.from && clonable(ref(d)) && r.p(0.15)) { d.attrs.push('into = "String"'); d.intoOnly = "String"; }
    if (d.kind === "struct") { fields(d.fields, d.style === "named", null); return; }
    for (const v of d.variants) {
      const w = r.f();
      if (w < 0.15) { v.wire = `De${v.base}`; v.attrs.push(`rename(deserialize = ${q(v.wire)})`); v.renamed = true; }
      else if (w < 0.3) { v.wire = `De${v.base}`; v.attrs.push(`rename(serialize = "Ser${v.base}", deserialize = ${q(v.wire)})`); v.renamed = true; }
      else if (w < 0.4) v.attrs.push(`rename(serialize = "Ser${v.base}")`);
      if (r.p(0.15)) v.attrs.push("skip_serializing");
      fields(v.fields, v.style === "named", null);
    }
  }
  /** a declaration of any kind */
  any(o = {}) {
    const r = this.rng;
    const w = r.f();
    if (w < 0.5) return this.struct(o);
    if (w < 0.58) return this.fromStruct(o);
    if (w < 0.62) return this.fromStruct({ ...o, kind: "enum" });
    return this.enum(o);
  }

  // ------------------------------------------------------------ recursion
  /** n declarations that refer to each other in any direction; the first half can be hashed */
  recursive(n, o = {}) {
    const r = this.rng;
    const hashy = (i) => i < n / 2;
    const stubs = Array.from({ length: n }, (_, i) => {
      const kind = r.p(0.55) ? "struct" : "enum";
      const d = this.base(kind, { ...o, plain: r.p(0.7) });
      d.recursive = true;
      d.index = i;
      d.style = kind === "struct" ? r.pick(["named", "named", "named", "newtype", "tuple"]) : undefined;
      if (kind === "enum") d.tag = { m: r.pick(["ext", "ext", "int", "adj", "un"]) };
      return this.add(d);
    });
    const target = (i) => r.pick(hashy(i) ? stubs.filter((d) => hashy(d.index)) : stubs);
    const leafs = (i) => prim(r.pick(hashy(i) ? ["u8", "string", "bool", "char", "i64", "unit", "ipv4"] : ["u8", "string", "f64", "bool", "i32", "char", "unit"]));
    const rty = (i, noUndef, depth = 2) => {
      const R = () => ref(target(i));
      const sub = () => (depth > 0 && r.p(0.5) ? rty(i, false, depth - 1) : T("box", { t: R() }));
      const w = r.n(hashy(i) ? 16 : 20);
      switch (w) {
        case 0: case 1: return T("box", { t: R() });
        case 2: case 3: return vec(R());
        case 4: return noUndef ? vec(opt(R())) : opt(T("box", { t: R() }));
        case 5: return noUndef ? T("arc", { t: R() }) : opt(T("arc", { t: R() }));
        case 6: return T("rc", { t: vec(R()) });
        case 7: return T("bmap", { kt: prim("string"), t: sub() });
        case 8: return tup(sub(), leafs(i));
        case 9: return tup(leafs(i), opt(sub()));
        case 10: return T("res", { t: T("box", { t: R() }), e: prim("string") });
        case 11: return T("res", { t: leafs(i), e: vec(R()) });
        case 12: return T("arr", { t: noUndef ? vec(R()) : opt(T("box", { t: R() })), n: r.pick([1, 2]) });
        case 13: { const hs = stubs.filter((d) => hashy(d.index)); return hs.length ? T("bset", { t: r.p(0.5) ? ref(r.pick(hs)) : T("box", { t: ref(r.pick(hs)) }) }) : vec(R()); }
        case 14: return T("phantom", { t: R() });
        case 15: return vec(tup(leafs(i), R()));
        case 16: return T("refcell", { t: vec(R()) });
        case 17: return T("hmap", { kt: prim("string"), t: R() });
        case 18: { const hs = stubs.filter((d) => hashy(d.index)); return hs.length ? T("hset", { t: ref(r.pick(hs)) }) : vec(R()); }
        default: return T("hmap", { kt: prim("char"), t: opt(R()) });
      }
    };
    const pos = (i, noUndef) => ({ id: null, attrs: [], ty: r.p(0.7) ? rty(i, noUndef) : leafs(i), dflt: false, skipDe: false });
    const named = (i, names) => names.map((nm) => ({ ...pos(i, false), id: nm, base: nm, wire: nm }));
    for (const d of stubs) {
      const i = d.index;
      if (d.kind === "struct") {
        if (r.p(0.12)) { // conversion
          d.from = rty(i, true); d.fromTry = r.p(0.5); d.into = true; d.style = "newtype";
          d.fields = [{ ...pos(i, true), ty: d.from }];
        } else if (d.style === "named") {
          d.fields = named(i, r.sample(["a", "b", "next", "children", "left", "right"], r.r(1, 3)));
          for (const f of d.fields) if (r.p(0.1) && ["opt", "vec", "bmap", "hmap", "bset", "hset"].includes(f.ty.k)) { f.dflt = true; f.attrs.push("default"); }
        } else {
          d.fields = d.style === "newtype" ? [{ ...pos(i, true), ty: rty(i, true) }] : [pos(i, false), pos(i, false)];
          if (d.style === "newtype" && r.p(0.3)) { d.transparent = true; d.attrs.push("transparent"); if (d.fields[0].ty.k === "phantom") d.fields[0].ty = vec(ref(target(i))); }
        }
        continue;
      }
      const m = d.tag.m;
      if (m === "int" || m === "adj") { d.tag.tag = "kind-of"; d.attrs.push('tag = "kind-of"'); }
      if (m === "adj") { d.tag.content = "c"; d.attrs.push('content = "c"'); }
      if (m === "un") d.attrs.push("untagged");
      const names = r.sample(["Leaf", "Node", "Pair", "Many", "Ref"], r.r(1, 4));
      const v = (name, style, fields) => ({ name, base: name, wire: name, attrs: [], style, fields, skipDe: false });
      if (m === "un") {
        const shapes = r.sample(["unit", "num", "list", "obj"], names.length);
        const order = (s) => (s === "list" ? 0 : 1);
        shapes.sort((a, b) => order(a) - order(b));
        d.variants = shapes.map((s, k) => s === "unit" ? v(names[k], "unit", []) : s === "num" ? v(names[k], "newtype", [{ ...pos(i, true), ty: prim("u32") }])
          : s === "list" ? v(names[k], "newtype", [{ ...pos(i, true), ty: vec(r.p(0.5) ? ref(target(i)) : tup(leafs(i), ref(target(i)))) }])
            : v(names[k], "named", [{ ...pos(i, true), id: "only", base: "only", wire: "only", ty: rty(i, true) }]));
      } else {
        d.variants = names.map((nm) => {
          const style = r.pick(m === "int" ? ["unit", "named", "named", "newtype"] : ["unit", "newtype", "newtype", "tuple", "named"]);
          if (style === "unit") return v(nm, style, []);
          if (style === "named") return v(nm, style, named(i, r.sample(["a", "b", "next", "children"], r.r(1, 2))));
          if (style === "tuple") return v(nm, style, [pos(i, false), pos(i, false)]);
          if (m !== "int") return v(nm, style, [{ ...pos(i, true), ty: rty(i, true) }]);
          const ts = stubs.filter((x) => x.kind === "struct" && x.style === "named" && !x.from && (!hashy(i) || hashy(x.index)));
          return ts.length ? v(nm, style, [{ ...pos(i, true), ty: T("box", { t: ref(r.pick(ts)) }) }]) : v(nm, "unit", []);
        });
      }
    }
    // struct styles may have changed to conversions: an internally tagged payload has to stay an object
    for (const d of stubs) for (const x of d.variants ?? []) if (d.tag.m === "int" && x.style === "newtype") { const t = x.fields[0].ty.t.d; if (t.from || t.style !== "named") { x.style = "unit"; x.fields = []; } }
    // every declaration needs finite values
    for (;;) {
      computeDepths(this.decls);
      const bad = stubs.filter((d) => !Number.isFinite(d.minDepth));
      if (!bad.length) break;
      const d = r.pick(bad);
      if (d.kind === "enum") {
        const leaf = { name: "End", base: "End", wire: "End", attrs: [], style: "unit", fields: [], skipDe: false };
        d.variants.push(leaf);
        if (d.tag.m === "un" && d.variants.some((x) => x !== leaf && x.style === "unit")) d.variants.pop();
      } else if (d.from || d.style === "newtype") { d.fields[0].ty = vec(d.fields[0].ty); if (d.from) d.from = d.fields[0].ty; }
      else for (const f of d.fields) if (!Number.isFinite(typeDepth(f.ty))) f.ty = opt(T("box", { t: f.ty }));
    }
    for (const d of stubs) delete d.index;
    return stubs;
  }

  /** declarations that refer to themselves, one for every pair of nested positions in which they can */
  loops(share = 1, o = {}) {
    const r = this.rng;
    const str = () => prim("string"), u8 = () => prim("u8");
    const wrap = (k) => (x) => T(k, { t: x });
    const around = {
      opt: (x) => (undefable(x) ? null : opt(x)), vec, arr: (x) => T("arr", { t: x, n: 2 }), box: wrap("box"), rc: wrap("rc"), arc: wrap("arc"), refcell: wrap("refcell"), mutex: wrap("mutex"), cow: wrap("cow"),
      hmap: (x) => T("hmap", { kt: str(), t: x }), bmap: (x) => T("bmap", { kt: str(), t: x }), bset: wrap("bset"), single: (x) => tup(x), first: (x) => tup(x, u8()), second: (x) => tup(u8(), x), last: (x) => tup(u8(), str(), u8(), x),
      ok: (x) => (undefable(x) ? null : T("res", { t: x, e: str() })), err: (x) => (undefable(x) ? null : T("res", { t: u8(), e: x })),
    };
    const HEAP = ["vec", "box", "rc", "arc", "hmap", "bmap", "bset"];
    const names = Object.keys(around), pairs = [];
    for (const a of names) { if (HEAP.includes(a)) pairs.push([a]); for (const b of names) if (HEAP.includes(a) || HEAP.includes(b)) pairs.push([a, b]); }
    const out = [];
    for (const pair of pairs) {
      if (!r.p(share)) continue;
      const name = this.fresh("Loop");
      const d = { name, exp: name, ns: o.ns ?? r.pick(this.namespaces), mod: null, attrs: [], docs: [], tags: new Set(), recursive: true, loop: pair.join(" of ") };
      const self = { ...ref(d) };
      const ty = () => { let t = self; for (const k of [...pair].reverse()) { t = around[k](t); if (!t) return null; } return t; };
      // whatever the form, it must be possible to ask about the type while it is built
      Object.assign(d, { kind: "struct", style: "named", fields: [] });
      if (!ty()) continue;
      const f = (id) => ({ id, base: id ?? "", wire: id ?? "", attrs: [], ty: ty(), dflt: false, skipDe: false });
      const leafy = pair.some((k) => ["opt", "vec", "hmap", "bmap", "bset", "ok", "err"].includes(k)), maybe = undefable(ty());
      const w = r.pick(leafy ? ["named", "named", "newtype", "tuple", "variant", "variant"] : ["variant"]);
      if (w === "named") d.fields = r.p(0.5) ? [f("next")] : [f("left"), { ...f("name"), ty: u8() }, f("right")];
      else if (w === "newtype" && !maybe) Object.assign(d, { style: "newtype", fields: [f(null)] });
      else if (w === "tuple") Object.assign(d, { style: "tuple", fields: r.p(0.5) ? [{ ...f(null), ty: u8() }, f(null)] : [f(null), { ...f(null), ty: u8() }] });
      else if (w === "newtype") d.fields = [f("inner")];
      else {
        const m = r.pick(["ext", "ext", "adj", "int"]);
        const style = r.pick(m === "int" ? ["named"] : maybe ? ["named", "tuple"] : ["named", "tuple", "newtype"]);
        Object.assign(d, { kind: "enum", style: undefined, fields: undefined, tag: { m } });
        if (m !== "ext") { d.tag.tag = "type"; d.attrs.push('tag = "type"'); }
        if (m === "adj") { d.tag.content = "c"; d.attrs.push('content = "c"'); }
        const v = (nm, style, fields) => ({ name: nm, base: nm, wire: nm, attrs: [], style, fields, skipDe: false });
        d.variants = [v("Leaf", "unit", []), v("Node", style, style === "named" ? [f("next"), { ...f("n"), ty: u8() }] : style === "tuple" ? [f(null), f(null)] : [f(null)])];
      }
      const has = (k) => reach(self, (x) => x.k === k);
      if ((has("cow") && !clonable(self)) || (has("bset") && !hashable(self))) continue;
      out.push(this.add(d));
    }
    // an enum and the struct behind its variants refer to each other
    for (const m of ["ext", "adj", "int"]) for (const k of ["box", "rc", "arc"]) {
      if (!r.p(share)) continue;
      const e = this.fresh("Ring"), c = this.fresh("Ring");
      const d = { name: e, exp: e, ns: o.ns ?? r.pick(this.namespaces), mod: null, attrs: [], docs: [], tags: new Set(), recursive: true, loop: `${m} of ${k}`, kind: "enum", tag: { m } };
      const h = { name: c, exp: c, ns: o.ns ?? r.pick(this.namespaces), mod: null, attrs: [], docs: [], tags: new Set(), recursive: true, loop: `${m} of ${k}`, kind: "struct", style: "named" };
      if (m !== "ext") { d.tag.tag = "type"; d.attrs.push('tag = "type"'); }
      if (m === "adj") { d.tag.content = "c"; d.attrs.push('content = "c"'); }
      const f = (id, ty) => ({ id, base: id ?? "", wire: id ?? "", attrs: [], ty, dflt: false, skipDe: false });
      const v = (nm, style, fields) => ({ name: nm, base: nm, wire: nm, attrs: [], style, fields, skipDe: false });
      h.fields = r.shuffle([f("next", ref(d)), f("n", u8())]);
      d.variants = r.shuffle([v("Leaf", "unit", []), v("Some", "newtype", [f(null, T(k, { t: ref(h) }))]), v("More", "newtype", [f(null, T(k, { t: ref(h) }))])]);
      out.push(this.add(d), this.add(h));
    }
    computeDepths(this.decls);
    for (const d of out) if (!Number.isFinite(d.minDepth)) throw new Error(`no finite value of ${d.loop}`);
    return out;
  }

  // ------------------------------------------------------------ RPC
  method(ns, o = {}) {
    const r = this.rng;
    const used = new Set(o.used ?? []);
    const n = o.n ?? r.pick([0, 1, 1, 2, 2, 3, 4]);
    const names = ["value", "n", "name", "z", "request", "subscribe", "arguments", "function", "delete", "new", "type", "x_y", "eval", "id", "args", "class", "this", "export", "z_", "data", "default", "undefined_", "res", "string", "number"];
    const args = [];
    // names of namespaces, which the schemas of the arguments refer to
    const idents = this.namespaces.map((x) => x.name.replace(/^r#/, "")), hiding = this.namespaces.map((x) => x.exported).filter((x) => /^[A-Za-z]\w+$/.test(x) && !idents.includes(x));
    names.push(...hiding, ...hiding, ...hiding);
    for (let i = 0; i < n; i++) {
      let nm = r.pick(names);
      while (used.has(nm)) nm = `${r.pick(names)}${i}${r.n(10)}`;
      used.add(nm);
      args.push({ name: nm, id: rawIdent(nm), ty: this.type(2, { rpc: true, ...(o.ctx ?? {}) }) });
    }
    const kind = o.kind ?? (r.p(0.25) ? "stream" : "method");
    const m = { ns, name: o.name ?? `${kind === "method" ? "m" : "s"}${this.counter++}_${r.pick(["get", "setValue", "do_it", "List"])}`, args, kind };
    if (o.mname) m.name = o.mname;
    m.id = rawIdent(m.name);
    if (kind === "method") {
      const w = r.n(6);
      if (w === 0 || n === 0) m.ret = { how: w % 2 ? "unit" : "none", ty: prim("unit") };
      else if (w === 1) m.ret = { how: "echo", i: r.n(n), ty: null };
      else if (w === 2) m.ret = { how: "ok", i: r.n(n) };
      else if (w === 3) { m.ret = { how: "err", i: r.n(n) }; m.ret.ty = T("res", { t: prim("unit"), e: args[m.ret.i].ty }); }
      else m.ret = { how: "all" };
      if (m.ret.how === "echo") m.ret.ty = args[m.ret.i].ty;
      if (m.ret.how === "ok") m.ret.ty = T("res", { t: args[m.ret.i].ty, e: prim("string") });
      if (m.ret.how === "all") m.ret.ty = tup(...args.map((a) => a.ty));
    } else {
      if (!args.length && (o.n === 0 || r.p(0.5))) {
        m.ret = { how: "fixed", ty: prim("u8") };
        m.boxed = r.p(0.4);
        ns.methods.push(m);
        return m;
      }
      if (o.n === undefined && (!args.length || r.p(0.7))) {
        let nm = "items"; while (used.has(nm)) nm += "_";
        args.unshift({ name: nm, id: nm, ty: vec(this.type(1, { rpc: true, ...(o.ctx ?? {}) })) });
      }
      const i = args.findIndex((a) => a.ty.k === "vec");
      m.ret = i >= 0 ? { how: "items", i, ty: args[i].ty.t } : { how: "thrice", i: 0, ty: args[0].ty };
      m.boxed = r.p(0.4);
    }
    ns.methods.push(m);
    return m;
  }
}

/** may this declaration be the payload of an internally tagged variant with the given tag */
export function okInternal(d, tag) {
  if (d.from || d.transparent || d.asym || !bufferable(ref(d))) return false;
  if (d.kind === "struct") return d.style === "named" && d.fields.every((f) => f.wire !== tag);
  return d.tag.m === "int" && d.tag.tag !== tag && d.variants.every((v) => v.fields.every((f) => f.wire !== tag) && (v.style !== "newtype" || v.fields.every((f) => f.ty.k === "ref" && okInternal(f.ty.d, tag))));
}

// ---------------------------------------------------------------- Rust source
/** the same attributes in one list or in several, with other attributes between them */
function attrLine(attrs) {
  const h = [...attrs.join()].reduce((n, c) => (n * 31 + c.charCodeAt(0)) % 1009, 7);
  if (attrs.length > 1 && h % 3 === 0) return attrs.map((a, i) => `${i ? "#[allow(unused)] " : ""}#[serde(${a})] `).join("");
  return attrs.length ? `${h % 5 === 0 ? "#[allow(unused)] " : ""}#[serde(${attrs.join(", ")})] ` : "";
}
export function docLines(docs) {
  return docs.map((d) => (d.form === "attr" ? `#[doc = ${rustStr(d.text)}]` : d.form === "raw" ? `#[doc = r###"${d.text}"###]` : d.form === "other" ? `#[${d.text}]` : d.form === "block" ? `/** ${d.text} */` : `/// ${d.text}`)).join("\n");
}
export function rustStr(s) {
  return `"${[...s].map((c) => (c === "\\" || c === '"' ? `\\${c}` : c === "\n" ? "\\n" : c === "\r" ? "\\r" : c < " " || c === "\u007f" ? `\\u{${c.codePointAt(0).toString(16)}}` : c)).join("")}"`;
}
function emitFields(fs, named, vis) {
  return fs.filter((f) => !f.hidden).map((f) => f.flat ? `#[serde(flatten)] ${vis}${f.id}: ${f.flat}` : `${f.doc ?? ""}${attrLine(f.attrs)}${vis}${named ? `${f.id}: ` : ""}${rust(f.ty)}`).join(", ");
}
export function emitDecl(d, o = {}) {
  const self = ref(d);
  const derives = d.noDebug ? ["zod::Zod"] : ["Debug", "zod::Zod"];
  if (!d.noSer) derives.push("serde::Serialize");
  if (!d.noDe) derives.push("serde::Deserialize");
  if (clonable(self)) derives.push("Clone");
  if (hashable(self)) derives.push("PartialEq", "Eq", "Hash", "PartialOrd", "Ord");
  if (d.deriveDefault) derives.push("Default");
  const attrs = [...d.attrs];
  const src = d.from ? rust(d.from) : null;
  if (d.from) { attrs.push(d.fromTry ? `try_from = ${rustStr(src)}` : `from = ${rustStr(src)}`); if (d.into) attrs.push(`into = ${rustStr(src)}`); }
  let body;
  if (d.kind === "struct") {
    if (d.style === "named") body = `pub struct ${d.name} { ${emitFields(d.fields, true, "pub ")} }`;
    else body = `pub struct ${d.name}(${emitFields(d.fields, false, "pub ")});`;
  } else {
    body = `pub enum ${d.name} { ${d.variants.map((v) => `${v.doc ?? ""}${attrLine(v.attrs)}${v.name}${v.style === "unit" ? "" : v.style === "named" ? ` { ${emitFields(v.fields, true, "")} }` : `(${emitFields(v.fields, false, "")})`}`).join(", ")} }`;
  }
  let out = `${docLines(d.docs)}\n#[derive(${derives.join(", ")})]\n#[zod(namespace = "${d.ns.path ?? (d.mod ? "crate::" : "") + d.ns.name}")]\n${docLines(d.trailingDocs ?? [])}\n${attrs.length ? `${attrLine(attrs)}\n` : ""}${body}\n`;
  if (d.intoOnly) out += `impl From<${d.name}> for ${d.intoOnly} { fn from(_: ${d.name}) -> Self { Default::default() } }\n`;
  if (d.from) {
    const mk = d.kind === "struct" ? `${d.name}(x)` : `${d.name}::V(x)`;
    out += d.fromTry
      ? `impl std::convert::TryFrom<${src}> for ${d.name} { type Error = String; fn try_from(x: ${src}) -> Result<Self, String> { Ok(${mk}) } }\n`
      : `impl From<${src}> for ${d.name} { fn from(x: ${src}) -> Self { ${mk} } }\n`;
    if (d.into) out += `impl From<${d.name}> for ${src} { fn from(x: ${d.name}) -> Self { ${d.kind === "struct" ? "x.0" : `match x { ${d.name}::V(x) => x }`} } }\n`;
  }
  return out;
}

export function emitMethod(m) {
  const params = m.args.map((a) => `${a.id}: ${rust(a.ty)}`).join(", ");
  const log = `crate::record(${rustStr(m.ns.exported)}, ${rustStr(m.name)}, vec![${m.args.map((a) => `serde_json::to_string(&${a.id}).unwrap()`).join(", ")}]);`;
  if (m.kind === "method") {
    const ret = m.ret.how === "none" ? "" : ` -> ${rust(m.ret.ty)}`;
    const val = { none: "", unit: "()", echo: () => m.args[m.ret.i].id, ok: () => `Ok(${m.args[m.ret.i].id})`, err: () => `Err(${m.args[m.ret.i].id})`, all: () => `(${m.args.map((a) => a.id).join(", ")},)` }[m.ret.how];
    return `${docLines(m.docs ?? [])}\npub async fn ${m.id}(&mut self${params ? `, ${params}` : ""})${ret} { ${log} ${typeof val === "function" ? val() : val} }\n`;
  }
  const a = m.args[m.ret.i]?.id;
  const items = m.ret.how === "fixed" ? "vec![1u8, 2, 3]" : m.ret.how === "items" ? a : `vec![${a}.clone(), ${a}.clone(), ${a}]`;
  if (m.boxed) return `${docLines(m.docs ?? [])}\npub fn ${m.id}(&mut self${params ? `, ${params}` : ""}) -> std::pin::Pin<Box<dyn futures::Stream<Item = ${rust(m.ret.ty)}> + Send>> { ${log} Box::pin(futures::stream::iter(${items})) }\n`;
  return `${docLines(m.docs ?? [])}\npub fn ${m.id}(&mut self${params ? `, ${params}` : ""}) -> impl futures::Stream<Item = ${rust(m.ret.ty)}> { ${log} futures::stream::iter(${items}) }\n`;
}

/** a namespace type may live in a module or in another crate (path) */
const nsType = (ns) => ns.path ?? ns.name;
export function emitNamespace(ns) {
  if (ns.external) return "";
  const s = nsSource(ns);
  if (!ns.path) return s;
  return `pub mod ${ns.path.split("::")[1]} { ${s} }\n`;
}
function nsSource(ns) {
  return `${docLines(ns.docs ?? [])}\n#[derive(zod::Namespace)]\n${ns.exported !== ns.name.replace(/^r#/, "") ? `#[namespace(name = ${rustStr(ns.exported)})]\n` : ""}pub struct ${ns.name}${ns.unit === false ? " { pub counter: usize }" : ";"}\n`;
}

/** the whole program; roots: extra type expressions to test */
export function emitProgram(g, { roots = [], backend, backends = [], order, extraSource = "" } = {}) {
  const mods = new Map();
  const decls = order ?? g.decls;
  for (const d of decls) { const k = d.mod ?? ""; if (!mods.has(k)) mods.set(k, []); mods.get(k).push(emitDecl(d)); }
  const nss = backend ?? g.namespaces;
  let s = `#![recursion_limit = "512"]\n#![allow(dead_code, unused, non_snake_case, non_camel_case_types)]\n#[path = "../support.rs"] mod support;\npub use support::*;\n`;
  for (const ns of g.namespaces) s += emitNamespace(ns);
  s += extraSource;
  for (const [m, ds] of mods) s += m ? `pub mod ${m} {\n${ds.join("\n")}\n}\n` : ds.join("\n");
  const all = [...new Set([...nss, ...backends.flatMap((b) => b.namespaces)])];
  for (const ns of all) {
    if (!ns.noRpc && !ns.external) {
      const impl = `#[zod::rpc::namespace]\nimpl ${ns.name} {\n${ns.methods.map(emitMethod).join("")}}\n`;
      // the attribute takes nothing but an identifier
      s += ns.path ? `mod ${ns.path.split("::")[1]}_methods { use super::*; use ${ns.path};\n${impl} }\n` : impl;
    }
  }
  s += `#[derive(zod::rpc::Backend)]\npub struct Server(${nss.filter((n) => !n.noRpc).map((n) => `pub ${nsType(n)}`).join(", ")});\n`;
  for (const b of backends) s += `#[derive(zod::rpc::Backend)]\npub struct ${b.name}${b.named ? ` { ${b.namespaces.map((n, i) => `field_${i}: ${nsType(n)}`).join(", ")} }` : `(${b.namespaces.map(nsType).join(", ")});`}\n`;
  s += `pub fn server() -> Server { Server(${nss.filter((n) => !n.noRpc).map((n) => (n.unit === false ? `${nsType(n)} { counter: 0 }` : nsType(n))).join(", ")}) }\n`;
  s += `fn main() {\n    let mut h = Host::new();\n`;
  for (const r of roots) s += r.serdeless ? `    h.schema_only::<${r.rust}>();\n` : `    h.root::<${r.rust}>();\n`;
  for (const ns of g.namespaces) s += `    h.ns::<${nsType(ns)}>();\n`;
  for (const ns of all.filter((n) => !n.noRpc)) s += `    h.rpc_ns::<${nsType(ns)}>();\n`;
  for (const b of backends) s += `    h.backend::<${b.name}>("${b.name}");\n`;
  s += `    h.run::<Server>(server);\n}\n`;
  return s;
}
