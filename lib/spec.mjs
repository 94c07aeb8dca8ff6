// The specification side: descriptions of Rust types, their values in the documented JavaScript representation and
// their JSON form according to serde's data model. Nothing in here reads text that zod generates.

export const INTS = {
  u8: [0, 255], u16: [0, 65535], u32: [0, 4294967295], u64: [0, 2 ** 53], usize: [0, 2 ** 53], u128: [0, 2 ** 53],
  i8: [-128, 127], i16: [-32768, 32767], i32: [-2147483648, 2147483647], i64: [-(2 ** 53), 2 ** 53],
  isize: [-(2 ** 53), 2 ** 53], i128: [-(2 ** 53), 2 ** 53],
};
export const T = (k, o = {}) => ({ k, ...o });
export const prim = (k) => T(k);
export const vec = (t) => T("vec", { t });
export const opt = (t) => T("opt", { t });
export const tup = (...ts) => T("tup", { ts });
export const ref = (d) => T("ref", { d });

const WRAP = { box: "Box", arc: "std::sync::Arc", rc: "std::rc::Rc", refcell: "std::cell::RefCell", mutex: "std::sync::Mutex", cell: "std::cell::Cell", cow: "std::borrow::Cow" };

/** Rust syntax of a type */
export function rust(t) {
  switch (t.k) {
    case "unit": return "()";
    case "string": return "String";
    case "ipv4": return "std::net::Ipv4Addr";
    case "ipv6": return "std::net::Ipv6Addr";
    case "ip": return "std::net::IpAddr";
    case "smol": return "smol_str::SmolStr";
    case "nn32": return "ordered_float::NotNan<f32>";
    case "nn64": return "ordered_float::NotNan<f64>";
    case "vec": return `Vec<${rust(t.t)}>`;
    case "arr": return `[${rust(t.t)}; ${t.n}]`;
    case "hset": return `std::collections::HashSet<${rust(t.t)}>`;
    case "bset": return `std::collections::BTreeSet<${rust(t.t)}>`;
    case "hmap": return `std::collections::HashMap<${rust(t.kt)}, ${rust(t.t)}>`;
    case "bmap": return `std::collections::BTreeMap<${rust(t.kt)}, ${rust(t.t)}>`;
    case "opt": return `Option<${rust(t.t)}>`;
    case "res": return `Result<${rust(t.t)}, ${rust(t.e)}>`;
    case "tup": return `(${t.ts.map(rust).join(", ")}${t.ts.length === 1 ? "," : ""})`;
    case "phantom": return `std::marker::PhantomData<${rust(t.t)}>`;
    case "cow": return `std::borrow::Cow<'static, ${rust(t.t)}>`;
    case "ref": return t.d.bare ? t.d.name : t.d.mod ? `crate::${t.d.mod}::${t.d.name}` : `crate::${t.d.name}`;
  }
  if (WRAP[t.k]) return `${WRAP[t.k]}<${rust(t.t)}>`;
  return t.k;
}

export const isWrap = (k) => k in WRAP;
export const isInt = (k) => k in INTS;
export const isFloat = (k) => k === "f32" || k === "f64" || k === "nn32" || k === "nn64";

export function children(t) {
  switch (t.k) {
    case "hmap": case "bmap": return [t.kt, t.t];
    case "res": return [t.t, t.e];
    case "tup": return t.ts;
    default: return t.t ? [t.t] : [];
  }
}
export function declFields(d) {
  return d.kind === "struct" ? d.fields : d.variants.flatMap((v) => v.fields);
}
/** does pred hold for this type or any type reachable from it */
export function reach(t, pred, seen = new Set()) {
  if (pred(t)) return true;
  if (t.k === "ref") {
    if (seen.has(t.d)) return false;
    seen.add(t.d);
    const ts = declFields(t.d).map((f) => f.ty);
    if (t.d.from) ts.push(t.d.from);
    return ts.some((x) => reach(x, pred, seen));
  }
  return children(t).some((x) => reach(x, pred, seen));
}
const NOT_HASH = new Set(["f32", "f64", "hset", "hmap", "cell", "refcell", "mutex"]);
export const hashable = (t) => !reach(t, (x) => NOT_HASH.has(x.k));
export const clonable = (t) => !reach(t, (x) => x.k === "mutex");
export const sendable = (t) => !reach(t, (x) => ["rc", "cell", "refcell", "mutex"].includes(x.k));
export const symmetric = (t) => !reach(t, (x) => x.k === "ref" && x.d.asym);
/** integer keys and 128 bit integers do not survive serde's buffering of tagged content */
export const bufferable = (t) => !reach(t, (x) => x.k === "u128" || x.k === "i128" || ((x.k === "hmap" || x.k === "bmap") && isInt(x.kt.k)));
/** may the JavaScript value be undefined */
export function undefable(t) {
  if (t.k === "opt") return true;
  if (isWrap(t.k)) return undefable(t.t);
  if (t.k === "ref") {
    const d = t.d;
    if (d.from) return undefable(d.from);
    if (d.kind === "struct" && (d.style === "newtype" || d.transparent)) return liveFields(d.fields).some((f) => undefable(f.ty));
    if (d.kind === "enum" && d.tag.m === "un") return d.variants.some((v) => v.style === "newtype" && v.fields.some((f) => undefable(f.ty)));
  }
  return false;
}
export function defaultable(t) {
  if (isInt(t.k) || ["f32", "f64", "bool", "char", "string", "unit", "vec", "hset", "bset", "hmap", "bmap", "opt", "phantom", "smol"].includes(t.k)) return true;
  if (t.k === "arr") return t.n <= 32 && defaultable(t.t);
  if (t.k === "tup") return t.ts.length <= 12 && t.ts.every(defaultable);
  if (t.k === "cow") return defaultable(t.t);
  if (isWrap(t.k)) return defaultable(t.t);
  if (t.k === "ref") return !!t.d.deriveDefault;
  return false;
}

/** fields that take part in deserialisation */
export const liveFields = (fs) => fs.filter((f) => !f.skipDe && !f.phantomOfTransparent);
export const liveVariants = (d) => d.variants.filter((v) => !v.skipDe);

// ---------------------------------------------------------------- depth bookkeeping for recursive declarations
export function computeDepths(decls) {
  for (const d of decls) d.minDepth = Infinity;
  let changed = true;
  while (changed) {
    changed = false;
    for (const d of decls) {
      let n;
      if (d.from) n = 1 + typeDepth(d.from);
      else if (d.kind === "struct") n = 1 + Math.max(0, ...liveFields(d.fields).filter((f) => !f.dflt).map((f) => typeDepth(f.ty)));
      else n = 1 + Math.min(...liveVariants(d).map((v) => Math.max(0, ...liveFields(v.fields).filter((f) => !f.dflt).map((f) => typeDepth(f.ty)))));
      if (n < d.minDepth) { d.minDepth = n; changed = true; }
    }
  }
}
export function typeDepth(t) {
  switch (t.k) {
    case "opt": case "vec": case "hset": case "bset": case "hmap": case "bmap": case "phantom": return 0;
    case "arr": return t.n === 0 ? 0 : typeDepth(t.t);
    case "tup": return Math.max(...t.ts.map(typeDepth));
    case "res": return Math.min(typeDepth(t.t), typeDepth(t.e));
    case "ref": return t.d.minDepth ?? 1;
    default: return t.t ? typeDepth(t.t) : 0;
  }
}

// ---------------------------------------------------------------- values
export const STRINGS = ["", "a", "abc", "with \"quotes\" and \\ back", "line\nbreak", "tab\t", "ünïcödé", "😀", "\u2028", "null", "undefined", "__proto__", "constructor", "0", "-1", "${x}", "*/", "<a>", "A", "B", "type", " ", "\u0000", "é".normalize("NFD")];
const CHARS = ["a", "Z", "0", " ", "\n", "\r", "\u2028", "\"", "\\", "é", "漢", "😀", "\u0000", "/", "\u{10ffff}", "\uffff"];
const IP4 = ["0.0.0.0", "127.0.0.1", "255.255.255.255", "1.2.3.4", "192.168.10.1", "10.0.0.255"];
const IP6 = ["::", "::1", "2001:db8::1", "fe80::1", "1:2:3:4:5:6:7:8", "ff02::2", "2001:db8:0:1:1:1:1:1", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"];
export function genIp6(rng) {
  if (rng.p(0.5)) return rng.pick(IP6);
  // canonical text form without an embedded IPv4 part
  const g = Array.from({ length: 8 }, () => (rng.p(0.4) ? 0 : rng.r(0, 65535)));
  if (g.slice(0, 6).every((x) => x === 0) || (g.slice(0, 5).every((x) => x === 0) && g[5] === 65535)) g[0] = 1;
  return g.map((x) => x.toString(16)).join(":");
}

export function genString(rng) {
  if (rng.p(0.005)) return "long \"text\" ".repeat(rng.r(50, 2000));
  if (rng.p(0.5)) return rng.pick(STRINGS);
  return Array.from({ length: rng.n(6) }, () => rng.pick(["x", "y", "_", "-", " ", "'", "ß", "😀", "7", "{", "}"])).join("");
}
function genInt(k, rng) {
  const [lo, hi] = INTS[k];
  switch (rng.n(5)) {
    case 0: return lo;
    case 1: return hi;
    case 2: return Math.max(lo, Math.min(hi, rng.r(-3, 3)));
    case 3: return Math.max(lo, Math.min(hi, rng.pick([lo + 1, hi - 1, 127, 128, 255, 256, -128, -129, 32767, 65535, 2147483647, 2147483648, 4294967295])));
    default: return rng.r(Math.max(lo, -1000), Math.min(hi, 1000));
  }
}
function genFloat(k, rng) {
  const v = rng.pick([0, 1, -1, 0.5, -2.25, 1e-7, 3.141592653589793, 1e10, -1e15, 123456.789, 16777217, 0.1, k === "f32" || k === "nn32" ? 3.4e38 : 1e300, 5e-324, 2 ** 31 + 0.5]);
  return k === "f32" || k === "nn32" ? Math.fround(v) : v;
}

/** a random value of the type, in the documented JavaScript representation */
export function gen(t, rng, depth = 4) {
  if (isInt(t.k)) return genInt(t.k, rng);
  if (isFloat(t.k)) return genFloat(t.k, rng);
  const len = (max = 3) => (depth <= 0 ? 0 : rng.p(0.01) && !children(t).some((x) => children(x).length || x.k === "ref") ? rng.r(20, 150) : rng.n(max + 1));
  switch (t.k) {
    case "bool": return rng.p(0.5);
    case "char": return rng.pick(CHARS);
    case "string": case "smol": return genString(rng);
    case "unit": case "phantom": return null;
    case "ipv4": return rng.p(0.5) ? rng.pick(IP4) : [0, 0, 0, 0].map(() => rng.r(0, 255)).join(".");
    case "ipv6": return genIp6(rng);
    case "ip": return rng.p(0.5) ? rng.pick(IP4) : genIp6(rng);
    case "vec": return Array.from({ length: len() }, () => gen(t.t, rng, depth - 1));
    case "arr": return Array.from({ length: t.n }, () => gen(t.t, rng, depth - 1));
    case "hset": case "bset": return genSet(t, rng, len(), depth);
    case "hmap": case "bmap": {
      const m = new Map();
      for (const k of genSet({ t: t.kt }, rng, len(), depth)) m.set(k, gen(t.t, rng, depth - 1));
      return m;
    }
    case "opt": return depth <= 0 || rng.p(0.35) ? undefined : gen(t.t, rng, depth - 1);
    case "res": {
      const okFirst = depth <= 0 ? typeDepth(t.t) <= typeDepth(t.e) : rng.p(0.5);
      return okFirst ? { Ok: gen(t.t, rng, depth - 1) } : { Err: gen(t.e, rng, depth - 1) };
    }
    case "tup": return t.ts.map((x) => gen(x, rng, depth - 1));
    case "ref": return genDecl(t.d, rng, depth - 1);
  }
  if (isWrap(t.k)) return gen(t.t, rng, depth);
  throw new Error(`gen ${t.k}`);
}
function genSet(t, rng, n, depth) {
  const out = new Set(), seen = new Set();
  for (let i = 0; i < n; i++) {
    const v = gen(t.t, rng, depth - 1);
    const key = JSON.stringify(encodeGeneric(v)) + typeof v;
    if (!seen.has(key)) { seen.add(key); out.add(v); }
  }
  return out;
}
export function genFields(fs, rng, depth) {
  const o = {};
  const live = liveFields(fs);
  for (const f of (rng.p(0.2) ? rng.shuffle(live) : live)) {
    if (f.dflt && (depth <= 0 || rng.p(0.4))) { if (rng.p(0.3)) o[f.wire] = undefined; continue; }
    const v = gen(f.ty, rng, depth);
    if (v === undefined && rng.p(0.5)) continue;
    o[f.wire] = v;
  }
  return o;
}
export function genPayload(v, rng, depth) {
  if (v.style === "named") return genFields(v.fields, rng, depth);
  const vals = liveFields(v.fields).map((f) => gen(f.ty, rng, depth));
  return v.style === "newtype" ? vals[0] : vals;
}
/** a newtype variant whose field is skipped is a unit variant */
export const isUnitVariant = (v) => v.style === "unit" || (v.style === "newtype" && liveFields(v.fields).length === 0);

export function wrapVariant(d, v, payload) {
  switch (d.tag.m) {
    case "ext": return isUnitVariant(v) ? v.wire : { [v.wire]: payload };
    case "adj": return isUnitVariant(v) ? { [d.tag.tag]: v.wire } : { [d.tag.tag]: v.wire, [d.tag.content]: payload };
    case "int": return isUnitVariant(v) ? { [d.tag.tag]: v.wire } : { [d.tag.tag]: v.wire, ...payload };
    case "un": return isUnitVariant(v) ? null : payload;
  }
}
export function genDecl(d, rng, depth) {
  if (d.from) return gen(d.from, rng, depth);
  if (d.kind === "struct") {
    if (d.transparent || d.style === "newtype") return gen(liveFields(d.fields)[0].ty, rng, depth);
    if (d.style === "tuple") return liveFields(d.fields).map((f) => gen(f.ty, rng, depth));
    return genFields(d.fields, rng, depth);
  }
  let vs = liveVariants(d);
  if (depth <= 0) {
    const cost = (v) => Math.max(0, ...liveFields(v.fields).map((f) => typeDepth(f.ty)));
    const min = Math.min(...vs.map(cost));
    vs = vs.filter((v) => cost(v) === min);
  }
  const v = rng.pick(vs);
  return wrapVariant(d, v, isUnitVariant(v) ? undefined : genPayload(v, rng, depth));
}

// ---------------------------------------------------------------- JSON
/** what the documentation says is sent: sets as arrays, maps as objects, undefined absent (null in arrays and maps) */
export function encodeGeneric(v) {
  if (v instanceof Set) return [...v].map((x) => (x === undefined ? null : encodeGeneric(x)));
  if (v instanceof Map) {
    const o = [];
    for (const [k, x] of v) o.push([typeof k === "string" ? k : String(k), x === undefined ? null : encodeGeneric(x)]);
    return plain(o);
  }
  if (Array.isArray(v)) return v.map((x) => (x === undefined ? null : encodeGeneric(x)));
  if (v && typeof v === "object") return plain(Object.entries(v).filter(([, x]) => x !== undefined).map(([k, x]) => [k, encodeGeneric(x)]));
  return v === undefined ? null : v;
}
function plain(entries) {
  const o = {};
  for (const [k, x] of entries) Object.defineProperty(o, k, { value: x, enumerable: true, configurable: true, writable: true });
  return o;
}
export const toJson = (v) => JSON.stringify(encodeGeneric(v));

// ---------------------------------------------------------------- reading serde's JSON in the documented representation
export class Mismatch extends Error {}
function must(c, t, doc) { if (!c) throw new Mismatch(`${typeof t === "string" ? t : t.k}: ${JSON.stringify(doc)}`); }
const isObj = (x) => x && typeof x === "object" && !Array.isArray(x);

// serde_json::Value widens f32, its text form does not: both are the same f32
export const settings = { fround: false };
export function revive(t, doc) {
  if (isInt(t.k)) { must(Number.isInteger(doc), t, doc); return doc; }
  if (isFloat(t.k)) { must(typeof doc === "number", t, doc); return settings.fround && (t.k === "f32" || t.k === "nn32") ? Math.fround(doc) : doc; }
  switch (t.k) {
    case "bool": must(typeof doc === "boolean", t, doc); return doc;
    case "char": case "string": case "smol": case "ipv4": case "ipv6": case "ip": must(typeof doc === "string", t, doc); return doc;
    case "unit": case "phantom": must(doc === null, t, doc); return null;
    case "vec": case "arr": must(Array.isArray(doc), t, doc); return doc.map((x) => revive(t.t, x));
    case "hset": case "bset": must(Array.isArray(doc), t, doc); return new Set(doc.map((x) => revive(t.t, x)));
    case "hmap": case "bmap": must(isObj(doc), t, doc); return new Map(Object.entries(doc).map(([k, x]) => [isInt(t.kt.k) ? Number(k) : revive(t.kt, k), revive(t.t, x)]));
    case "opt": return doc === null || doc === undefined ? undefined : revive(t.t, doc);
    case "res": {
      must(isObj(doc) && Object.keys(doc).length === 1, t, doc);
      if ("Ok" in doc) return { Ok: revive(t.t, doc.Ok) };
      must("Err" in doc, t, doc);
      return { Err: revive(t.e, doc.Err) };
    }
    case "tup": must(Array.isArray(doc) && doc.length === t.ts.length, t, doc); return t.ts.map((x, i) => revive(x, doc[i]));
    case "ref": return reviveDecl(t.d, doc);
  }
  if (isWrap(t.k)) return revive(t.t, doc);
  throw new Error(`revive ${t.k}`);
}
function reviveFields(fs, doc, who) {
  must(isObj(doc), who, doc);
  const o = {};
  for (const f of liveFields(fs)) {
    if (Object.hasOwn(doc, f.wire)) { const v = revive(f.ty, doc[f.wire]); if (v !== undefined) o[f.wire] = v; }
    else must(f.dflt || undefable(f.ty), who, doc);
  }
  return o;
}
function revivePayload(v, doc) {
  if (v.style === "named") return reviveFields(v.fields, doc, v.wire);
  const live = liveFields(v.fields);
  if (v.style === "newtype") return revive(live[0].ty, doc);
  must(Array.isArray(doc) && doc.length === live.length, v.wire, doc);
  return live.map((f, i) => revive(f.ty, doc[i]));
}
export function reviveDecl(d, doc) {
  if (d.from) return revive(d.from, doc);
  if (d.kind === "struct") {
    if (d.transparent || d.style === "newtype") return revive(liveFields(d.fields)[0].ty, doc);
    if (d.style === "tuple") {
      const live = liveFields(d.fields);
      must(Array.isArray(doc) && doc.length === live.length, d.name, doc);
      return live.map((f, i) => revive(f.ty, doc[i]));
    }
    return reviveFields(d.fields, doc, d.name);
  }
  const vs = liveVariants(d);
  const g = d.tag;
  if (g.m === "un") {
    for (const v of vs) {
      try { if (isUnitVariant(v)) { must(doc === null, d.name, doc); return null; } return revivePayload(v, doc); } catch (e) { if (!(e instanceof Mismatch)) throw e; }
    }
    must(false, d.name, doc);
  }
  if (g.m === "ext") {
    if (typeof doc === "string") { must(vs.some((v) => isUnitVariant(v) && v.wire === doc), d.name, doc); return doc; }
    must(isObj(doc) && Object.keys(doc).length === 1, d.name, doc);
    const v = vs.find((x) => x.wire === Object.keys(doc)[0]);
    must(v && !isUnitVariant(v), d.name, doc);
    return { [v.wire]: revivePayload(v, doc[v.wire]) };
  }
  must(isObj(doc), d.name, doc);
  const v = vs.find((x) => x.wire === doc[g.tag]);
  must(v, d.name, doc);
  if (isUnitVariant(v)) return { [g.tag]: v.wire };
  if (g.m === "adj") return { [g.tag]: v.wire, [g.content]: revivePayload(v, doc[g.content]) };
  const { [g.tag]: _, ...rest } = doc;
  return { [g.tag]: v.wire, ...revivePayload(v, rest) };
}

// ---------------------------------------------------------------- equality (undefined members are absent members)
export function same(a, b) {
  if (Object.is(a, b) || (a === 0 && b === 0)) return true;
  if (a instanceof Map && b instanceof Map) {
    if (a.size !== b.size) return false;
    return [...a].every(([k, v]) => (b.has(k) ? same(v, b.get(k)) : [...b].some(([k2, v2]) => same(k, k2) && same(v, v2))));
  }
  if (a instanceof Set && b instanceof Set) {
    return a.size === b.size && [...a].every((x) => b.has(x) || [...b].some((y) => same(x, y)));
  }
  if (a instanceof Map || b instanceof Map || a instanceof Set || b instanceof Set) return false;
  if (Array.isArray(a)) return Array.isArray(b) && a.length === b.length && a.every((x, i) => same(x, b[i]));
  if (Array.isArray(b)) return false;
  if (a && b && typeof a === "object" && typeof b === "object") {
    const ka = Object.keys(a).filter((k) => a[k] !== undefined), kb = Object.keys(b).filter((k) => b[k] !== undefined);
    return ka.length === kb.length && ka.every((k) => Object.hasOwn(b, k) && same(a[k], b[k]));
  }
  return false;
}

// ---------------------------------------------------------------- serde's rename rules (from its documentation)
export const RULES = ["lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"];
const words = (s) => s.split("_");
export function ruleField(rule, s) {
  const pascal = () => words(s).map((w) => w.slice(0, 1).toUpperCase() + w.slice(1)).join("");
  switch (rule) {
    case "UPPERCASE": case "SCREAMING_SNAKE_CASE": return s.toUpperCase();
    case "PascalCase": return pascal();
    case "camelCase": { const p = pascal(); return p.slice(0, 1).toLowerCase() + p.slice(1); }
    case "kebab-case": return s.replaceAll("_", "-");
    case "SCREAMING-KEBAB-CASE": return s.toUpperCase().replaceAll("_", "-");
    default: return s;
  }
}
export function ruleVariant(rule, s) {
  const snake = () => [...s].map((c, i) => (i > 0 && c >= "A" && c <= "Z" ? "_" : "") + c.toLowerCase()).join("");
  switch (rule) {
    case "lowercase": return s.toLowerCase();
    case "UPPERCASE": return s.toUpperCase();
    case "camelCase": return s.slice(0, 1).toLowerCase() + s.slice(1);
    case "snake_case": return snake();
    case "SCREAMING_SNAKE_CASE": return snake().toUpperCase();
    case "kebab-case": return snake().replaceAll("_", "-");
    case "SCREAMING-KEBAB-CASE": return snake().toUpperCase().replaceAll("_", "-");
    default: return s;
  }
}
