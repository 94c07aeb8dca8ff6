// Corpora and the oracles shared by the checks of the type translation.
import fs from "node:fs";
import path from "node:path";
import { Rng } from "../rng.mjs";
import { Gen, PRIMS } from "../corpus.mjs";
import { T, prim, vec, opt, tup, ref, rust, hashable, undefable, gen, revive, same, toJson, encodeGeneric, Mismatch, computeDepths, liveFields, liveVariants, isUnitVariant, isInt, isFloat, isWrap, INTS, genString } from "../spec.mjs";
import { Program } from "../types.mjs";
import { admits1 } from "../probes.mjs";
import { VERIF, Inconclusive, show, head } from "../util.mjs";

/** types used directly, without a declaration */
export function builtinRoots() {
  const out = PRIMS.map(prim);
  const s = prim("string"), n = prim("u8"), b = prim("bool");
  out.push(vec(n), vec(vec(s)), T("arr", { t: n, n: 0 }), T("arr", { t: s, n: 3 }), T("arr", { t: opt(b), n: 2 }));
  out.push(T("hset", { t: s }), T("bset", { t: prim("i64") }), T("hset", { t: tup(n, s) }), T("bset", { t: vec(n) }));
  for (const k of ["hmap", "bmap"]) { out.push(T(k, { kt: s, t: n }), T(k, { kt: prim("char"), t: vec(s) }), T(k, { kt: prim("u32"), t: opt(s) }), T(k, { kt: prim("ipv6"), t: b }), T(k, { kt: prim("i8"), t: tup(s, n) }), T(k, { kt: s, t: T(k, { kt: s, t: n }) })); }
  out.push(opt(n), opt(vec(opt(s))), vec(opt(n)), opt(tup(n, opt(s))));
  out.push(T("res", { t: n, e: s }), T("res", { t: vec(n), e: tup(s, b) }), T("res", { t: prim("unit"), e: n }), T("res", { t: T("res", { t: n, e: s }), e: b }));
  out.push(tup(n), tup(n, s), tup(s, n, b), tup(tup(n), tup(s, tup(b, b))), tup(opt(n), opt(s)), tup(n, opt(n)));
  out.push(tup(...Array.from({ length: 12 }, (_, i) => [n, s, b, prim("f64")][i % 4])), tup(...Array.from({ length: 16 }, (_, i) => [prim("i16"), s][i % 2])));
  for (const k of ["box", "arc", "rc", "refcell", "mutex"]) out.push(T(k, { t: n }), T(k, { t: vec(s) }), opt(T(k, { t: s })), T(k, { t: opt(b) }));
  out.push(T("cell", { t: prim("i32") }), T("cow", { t: s }), T("cow", { t: prim("u16") }), T("phantom", { t: n }), T("phantom", { t: vec(s) }));
  out.push(T("box", { t: T("rc", { t: T("arc", { t: n }) }) }));
  return out;
}

/** every container around every kind of leaf */
export function gridRoots(g, { deep = false } = {}) {
  const s = prim("string"), n = prim("u8");
  const named = g.decls.find((d) => d.kind === "struct" && d.style === "named" && d.fields.length && !d.from && !d.mod);
  const leaves = [prim("unit"), n, s, prim("bool"), prim("f64"), prim("char"), prim("ip"), T("phantom", { t: n }), opt(n), opt(prim("unit")), T("box", { t: s }), tup(n, s), tup(opt(n)), T("res", { t: n, e: prim("unit") }), vec(n), T("arr", { t: s, n: 2 }), T("bset", { t: s }), T("bmap", { kt: s, t: n }), T("cow", { t: s }), ...(named ? [ref(named)] : [])];
  const wrap = [
    (t) => vec(t), (t) => T("arr", { t, n: 2 }), (t) => hashable(t) && T("hset", { t }), (t) => hashable(t) && T("bset", { t }), (t) => opt(t),
    (t) => T("hmap", { kt: s, t }), (t) => T("bmap", { kt: prim("u8"), t }), (t) => !undefable(t) && T("res", { t, e: s }), (t) => !undefable(t) && T("res", { t: n, e: t }),
    (t) => tup(t), (t) => tup(t, n), (t) => tup(n, t), (t) => tup(t, t, t), (t) => T("box", { t }), (t) => T("arc", { t }), (t) => T("rc", { t }), (t) => T("refcell", { t }), (t) => T("mutex", { t }), (t) => T("phantom", { t }),
  ];
  const out = new Map();
  const put = (t) => { if (t && !(t.k === "opt" && undefable(t.t))) out.set(rust(t), t); };
  for (const w of wrap) for (const l of leaves) put(w(l));
  if (deep) for (const w of wrap) for (const v of wrap) { const x = v(n); if (x) put(w(x)); }
  return [...out.values()];
}

/** all values that differ from v in one place: a member dropped, replaced or added */
export function singles(v, limit, rng) {
  const out = [];
  const walk = (x, put) => {
    for (const y of [undefined, null, {}, [], "", 0, true]) if (!same(y, x) || (y === undefined) !== (x === undefined)) put(clone(y));
    if (x instanceof Map) {
      const a = [...x];
      a.forEach(([k, y], i) => { put(new Map(a.filter((_, j) => j !== i))); walk(y, (z) => put(new Map(a.map((e, j) => (j === i ? [k, z] : e))))); });
      put(Object.fromEntries(a.map(([k, y]) => [String(k), y]))); put(a);
    } else if (x instanceof Set) {
      const a = [...x];
      a.forEach((y, i) => { put(new Set(a.filter((_, j) => j !== i))); walk(y, (z) => put(new Set(a.map((e, j) => (j === i ? z : e))))); });
      put(a);
    } else if (Array.isArray(x)) {
      x.forEach((y, i) => { put(x.filter((_, j) => j !== i)); walk(y, (z) => put(x.map((e, j) => (j === i ? z : e)))); });
      put([...x, x.length ? clone(x[0]) : null]); put([...x, undefined]); put([...x, null]); put(new Set(x)); put(Object.fromEntries(x.map((y, i) => [i, y])));
      if (x.length === 1) put(x[0]);
    } else if (x && typeof x === "object") {
      const es = Object.entries(x), mk = (a) => { const o = {}; for (const [k, y] of a) Object.defineProperty(o, k, { value: y, enumerable: true, configurable: true, writable: true }); return o; };
      es.forEach(([k, y], i) => {
        put(mk(es.filter((_, j) => j !== i)));
        put(mk(es.map((e, j) => (j === i ? [`${k}_`, y] : e))));
        walk(y, (z) => put(mk(es.map((e, j) => (j === i ? [k, z] : e)))));
      });
      put(mk([...es, ["extra", 1]])); put(new Map(es)); put([x]);
      if (es.length === 1) put(es[0][1]);
    } else { put([x]); put({ x }); put({ A: x }); put(`${x}`); }
  };
  walk(v, (z) => out.push(z));
  return out.length > limit ? rng.sample(out, limit) : out;
}

export function corpus(seed, tag, { n = 120, asym = false, mixed = false, ns = 3, grid = null, flat = false, ...o } = {}) {
  const rng = new Rng(`${tag}:${seed}`);
  const g = new Gen(rng.sub("decls"), o);
  g.namespace("Alpha");
  if (ns > 1) g.namespace("Beta", "beta_ns");
  if (ns > 2) g.namespace("Gamma");
  if (grid) g.grid(grid);
  for (let i = 0; i < n; i++) g.any({ asym: mixed ? rng.p(0.5) : asym });
  if (flat) for (let i = 0; i < flat; i++) g.flattening();
  computeDepths(g.decls);
  return { g, rng };
}

/** wire documents that JavaScript numbers cannot be the origin of */
export const RAW_DOCS = {
  u64: ["18446744073709551615", "9007199254740993"], usize: ["18446744073709551615"], u128: ["340282366920938463463374607431768211455", "18446744073709551616"],
  i64: ["9223372036854775807", "-9223372036854775808"], isize: ["9223372036854775807", "-9223372036854775808"],
  i128: ["170141183460469231731687303715884105727", "-170141183460469231731687303715884105728"],
  f64: ["1.7976931348623157e308", "-1.7976931348623157e308", "5e-324", "2.2250738585072014e-308", "-0.0", "0.1", "1e21"],
  f32: ["3.4028235e38", "-3.4028235e38", "1e-45", "0.1", "16777217"], nn64: ["1.7976931348623157e308", "-0.0"], nn32: ["3.4028235e38"],
  ipv6: ['"::ffff:1.2.3.4"', '"::1.2.3.4"', '"64:ff9b::1.2.3.4"', '"1:0:0:2:0:0:0:3"', '"1:0:0:0:2:0:0:3"'],
  ip: ['"::ffff:1.2.3.4"', '"::1.2.3.4"', '"255.255.255.255"'],
};

/** values that fit nowhere in particular */
export const POOL = [
  undefined, null, true, false, 0, -0, 1, -1, 0.5, 1.5, NaN, Infinity, -Infinity, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536,
  2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296, 2 ** 53, -(2 ** 53), 1e300,
  "", "a", "ab", "\n", "😀", "😀x", "e\u0301", "1", "true", "null", "1.2.3.4", "1.2.3.256", "1.2.3", "01.2.3.4", "::1", "::g", "1:2:3:4:5:6:7", "1.2.3.4 ", " ::1", "A", "Ok", "__proto__",
  "::ffff:1.2.3.4", "1:2:3:4:5:6:7:8:9", "1.2.3.4.5", "::1\n", "1.2.3.4\n", "a\n", "1e3", "0x1F",
  [], [1], ["a"], [null], [undefined], [1, 2], [1, "a"], [[], []], {}, { a: 1 }, { Ok: 1 }, { Err: "x" }, { Ok: 1, Err: "x" }, { type: "A" },
  new Map(), new Map([["a", 1]]), new Map([[1, 1]]), new Set(), new Set([1]), new Set(["a"]), [true, false, true], "Idle", { length: 0 },
  new Map([["a", undefined]]), new Set([undefined]),
];

/** boundaries of every integer type */
const EDGES = [...new Set(Object.values(INTS).flat().flatMap((x) => [x - 1, x, x + 1, x + 0.5]))].filter((x) => Math.abs(x) <= 2 ** 53);

/** values for which JSON and the statement of the property say nothing */
export function outOfScope(v) {
  if (typeof v === "number") return Number.isFinite(v) && Math.abs(v) > 2 ** 53 && Number.isInteger(v);
  if (typeof v === "string") return !v.isWellFormed();
  if (v instanceof Set) return [...v].some(outOfScope);
  if (v instanceof Map) return [...v].some(([k, x]) => outOfScope(k) || outOfScope(x));
  if (Array.isArray(v)) return v.some(outOfScope);
  if (v && typeof v === "object") return Object.entries(v).some(([k, x]) => outOfScope(k) || outOfScope(x));
  return false;
}

export const clone = (v) => {
  if (v instanceof Map) return new Map([...v].map(([k, x]) => [clone(k), clone(x)]));
  if (v instanceof Set) return new Set([...v].map(clone));
  if (Array.isArray(v)) return v.map(clone);
  if (v && typeof v === "object") { const o = {}; for (const [k, x] of Object.entries(v)) Object.defineProperty(o, k, { value: clone(x), enumerable: true, configurable: true, writable: true }); return o; }
  return v;
};

// ---------------------------------------------------------------- type directed mutation
/** one mutation of a value of the type; kind of mutation is counted by the caller */
export function mutate(t, v, rng, trace = []) {
  const here = (kind, x) => { trace.push(kind); return x; };
  const foreign = () => here("foreign", clone(rng.pick(POOL)));
  const into = (f) => f;
  if (isWrap(t.k)) return mutate(t.t, v, rng, trace);
  if (rng.p(0.12)) return foreign();
  if (isInt(t.k)) return rng.p(0.7) ? here("edge", rng.pick(EDGES)) : rng.p(0.5) ? here("near", v + rng.pick([0.5, -0.5, 1, -1])) : foreign();
  if (isFloat(t.k)) return rng.p(0.5) ? here("edge", rng.pick([NaN, Infinity, -Infinity, 1e300, -1e300, 0, 5e-324])) : foreign();
  switch (t.k) {
    case "string": case "smol": case "char": case "ipv4": case "ipv6": case "ip":
      return rng.p(0.4) ? here("append", v + rng.pick(["x", "\n", " ", "0", "😀", ".1", ":1"])) : rng.p(0.3) ? here("prepend", rng.pick(["x", " ", "0", "::", "1."]) + v) : rng.p(0.3) ? here("cut", v.slice(0, -1)) : foreign();
    case "vec": case "hset": case "bset": {
      const a = [...v];
      if (a.length && rng.p(0.6)) { const i = rng.n(a.length); a[i] = mutate(t.t, a[i], rng, trace); }
      else if (rng.p(0.5)) { a.push(foreign()); } else return rng.p(0.5) ? here("kind", t.k === "vec" ? new Set(a) : a) : foreign();
      return t.k === "vec" ? a : new Set(a);
    }
    case "arr": {
      const a = [...v];
      const w = rng.f();
      if (a.length && w < 0.4) { const i = rng.n(a.length); a[i] = mutate(t.t, a[i], rng, trace); return a; }
      if (a.length && w < 0.7) { a.pop(); return here("length", a); }
      a.push(a.length ? clone(a[0]) : gen(t.t, rng, 2));
      return here("length", a);
    }
    case "hmap": case "bmap": {
      const a = [...v];
      if (a.length && rng.p(0.7)) { const i = rng.n(a.length); a[i] = rng.p(0.6) ? [a[i][0], mutate(t.t, a[i][1], rng, trace)] : [mutate(t.kt, a[i][0], rng, trace), a[i][1]]; return new Map(a); }
      if (rng.p(0.4)) return here("kind", Object.fromEntries(a.map(([k, x]) => [String(k), x])));
      a.push([gen(t.kt, rng, 1), foreign()]);
      return new Map(a);
    }
    case "opt": return v === undefined ? (rng.p(0.5) ? here("null", null) : foreign()) : mutate(t.t, v, rng, trace);
    case "res": {
      const k = Object.keys(v)[0];
      const w = rng.f();
      if (w < 0.6) return { [k]: mutate(k === "Ok" ? t.t : t.e, v[k], rng, trace) };
      if (w < 0.8) return here("swap", { [k === "Ok" ? "Err" : "Ok"]: v[k] });
      return w < 0.9 ? here("empty", {}) : here("rename", { [rng.pick(["ok", "err", "OK", "None"])]: v[k] });
    }
    case "tup": return mutateTuple(t.ts, v, rng, trace, here);
    case "ref": return mutateDecl(t.d, v, rng, trace, here, foreign);
  }
  void into;
  return foreign();
}
function mutateTuple(ts, v, rng, trace, here) {
  const a = [...v];
  const w = rng.f();
  if (a.length && w < 0.55) { const i = rng.n(a.length); a[i] = mutate(ts[i], a[i], rng, trace); return a; }
  if (w < 0.7) { a.pop(); return here("length", a); }
  if (w < 0.85) { a.push(a.length ? clone(a[0]) : null); return here("length", a); }
  return here("shuffle", rng.shuffle(a));
}
function mutateFields(fs, v, rng, trace, here, base = {}) {
  const o = clone(v);
  const live = liveFields(fs);
  const w = rng.f();
  if (!live.length || w < 0.08) { Object.defineProperty(o, rng.pick(["extra", "Ok", "A", "__proto__x", "length"]), { value: rng.pick([1, "x", null]), enumerable: true, configurable: true, writable: true }); return here("extra key", o); }
  const f = rng.pick(live);
  if (w < 0.3) { delete o[f.wire]; return here("missing key", o); }
  if (w < 0.36) { o[f.wire] = undefined; return here("undefined key", o); }
  if (w < 0.42) { o[f.wire] = null; return here("null key", o); }
  if (w < 0.5) { const x = o[f.wire]; delete o[f.wire]; o[f.wire.toUpperCase() === f.wire ? f.wire.toLowerCase() : f.wire.toUpperCase()] = x; return here("case of key", o); }
  if (w < 0.54 && f.base && f.base !== f.wire) { const x = o[f.wire]; delete o[f.wire]; o[f.base] = x; return here("rust name", o); }
  if (w < 0.58 && live.length > 1) { const h = rng.pick(live); const x = o[f.wire]; o[f.wire] = o[h.wire]; o[h.wire] = x; return here("swap fields", o); }
  if (o[f.wire] === undefined) { o[f.wire] = clone(rng.pick(POOL)); return here("foreign", o); }
  o[f.wire] = mutate(f.ty, o[f.wire], rng, trace);
  return o;
}
function mutatePayload(v, p, rng, trace, here) {
  if (v.style === "named") return mutateFields(v.fields, p, rng, trace, here);
  const live = liveFields(v.fields);
  if (v.style === "newtype") return mutate(live[0].ty, p, rng, trace);
  return mutateTuple(live.map((f) => f.ty), p, rng, trace, here);
}
function mutateDecl(d, v, rng, trace, here, foreign) {
  if (d.from) return mutate(d.from, v, rng, trace);
  if (d.kind === "struct") {
    const live = liveFields(d.fields);
    if (d.transparent || d.style === "newtype") return mutate(live[0].ty, v, rng, trace);
    if (d.style === "tuple") return mutateTuple(live.map((f) => f.ty), v, rng, trace, here);
    return mutateFields(d.fields, v, rng, trace, here);
  }
  const names = [...d.variants.map((x) => x.wire), ...d.variants.map((x) => x.base), "Nope", ""];
  const g = d.tag;
  const w = rng.f();
  if (g.m === "un") {
    if (w < 0.3) return foreign();
    const hit = d.variants.find((x) => { try { if (x.skipDe) return false; if (isUnitVariant(x)) return v === null; return fits(x, v); } catch { return false; } });
    return !hit || isUnitVariant(hit) ? foreign() : mutatePayload(hit, v, rng, trace, here);
  }
  if (g.m === "ext") {
    if (typeof v === "string") {
      if (w < 0.5) return here("tag", rng.pick(names));
      return w < 0.75 ? here("unit as object", { [v]: rng.pick([null, {}, [], 1]) }) : foreign();
    }
    const k = Object.keys(v)[0];
    const hit = liveVariants(d).find((x) => x.wire === k);
    if (w < 0.65) return { [k]: mutatePayload(hit, v[k], rng, trace, here) };
    if (w < 0.85) return here("tag", { [rng.pick(names)]: v[k] });
    return w < 0.95 ? here("tag only", k) : here("empty", {});
  }
  const hit = liveVariants(d).find((x) => x.wire === v[g.tag]);
  if (w < 0.2) return here("tag", { ...v, [g.tag]: rng.pick([...names, null, 1, undefined]) });
  if (w < 0.27) { const o = { ...v }; delete o[g.tag]; return here("missing tag", o); }
  if (isUnitVariant(hit)) return foreign();
  if (g.m === "adj") {
    if (w < 0.35) { const o = { ...v }; delete o[g.content]; return here("missing content", o); }
    return { ...v, [g.content]: mutatePayload(hit, v[g.content], rng, trace, here) };
  }
  const { [g.tag]: _, ...rest } = v;
  const m = mutatePayload(hit, rest, rng, trace, here);
  // the payload itself can be replaced by something that is no object
  if (!m || typeof m !== "object" || Array.isArray(m) || m instanceof Map || m instanceof Set) return here("no object", m);
  return { [g.tag]: v[g.tag], ...m };
}
function fits(variant, v) {
  const kind = (t) => (isWrap(t.k) ? kind(t.t) : t.k === "bool" ? "boolean" : isInt(t.k) || isFloat(t.k) ? "number" : t.k === "vec" ? "array" : ["string", "char", "ip", "ipv4", "ipv6", "smol"].includes(t.k) ? "string" : "?");
  if (variant.style === "named") return v && typeof v === "object" && !Array.isArray(v) && variant.fields[0].wire in v;
  if (variant.style === "tuple") return Array.isArray(v) && v.length === variant.fields.length;
  const k = kind(variant.fields[0].ty);
  return Array.isArray(v) ? k === "array" : typeof v === k;
}

// ---------------------------------------------------------------- the recorded findings about additional keys
/**
 * The value without keys that zod ignores although serde objects: exactly what the findings extra-key-* and
 * adjacent-unit-content are about. `parsed` is what zod made of it and tells which alternative was taken.
 */
export function strip(t, v, parsed) {
  if (isWrap(t.k) || t.k === "opt") return v === undefined || v === null ? v : strip(t.t, v, parsed);
  const isObj = (x) => x && typeof x === "object" && !Array.isArray(x) && !(x instanceof Map) && !(x instanceof Set);
  if (typeof v !== "object" || v === null || typeof parsed !== "object" || parsed === null) return v;
  const fields = (fs, o, q) => {
    if (!isObj(o) || !isObj(q)) return o;
    const r = clone(o);
    for (const f of liveFields(fs)) if (Object.hasOwn(r, f.wire)) r[f.wire] = strip(f.ty, r[f.wire], q[f.wire]);
    return r;
  };
  const list = (ts, a, q) => (Array.isArray(a) && Array.isArray(q) ? a.map((x, i) => (ts(i) ? strip(ts(i), x, q[i]) : x)) : a);
  const payload = (x, o, q) => {
    if (x.style === "named") return fields(x.fields, o, q);
    const live = liveFields(x.fields);
    if (x.style === "newtype") return live.length ? strip(live[0].ty, o, q) : o;
    return list((i) => live[i]?.ty, o, q);
  };
  switch (t.k) {
    case "vec": case "arr": return list(() => t.t, v, parsed);
    case "hset": case "bset": return v instanceof Set && parsed instanceof Set ? new Set(list(() => t.t, [...v], [...parsed])) : v;
    case "hmap": case "bmap": return v instanceof Map && parsed instanceof Map ? new Map([...v].map(([k, x]) => [k, strip(t.t, x, parsed.get(k))])) : v;
    case "tup": return list((i) => t.ts[i], v, parsed);
    case "res": {
      const k = Object.keys(parsed)[0];
      if (!isObj(v) || !Object.hasOwn(v, k) || (k !== "Ok" && k !== "Err")) return v;
      return { [k]: strip(k === "Ok" ? t.t : t.e, v[k], parsed[k]) };
    }
    case "ref": {
      const d = t.d;
      if (d.from) return strip(d.from, v, parsed);
      if (d.kind === "struct") {
        const live = liveFields(d.fields);
        if (d.transparent || d.style === "newtype") return strip(live[0].ty, v, parsed);
        if (d.style === "tuple") return list((i) => live[i]?.ty, v, parsed);
        return fields(d.fields, v, parsed);
      }
      const vs = liveVariants(d);
      if (d.tag.m === "un") {
        const x = vs.find((y) => !isUnitVariant(y) && admits1(d, y, parsed));
        return x ? payload(x, v, parsed) : v;
      }
      if (!isObj(v) || !isObj(parsed)) return v;
      if (d.tag.m === "ext") {
        const x = vs.find((y) => y.wire === Object.keys(parsed)[0]);
        return x && Object.hasOwn(v, x.wire) ? { [x.wire]: payload(x, v[x.wire], parsed[x.wire]) } : v;
      }
      const x = vs.find((y) => y.wire === parsed[d.tag.tag]);
      if (!x) return v;
      if (d.tag.m === "adj") {
        const o = clone(v);
        if (isUnitVariant(x)) delete o[d.tag.content];
        else if (Object.hasOwn(o, d.tag.content)) o[d.tag.content] = payload(x, o[d.tag.content], parsed[d.tag.content]);
        return o;
      }
      if (isUnitVariant(x)) return v;
      const { [d.tag.tag]: tag, ...rest } = v;
      return { [d.tag.tag]: tag, ...payload(x, rest, parsed) };
    }
  }
  return v;
}

/** finding ipv6-octets: leading zeros in the IPv4 part of an IPv6 address */
export function noZeros(v) {
  if (typeof v === "string") return /^[0-9a-f:]*:\d+(\.\d+){3}$/i.test(v) ? v.replace(/(:|\.)0+(?=\d)(?=\d*(\.\d+)*$)/g, "$1") : v;
  if (v instanceof Map) return new Map([...v].map(([k, x]) => [noZeros(k), noZeros(x)]));
  if (v instanceof Set) return new Set([...v].map(noZeros));
  if (Array.isArray(v)) return v.map(noZeros);
  if (v && typeof v === "object") { const o = clone(v); for (const k of Object.keys(o)) o[k] = noZeros(o[k]); return o; }
  return v;
}

// ---------------------------------------------------------------- helpers for verdicts
export const lit = (v) => head(JSON.stringify(show(v)) ?? "undefined", 400);
export const describe = (root) => (root.decl ? `${root.rust} (${root.decl.kind}${root.decl.tag ? "/" + root.decl.tag.m : ""})` : root.rust);
/** safeParse, with an exception as one more outcome */
export function verdict(schema, v) {
  try { return schema.safeParse(v); } catch (e) { return { success: false, threw: e, error: { issues: [`throws ${e.message}`] } }; }
}
export const issues = (r) => (r.success ? "accepted" : head(JSON.stringify(r.error.issues), 300));

/** all values kept in step with serde: the share of generated values serde does not take must stay small */
export function guardModel(rejected, total, what) {
  if (total > 0 && rejected / total > 0.02) throw new Inconclusive(`${what}: serde refused ${rejected} of ${total} values the model considers valid`);
}

/** registered findings of this property */
export function findings(property) {
  const out = new Map();
  for (const line of fs.readFileSync(path.join(VERIF, "known-findings.txt"), "utf8").split("\n")) {
    const m = /^finding: property=(\S+) key=(\S+) (.*)$/.exec(line);
    if (m && m[1] === property) out.set(m[2], m[3]);
  }
  return out;
}
/** report a defect found by the probe `key`: known if listed, otherwise a violation */
export function defect(report, key, message, detail) {
  const known = findings(report.property).get(key);
  if (known) { if (!report.known.includes(known)) report.known.push(known); report.count("known findings observed"); }
  else report.violation(message, detail);
}
/** repeat with other seeds until the time is used up */
export async function rounds({ seed, tier }, budget_s, f, quick = 1) {
  const start = Date.now();
  const spent = () => (Date.now() - start) / 1000;
  await f(seed, 0);
  let i = 1;
  while (tier === "thorough" ? spent() < budget_s : i < quick && spent() < 200) { await f(seed * 1000 + i, i); i++; }
  return i;
}
