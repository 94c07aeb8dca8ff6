// Probes of generated TypeScript types: literals that the compiler has to accept and literals it has to reject.
import { children, isInt, isFloat, isWrap, isUnitVariant, liveFields, liveVariants, undefable } from "./spec.mjs";
import { typeCheck, ZOD_STUB } from "./types.mjs";

export function literal(v) {
  if (v === undefined) return "undefined";
  if (v === null || typeof v === "boolean") return String(v);
  if (typeof v === "number") return Object.is(v, -0) ? "-0" : Number.isFinite(v) ? String(v) : Number.isNaN(v) ? "NaN" : v < 0 ? "-Infinity" : "Infinity";
  if (typeof v === "string") return JSON.stringify(v).replace(/[\u2028\u2029]/g, (c) => `\\u${c.charCodeAt(0).toString(16)}`);
  if (Array.isArray(v)) return `[${v.map(literal).join(", ")}]`;
  if (v instanceof Map) return !v.size ? "new Map<never, never>()" : `M([${[...v].map(([k, x]) => `[${literal(k)}, ${literal(x)}]`).join(", ")}])`;
  if (v instanceof Set) return !v.size ? "new Set<never>()" : `S([${[...v].map(literal).join(", ")}])`;
  return `{ ${Object.entries(v).map(([k, x]) => `${k === "__proto__" ? '["__proto__"]' : literal(k)}: ${literal(x)}`).join(", ")} }`;
}

// collections whose members are judged against the expected type, without inference from the members
const HELPERS = `
type E<T> = T extends Map<infer K, infer V> ? readonly [K, V] : never;
type I<T> = T extends Set<infer V> ? V : never;
declare function M<T>(entries: readonly E<T>[]): T extends Map<any, any> ? T : never;
declare function S<T>(items: readonly I<T>[]): T extends Set<any> ? T : never;
`.replaceAll(/: T extends (Map<any, any>|Set<any>) \? T : never;/g, ": T;");

/** the TypeScript type according to the documentation */
export function tsType(t) {
  if (isInt(t.k) || isFloat(t.k)) return "number";
  if (isWrap(t.k)) return tsType(t.t);
  switch (t.k) {
    case "bool": return "boolean";
    case "unit": case "phantom": return "null";
    case "vec": case "arr": return `Array<${tsType(t.t)}>`;
    case "hset": case "bset": return `Set<${tsType(t.t)}>`;
    case "hmap": case "bmap": return `Map<${tsType(t.kt)}, ${tsType(t.t)}>`;
    case "opt": return `(${tsType(t.t)} | undefined)`;
    case "res": return `({ Ok: ${tsType(t.t)} } | { Err: ${tsType(t.e)} })`;
    case "tup": return `[${t.ts.map(tsType).join(", ")}]`;
    case "ref": return `${t.d.ns.exported}.${t.d.exp}`;
  }
  return "string";
}
/** literal of a valid value, collections with their documented type */
export function typedLiteral(t, v) {
  if (isWrap(t.k)) return typedLiteral(t.t, v);
  const list = (ts) => `[${v.map((x, i) => typedLiteral(ts(i), x)).join(", ")}]`;
  switch (t.k) {
    case "vec": case "arr": return list(() => t.t);
    case "hset": case "bset": return `new Set<${tsType(t.t)}>([${[...v].map((x) => typedLiteral(t.t, x)).join(", ")}])`;
    case "hmap": case "bmap": return `new Map<${tsType(t.kt)}, ${tsType(t.t)}>([${[...v].map(([k, x]) => `[${typedLiteral(t.kt, k)}, ${typedLiteral(t.t, x)}]`).join(", ")}])`;
    case "opt": return v === undefined ? "undefined" : typedLiteral(t.t, v);
    case "res": return "Ok" in v ? `{ "Ok": ${typedLiteral(t.t, v.Ok)} }` : `{ "Err": ${typedLiteral(t.e, v.Err)} }`;
    case "tup": return list((i) => t.ts[i]);
    case "ref": {
      const d = t.d;
      if (d.from) return typedLiteral(d.from, v);
      const fields = (fs, o, more = []) => `{ ${[...more, ...Object.keys(o).map((k) => `${literal(k)}: ${o[k] === undefined ? "undefined" : typedLiteral(liveFields(fs).find((f) => f.wire === k).ty, o[k])}`)].join(", ")} }`;
      const payload = (x, p) => { const live = liveFields(x.fields); return x.style === "named" ? fields(x.fields, p) : x.style === "newtype" ? typedLiteral(live[0].ty, p) : `[${p.map((y, i) => typedLiteral(live[i].ty, y)).join(", ")}]`; };
      if (d.kind === "struct") {
        const live = liveFields(d.fields);
        if (d.transparent || d.style === "newtype") return typedLiteral(live[0].ty, v);
        return d.style === "tuple" ? list((i) => live[i].ty) : fields(d.fields, v);
      }
      const g = d.tag, vs = liveVariants(d);
      if (g.m === "un") { const x = vs.find((y) => (isUnitVariant(y) ? v === null : admits1(d, y, v))); return isUnitVariant(x) ? "null" : payload(x, v); }
      if (g.m === "ext") { if (typeof v === "string") return literal(v); const k = Object.keys(v)[0]; return `{ ${literal(k)}: ${payload(vs.find((y) => y.wire === k), v[k])} }`; }
      const x = vs.find((y) => y.wire === v[g.tag]);
      const tag = `${literal(g.tag)}: ${literal(v[g.tag])}`;
      if (isUnitVariant(x)) return `{ ${tag} }`;
      if (g.m === "adj") return `{ ${tag}, ${literal(g.content)}: ${payload(x, v[g.content])} }`;
      const { [g.tag]: _, ...rest } = v;
      return `{ ${tag}, ...${payload(x, rest)} }`.replace(/\.\.\.\{ (.*) \} \}$/s, "$1 }");
    }
  }
  return literal(v);
}

/** every optional member spelled out: None is undefined */
export function explicit(t, v) {
  if (isWrap(t.k)) return explicit(t.t, v);
  switch (t.k) {
    case "vec": case "arr": return v.map((x) => explicit(t.t, x));
    case "hset": case "bset": return new Set([...v].map((x) => explicit(t.t, x)));
    case "hmap": case "bmap": return new Map([...v].map(([k, x]) => [k, explicit(t.t, x)]));
    case "opt": return v === undefined ? undefined : explicit(t.t, v);
    case "res": return "Ok" in v ? { Ok: explicit(t.t, v.Ok) } : { Err: explicit(t.e, v.Err) };
    case "tup": return t.ts.map((x, i) => explicit(x, v[i]));
    case "ref": {
      const d = t.d;
      if (d.from) return explicit(d.from, v);
      const fields = (fs, o) => { const r = {}; for (const f of liveFields(fs)) if (f.wire in o || !f.dflt) r[f.wire] = o[f.wire] === undefined ? undefined : explicit(f.ty, o[f.wire]); return r; };
      const payload = (x, p) => (x.style === "named" ? fields(x.fields, p) : x.style === "newtype" ? explicit(liveFields(x.fields)[0].ty, p) : liveFields(x.fields).map((f, i) => explicit(f.ty, p[i])));
      if (d.kind === "struct") {
        const live = liveFields(d.fields);
        if (d.transparent || d.style === "newtype") return explicit(live[0].ty, v);
        if (d.style === "tuple") return live.map((f, i) => explicit(f.ty, v[i]));
        return fields(d.fields, v);
      }
      const g = d.tag, vs = liveVariants(d);
      if (g.m === "un") {
        for (const x of vs) if (isUnitVariant(x) ? v === null : admits1(d, x, v)) return isUnitVariant(x) ? null : payload(x, v);
        return v;
      }
      if (g.m === "ext") { if (typeof v === "string") return v; const x = vs.find((y) => y.wire === Object.keys(v)[0]); return { [x.wire]: payload(x, v[x.wire]) }; }
      const x = vs.find((y) => y.wire === v[g.tag]);
      if (isUnitVariant(x)) return v;
      if (g.m === "adj") return { ...v, [g.content]: payload(x, v[g.content]) };
      const { [g.tag]: tag, ...rest } = v;
      return { [g.tag]: tag, ...payload(x, rest) };
    }
  }
  return v;
}
export function admits1(d, x, v) {
  if (x.style === "named") return admitsFields(x.fields, v);
  const live = liveFields(x.fields);
  return x.style === "newtype" ? admits(live[0].ty, v) : Array.isArray(v) && v.length === live.length && live.every((f, i) => admits(f.ty, v[i]));
}
const objectLike = (v) => v && typeof v === "object" && !Array.isArray(v) && !(v instanceof Map) && !(v instanceof Set);
function admitsFields(fs, v) {
  const live = liveFields(fs);
  if (v === null || v === undefined) return false;
  // a type without required members says nothing about values that are no objects
  if (!objectLike(v)) return live.every((f) => f.dflt || undefable(f.ty));
  return live.every((f) => {
    const x = v[f.wire];
    if (x === undefined) return f.dflt || undefable(f.ty);
    return admits(f.ty, x);
  });
}
/** may TypeScript accept the literal; only a definite no is used */
export function admits(t, v) {
  if (isInt(t.k) || isFloat(t.k)) return typeof v === "number";
  if (isWrap(t.k)) return admits(t.t, v);
  switch (t.k) {
    case "bool": return typeof v === "boolean";
    case "string": case "char": case "smol": case "ipv4": case "ipv6": case "ip": return typeof v === "string";
    case "unit": case "phantom": return v === null;
    case "vec": case "arr": return Array.isArray(v) && v.every((x) => admits(t.t, x));
    case "hset": case "bset": return v instanceof Set && [...v].every((x) => admits(t.t, x));
    case "hmap": case "bmap": return v instanceof Map && [...v].every(([k, x]) => admits(t.kt, k) && admits(t.t, x));
    case "opt": return v === undefined || admits(t.t, v);
    case "res": return objectLike(v) && (("Ok" in v && admits(t.t, v.Ok)) || ("Err" in v && admits(t.e, v.Err)));
    case "tup": return Array.isArray(v) && v.length === t.ts.length && t.ts.every((x, i) => admits(x, v[i]));
    case "ref": {
      const d = t.d;
      if (d.from) return admits(d.from, v);
      if (d.kind === "struct") {
        const live = liveFields(d.fields);
        if (d.transparent || d.style === "newtype") return admits(live[0].ty, v);
        if (d.style === "tuple") return Array.isArray(v) && v.length === live.length && live.every((f, i) => admits(f.ty, v[i]));
        return admitsFields(d.fields, v);
      }
      const g = d.tag;
      return liveVariants(d).some((x) => {
        if (g.m === "un") return isUnitVariant(x) ? v === null : admits1(d, x, v);
        if (g.m === "ext") return isUnitVariant(x) ? v === x.wire : objectLike(v) && Object.hasOwn(v, x.wire) && admits1(d, x, v[x.wire]);
        if (!objectLike(v) || v[g.tag] !== x.wire) return false;
        if (isUnitVariant(x)) return true;
        if (g.m === "adj") return (g.content in v || (x.style === "newtype" && undefable(x.fields[0].ty))) && admits1(d, x, v[g.content]);
        return admits1(d, x, v);
      });
    }
  }
  throw new Error(`admits ${t.k}`);
}
void children;

/**
 * probes: [{type, code?, value?, good, info}] -> outcomes [{probe, errors}]
 * One statement per probe; the diagnostics are attributed by position.
 */
export function runProbes(moduleCode, namespaces, probes, header = "") {
  let text = HELPERS + `import { ${namespaces.join(", ")} } from "./client";\n${header}\n`;
  const spans = [];
  probes.forEach((p, i) => {
    const stmt = p.code ?? `const p${i}: ${p.type} = ${p.text ?? literal(p.value)};`;
    const start = text.length;
    text += `{ ${stmt} }\n`;
    spans.push([start, text.length]);
  });
  text += "export {};\n";
  const { diagnostics } = typeCheck({ "/client.ts": moduleCode, "/probe.ts": text, "/zod.d.ts": ZOD_STUB }, ["/probe.ts"]);
  const out = probes.map((probe) => ({ probe, errors: [] }));
  for (const d of diagnostics) {
    let lo = 0, hi = spans.length - 1, hit = -1;
    while (lo <= hi) { const m = (lo + hi) >> 1; if (d.start < spans[m][0]) hi = m - 1; else if (d.start >= spans[m][1]) lo = m + 1; else { hit = m; break; } }
    if (hit >= 0) out[hit].errors.push(d.text);
    else throw new Error(`diagnostic outside of the probes: ${d.text} ${d.source}`);
  }
  return out;
}
