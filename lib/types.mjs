// Build a generated program, run it, load what it generates into the real zod 3 and the real TypeScript compiler.
import fs from "node:fs";
import path from "node:path";
import { createRequire } from "node:module";
import { pathToFileURL } from "node:url";
import { WORK, TARGET, VERIF, REPO, NODE_MODULES, mkdirp, buildBin, spawnSync, Violation, Inconclusive, tail } from "./util.mjs";
import { emitProgram } from "./corpus.mjs";
import { rust, ref } from "./spec.mjs";

const require = createRequire(import.meta.url);
export const ts = require(path.join(NODE_MODULES, "typescript"));
export const ZOD_PATH = pathToFileURL(path.join(NODE_MODULES, "zod/v3/index.js")).href;
export const z = await import(ZOD_PATH);

const CARGO_TOML = (bins) => `[package]
name = "zod-types-harness"
version = "0.0.0"
edition = "2021"

[workspace]

${bins.map((b) => `[[bin]]\nname = "${b}"\npath = "src/${b}/main.rs"\n`).join("\n")}
[dependencies]
zod = { path = "${REPO}", features = ["smol_str", "ordered-float"] }
zod-core = { path = "${REPO}/core" }
serde = { version = "1", features = ["derive", "rc"] }
serde_json = "1"
futures = "0.3"
tokio = { version = "1", features = ["full"] }
axum = { version = "0.6", features = ["ws"] }
smol_str = { version = "0.1", features = ["serde"] }
ordered-float = { version = "3", features = ["serde"] }

[profile.dev]
opt-level = 0
debug = 0
`;

/** programs: {bin: source} */
export function writeCrate(dirName, programs, library) {
  const dir = mkdirp(path.join(WORK, dirName));
  const put = (p, s) => { mkdirp(path.dirname(p)); if (!fs.existsSync(p) || fs.readFileSync(p, "utf8") !== s) fs.writeFileSync(p, s); };
  put(path.join(dir, "Cargo.toml"), CARGO_TOML(Object.keys(programs)).replace("[dependencies]\n", `[dependencies]\n${library ? 'library = { path = "library" }\n' : ""}`));
  if (library) {
    put(path.join(dir, "library/Cargo.toml"), `[package]\nname = "library"\nversion = "0.0.0"\nedition = "2021"\n\n[dependencies]\nzod = { path = "${REPO}" }\nserde = { version = "1", features = ["derive"] }\nserde_json = "1"\nfutures = "0.3"\ntokio = { version = "1", features = ["full"] }\n`);
    put(path.join(dir, "library/src/lib.rs"), library);
  }
  put(path.join(dir, "src/support.rs"), fs.readFileSync(path.join(VERIF, "harness/support.rs"), "utf8"));
  for (const [b, s] of Object.entries(programs)) put(path.join(dir, `src/${b}/main.rs`), s);
  return dir;
}

export function runBin(bin, args, opts = {}) {
  const r = spawnSync(bin, args, { encoding: "utf8", maxBuffer: 1 << 30, timeout: 240_000, ...opts });
  return r;
}

/** one built program together with everything observed about it */
export class Program {
  constructor(g, bin, { roots, crate }) { this.g = g; this.bin = bin; this.roots = roots; this.crate = crate; }

  static build(crate, binName, g, { extraRoots = [], rawRoots = [], extraSource, what, backend, backends, order, library } = {}) {
    const roots = [
      ...g.decls.filter((d) => !d.noRoot).map((d) => ({ ty: ref(d), rust: rust(ref(d)), decl: d, serdeless: d.noSer || d.noDe })),
      ...extraRoots.map((ty) => ({ ty, rust: rust(ty), decl: null })),
      // hand written: {rust, serdeless?, schema?: [namespace, name]}
      ...rawRoots.map((r) => ({ ...r, raw: true, decl: null })),
    ];
    roots.forEach((r, i) => { r.index = i; });
    const src = emitProgram(g, { roots, backend, backends, order, extraSource });
    const dir = writeCrate(crate, { [binName]: src }, library);
    const bin = buildBin(dir, binName, what);
    return new Program(g, bin, { roots, crate: dir });
  }

  command(cmd, what) {
    // far beyond what any program needs: endless recursion must end
    const r = runBin("/bin/bash", ["-c", 'ulimit -v 8000000 -t 60 -c 0; exec "$0" "$@"', this.bin, cmd]);
    if (r.error) throw new Inconclusive(`${cmd}: ${r.error}`);
    if (r.status !== 0) throw new Violation(`generating ${what} terminates with ${r.signal ?? r.status}`, { stderr: tail(r.stderr, 1500) });
    return r.stdout;
  }
  generate() { return (this.code ??= this.command("gen", "the client")); }
  dump() { return (this.dumped ??= JSON.parse(this.command("dump", "schemas and types"))); }

  /** cases: [{root, doc, mode}] -> [{ok}|{err}] from the real serde implementation */
  serde(cases) {
    const CH = 20000, out = [];
    for (let i = 0; i < cases.length; i += CH) {
      const part = cases.slice(i, i + CH);
      const r = runBin(this.bin, ["rt"], { input: part.map((c) => `${c.root} ${c.mode ?? "s"} ${c.doc}\n`).join("") });
      if (r.error || r.status !== 0) throw new Inconclusive(`serde host ended with ${r.error ?? r.signal ?? r.status}: ${tail(r.stderr, 800)}`);
      const lines = r.stdout.split("\n");
      for (let j = 0; j < part.length; j++) out.push(lines[j][0] === "O" ? { ok: lines[j].slice(1) } : { err: lines[j].slice(1) });
    }
    return out;
  }

  async load() {
    if (this.mod) return this.mod;
    this.mod = await loadModule(this.generate(), path.join(this.crate, "gen"));
    return this.mod;
  }

  /** evaluate a schema expression in the scope of the generated module */
  evalSchema(text) { return evalIn(this.mod, text); }

  /** the schema of a root as a client sees it */
  schemaOf(root) {
    if (root.schema) return root.schema;
    if (root.exported) {
      root.schema = this.mod[root.exported[0]]?.[root.exported[1]];
      if (typeof root.schema?.safeParse !== "function") throw new Violation(`no schema is exported for ${root.exported.join(".")}`);
      return root.schema;
    }
    if (root.decl) {
      const ns = this.mod[root.decl.ns.exported];
      const s = ns?.[root.decl.exp];
      if (!s || typeof s.safeParse !== "function") throw new Violation(`no schema is exported for ${root.decl.ns.exported}.${root.decl.exp}`);
      root.schema = s;
    } else {
      const text = this.dump().roots[root.index].schema;
      try { root.schema = this.evalSchema(text); } catch (e) { throw new Violation(`the schema of ${root.rust} does not evaluate: ${e.message}`, { text }); }
      if (typeof root.schema?.safeParse !== "function") throw new Violation(`the schema of ${root.rust} is not a schema`, { text });
    }
    return root.schema;
  }
}

export function evalIn(mod, text) {
  const names = Object.keys(mod).filter((k) => /^[A-Za-z_$][\w$]*$/.test(k));
  return new Function("z", ...names, `"use strict"; return (${text});`)(z, ...names.map((n) => mod[n]));
}

export function toJs(code) {
  const r = ts.transpileModule(code, { reportDiagnostics: true, compilerOptions: { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.ESNext } });
  const errs = (r.diagnostics || []).filter((d) => d.category === ts.DiagnosticCategory.Error);
  if (errs.length) throw new Violation(`the generated code is not valid TypeScript: ${ts.flattenDiagnosticMessageText(errs[0].messageText, "\n")}`, { at: code.slice(Math.max(0, errs[0].start - 200), errs[0].start + 200) });
  return r.outputText;
}

let serial = 0;
/** load generated client code; addr: replaces the address of the server */
export async function loadModule(code, dir, { zod = ZOD_PATH } = {}) {
  mkdirp(dir);
  const js = toJs(code).replace(/from\s*(["'])zod\1/g, `from ${JSON.stringify(zod)}`);
  const file = path.join(dir, `m${process.pid}_${serial++}.mjs`);
  fs.writeFileSync(file, js);
  try {
    const m = await import(pathToFileURL(file).href);
    return { ...m };
  } catch (e) {
    throw new Violation(`the generated client does not load: ${e.message}`, { stack: String(e.stack).slice(0, 800) });
  }
}

// ---------------------------------------------------------------- TypeScript compiler
const libCache = new Map();
/** type check virtual files; returns diagnostics [{file, line, code, text}] */
export function typeCheck(files, roots, opts = {}) {
  const options = {
    target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.ESNext, moduleResolution: ts.ModuleResolutionKind.Bundler ?? 100,
    strict: true, noImplicitAny: false, noEmit: true, types: [], lib: ["lib.es2022.d.ts", "lib.dom.d.ts"], skipLibCheck: true, ...opts,
  };
  const libDir = path.dirname(require.resolve(path.join(NODE_MODULES, "typescript/lib/typescript.js")));
  const host = {
    fileExists: (f) => f in files || libPath(f) !== null,
    readFile: (f) => files[f] ?? (libPath(f) ? fs.readFileSync(libPath(f), "utf8") : undefined),
    getSourceFile: (f, lang) => {
      if (f in files) return ts.createSourceFile(f, files[f], lang, true);
      const p = libPath(f);
      if (!p) return undefined;
      if (!libCache.has(p)) libCache.set(p, ts.createSourceFile(f, fs.readFileSync(p, "utf8"), lang, true));
      return libCache.get(p);
    },
    getDefaultLibFileName: () => path.join(libDir, "lib.es2022.d.ts"), getDefaultLibLocation: () => libDir,
    writeFile() {}, getCurrentDirectory: () => "/", getCanonicalFileName: (f) => f, useCaseSensitiveFileNames: () => true, getNewLine: () => "\n",
    directoryExists: () => true, getDirectories: () => [],
    resolveModuleNames: (names) => names.map((n) => {
      const f = n === "zod" ? "/zod.d.ts" : n.startsWith("./") ? `/${n.slice(2)}.ts` : null;
      return f && f in files ? { resolvedFileName: f, extension: f.endsWith(".d.ts") ? ".d.ts" : ".ts" } : undefined;
    }),
  };
  function libPath(f) { return f.startsWith(libDir) && fs.existsSync(f) ? f : null; }
  const program = ts.createProgram(roots, options, host);
  const out = [];
  for (const f of roots) {
    const sf = program.getSourceFile(f);
    for (const d of [...program.getSyntacticDiagnostics(sf), ...program.getSemanticDiagnostics(sf)]) {
      const { line } = sf.getLineAndCharacterOfPosition(d.start ?? 0);
      out.push({ file: f, line, code: d.code, text: ts.flattenDiagnosticMessageText(d.messageText, "\n"), start: d.start, source: sf.text.slice(Math.max(0, (d.start ?? 0) - 120), (d.start ?? 0) + 160) });
    }
  }
  return { diagnostics: out, program };
}
export const ZOD_STUB = `export const ${["object", "tuple", "union", "discriminatedUnion", "array", "set", "map", "string", "number", "boolean", "literal", "lazy", "any", "record", "intersection", "optional", "nullable", "undefined", "unknown", "never", "bigint", "date", "void", "promise"].join(": any; export const ")}: any;\nexport { _null as null }; declare const _null: any;\nexport type ZodTypeAny = any; export type infer<T> = any;\n`;
