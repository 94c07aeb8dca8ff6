import { spawnSync, spawn } from "node:child_process";
import { createHash } from "node:crypto";
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";

export const VERIF = path.resolve(path.dirname(fileURLToPath(import.meta.url)), "..");
export const REPO = process.env.VERIF_REPO || "/repo";
export const TARGET = path.join(VERIF, "target");
export const WORK = path.join(VERIF, "work");
export const NODE_MODULES = "/opt/veriftools/node/node_modules";

export function seedAndTier(argv) {
  let seed = Number.parseInt(process.env.VERIF_SEED ?? "1", 10);
  if (!Number.isFinite(seed)) seed = 1;
  let tier = argv[3] || process.env.VERIF_TIER || "quick";
  if (tier !== "thorough") tier = "quick";
  return { seed, tier };
}

/** the property is broken; carries everything needed to replay */
export class Violation extends Error {
  constructor(message, detail = {}) { super(message); this.detail = detail; }
}
/** the check could not decide (never reported as a violation) */
export class Inconclusive extends Error {}

export function mkdirp(d) { fs.mkdirSync(d, { recursive: true }); return d; }

/** Hash of everything that the build of the repository depends on. */
function repoHash() {
  const h = createHash("sha256");
  const visit = (dir) => {
    for (const e of fs.readdirSync(dir, { withFileTypes: true }).sort((a, b) => (a.name < b.name ? -1 : 1))) {
      if ([".git", "target", "node_modules", "tests"].includes(e.name)) continue;
      const p = path.join(dir, e.name);
      if (e.isDirectory()) visit(p);
      else if (e.isFile() && /\.(rs|ts|toml|md)$/.test(e.name)) { h.update(p); h.update("\0"); h.update(fs.readFileSync(p)); }
    }
  };
  visit(REPO);
  return h.digest("hex");
}

const CARGO_ENV = {
  ...process.env,
  CARGO_TARGET_DIR: TARGET,
  CARGO_NET_OFFLINE: "true",
  CARGO_INCREMENTAL: "0",
  CARGO_PROFILE_DEV_DEBUG: "0",
  CARGO_TERM_COLOR: "never",
  RUSTFLAGS: "-Awarnings",
  RUST_BACKTRACE: "0",
};

export function cargo(args, opts = {}) {
  return spawnSync("cargo", args, {
    encoding: "utf8", maxBuffer: 1 << 28, timeout: opts.timeout ?? 700_000,
    ...opts, env: { ...CARGO_ENV, ...(opts.env || {}) },
  });
}

/** Never trust file times: forget the artifacts of the repository's crates whenever its contents changed. */
export function freshen(crateDir) {
  mkdirp(TARGET);
  const stamp = path.join(TARGET, "repo.sha256");
  const now = repoHash();
  let old = null;
  try { old = fs.readFileSync(stamp, "utf8"); } catch { /* first build */ }
  if (old !== now) {
    if (old !== null || fs.existsSync(path.join(TARGET, "debug"))) {
      const r = cargo(["clean", "--offline", "-p", "zod", "-p", "zod-core", "-p", "zod-derive"], { cwd: crateDir });
      if (r.status !== 0) fs.rmSync(path.join(TARGET, "debug"), { recursive: true, force: true });
    }
    fs.writeFileSync(stamp, now);
  }
  return now;
}

export function seedLock(crateDir) {
  const lock = path.join(crateDir, "Cargo.lock");
  if (!fs.existsSync(lock)) fs.copyFileSync(path.join(VERIF, "harness", "Cargo.lock.base"), lock);
}

/** Does the repository itself build? Separates an unsupported tree from a violation. */
export function repoBuilds(crateDir) {
  const r = cargo(["build", "--offline", "-p", "zod"], { cwd: crateDir });
  return { ok: r.status === 0, err: tail(r.stderr || "", 3000), signal: r.signal || r.error };
}

/** Build one binary of a harness crate. A failure while the repository itself builds is a violation. */
export function buildBin(crateDir, bin, what) {
  seedLock(crateDir);
  freshen(crateDir);
  const r = cargo(["build", "--offline", "--bin", bin], { cwd: crateDir });
  if (r.status !== 0) {
    if (r.error || r.signal) throw new Inconclusive(`cargo did not finish: ${r.error || r.signal}`);
    const repo = repoBuilds(crateDir);
    if (!repo.ok) throw new Inconclusive(`the repository does not build:\n${repo.err}`);
    const errs = tail((r.stderr || "").split("\n").filter((l) => !/^\s*(Compiling|Updating|Locking|Adding)/.test(l)).join("\n"), 6000);
    if (/error(\[E\d+\])?:|panicked|overflow/.test(errs)) throw new Violation(`${what}: supported declarations do not compile`, { stderr: errs });
    throw new Inconclusive(`build of ${bin} failed:\n${errs}`);
  }
  return path.join(TARGET, "debug", bin);
}

export function tail(s, n) { return s.length > n ? "..." + s.slice(-n) : s; }
export function head(s, n) { return s.length > n ? s.slice(0, n) + "..." : s; }

export { spawn, spawnSync };

/** JSON with the values JSON lacks, for replay files and samples */
export function show(v) {
  const enc = (x) => {
    if (x === undefined) return { $: "undefined" };
    if (typeof x === "number" && !Number.isFinite(x)) return { $: String(x) };
    if (typeof x === "bigint") return { $bigint: String(x) };
    if (x instanceof Map) return { $map: [...x].map(([a, b]) => [enc(a), enc(b)]) };
    if (x instanceof Set) return { $set: [...x].map(enc) };
    if (Array.isArray(x)) return x.map(enc);
    if (x && typeof x === "object") return Object.fromEntries(Object.entries(x).map(([k, w]) => [k, enc(w)]));
    return x;
  };
  return enc(v);
}

export class Report {
  constructor(property, { seed, tier }, level, rule) {
    this.property = property; this.seed = seed; this.tier = tier; this.level = level; this.rule = rule;
    this.start = Date.now();
    this.evaluations = 0; this.distinct = new Set(); this.counts = {}; this.samples = []; this.violations = [];
    this.known = []; this.assumptions = []; this.info = {};
  }
  count(k, n = 1) { this.counts[k] = (this.counts[k] || 0) + n; }
  /** one evaluated case; key identifies it for counting distinct ones (null: trivial) */
  eval(key) {
    this.evaluations++;
    if (key != null) this.distinct.add(key.length > 64 ? createHash("sha1").update(key).digest("base64") : key);
  }
  sample(s, max = 6) { if (this.samples.length < max) this.samples.push(s); }
  violation(message, detail = {}) {
    if (this.violations.length < 20) this.violations.push({ message, detail });
    else this.violations.length = 20;
  }
  write() {
    mkdirp(path.join(VERIF, "evidence"));
    const coverage = {
      evaluations: this.evaluations, distinct_nontrivial: this.distinct.size, rule: this.rule,
      samples: this.samples, observed: this.counts, ...this.info,
    };
    fs.writeFileSync(path.join(VERIF, "evidence", `${this.property}.json`), JSON.stringify({
      property: this.property, tier: this.tier, seed: this.seed, level: this.level, coverage,
      assumptions: this.assumptions, wall_s: (Date.now() - this.start) / 1000, violations: this.violations.length,
    }, null, 1) + "\n");
  }
  finish() {
    if (!this.evaluations && !this.violations.length) throw new Inconclusive("nothing was observed");
    this.write();
    for (const k of this.known) console.log(`KNOWN-FINDING: property=${this.property} ${k}`);
    if (this.violations.length) {
      mkdirp(path.join(VERIF, "replays"));
      const file = path.join("replays", `${this.property}-${this.seed}-${this.tier}.json`);
      fs.writeFileSync(path.join(VERIF, file), JSON.stringify({
        property: this.property, seed: this.seed, tier: this.tier,
        rerun: `VERIF_SEED=${this.seed} node check.mjs ${this.property} ${this.tier}`,
        violations: this.violations.map((v) => ({ message: v.message, detail: show(v.detail) })),
      }, null, 1) + "\n");
      for (const v of this.violations.slice(0, 5)) console.log(`  ${head(v.message, 600)}`);
      console.log(`VIOLATION property=${this.property} replay=${file}`);
      return 1;
    }
    console.log(`OK property=${this.property} evaluations=${this.evaluations} distinct=${this.distinct.size} ${head(JSON.stringify(this.counts), 600)}`);
    return 0;
  }
}
