// The real generated client in this process talks to the real server in another one, through a recording WebSocket.
import path from "node:path";
import { Rng } from "../rng.mjs";
import { Gen } from "../corpus.mjs";
import { Program, loadModule } from "../types.mjs";
import { gen, revive, same, toJson, tup, computeDepths, Mismatch, settings, vec, opt, prim, T } from "../spec.mjs";
import { outOfScope } from "./common.mjs";
import { silence, resolve as _ } from "./c06.mjs";
import { spawn, Inconclusive, Violation, tail } from "../util.mjs";
void _;

/** the server process of a program with the trace of the calls it ran */
export class Server {
  constructor(bin) {
    this.calls = [];
    this.proc = spawn(bin, ["serve"], { stdio: ["pipe", "pipe", "pipe"] });
    this.err = "";
    this.proc.stderr.on("data", (d) => { this.err = tail(this.err + d, 4000); });
    let buf = "";
    this.ready = new Promise((ok, no) => {
      this.proc.on("exit", (code, sig) => { this.dead = `server ended with ${sig ?? code}`; no(new Violation(this.dead, { stderr: this.err })); });
      this.proc.stdout.on("data", (d) => {
        buf += d;
        let i;
        while ((i = buf.indexOf("\n")) >= 0) {
          const l = buf.slice(0, i); buf = buf.slice(i + 1);
          if (l.startsWith("PORT ")) { this.port = Number(l.slice(5)); ok(this); }
          else if (l.startsWith("CALL ")) this.calls.push(JSON.parse(l.slice(5)));
        }
      });
    });
    this.ready.catch(() => {});
  }
  stop() { this.proc.stdin.end(); this.proc.kill("SIGKILL"); }
}

const Native = globalThis.WebSocket;
/** route the client's sockets to this port and record what passes */
export function recorder(port) {
  const rec = { sent: [], received: [], sockets: 0 };
  globalThis.WebSocket = class extends Native {
    constructor(url) {
      const u = new URL(url);
      u.hostname = "127.0.0.1"; u.port = String(port);
      super(u.href);
      rec.sockets++;
      this.addEventListener("message", (e) => rec.received.push(String(e.data)));
    }
    send(x) { rec.sent.push(x); super.send(x); }
  };
  return rec;
}
export const sleep = (ms) => new Promise((r) => setTimeout(r, ms));
export async function until(cond, ms, what) {
  const end = Date.now() + ms;
  while (!cond()) { if (Date.now() > end) return false; await sleep(2); }
  void what;
  return true;
}

/** a program with many signatures; returns everything needed to call them */
export async function start(tag, seed, conf, { methods }) {
  settings.fround = true;
  const rng = new Rng(`${tag}:${seed}`);
  // the arguments and results of methods need no Debug
  const g = new Gen(rng.sub("decls"), { rpc: true, noDebug: true });
  const nss = [g.namespace("Alpha"), g.namespace("Beta", "beta_ns"), g.namespace("Left", "Right"), g.namespace("Right", "Left"), g.namespace("Wide", "Alpha2"), g.namespace("Lower", "alpha"), g.namespace("Beta2", "a_beta_ns")];
  nss[1].unit = false;
  for (let i = 0; i < 45; i++) g.any({});
  g.recursive(5, { ns: nss[0] });
  // names that generated code could use, too, referred to without a path
  for (const name of ["AlphaReq", "LeftReq", "S", "T", "D", "Req", "Error", "Response", "Namespace0"]) g.struct({ ns: rng.pick(nss), name, mod: null, plain: true, style: "named" }).bare = true;
  computeDepths(g.decls);
  const bare = g.decls.filter((d) => d.bare);
  const n = prim("u8"), s = prim("string");
  const fixed = [[], [opt(n)], [n, opt(s)], [opt(n), n], [T("hset", { t: n })], [T("bmap", { kt: prim("u32"), t: s })], [T("hmap", { kt: s, t: opt(n) })], [prim("u128")], [vec(vec(opt(n)))], [tup(n, s)], [prim("unit")], [prim("f64"), prim("char")], [T("res", { t: n, e: s })], [T("res", { t: n, e: prim("unit") })], [T("res", { t: prim("unit"), e: n })], [T("bset", { t: s }), T("bset", { t: s })], [prim("bool"), prim("bool"), prim("bool")], [T("arr", { t: n, n: 2 })], [T("phantom", { t: n })]];
  for (const ts of fixed) {
    const m = g.method(rng.pick(nss), { n: ts.length, kind: "method", ctx: { noRefs: true } });
    m.args.forEach((a, i) => { a.ty = ts[i]; });
    m.ret = ts.length ? rng.pick([{ how: "all", ty: tup(...ts) }, { how: "echo", i: 0, ty: ts[0] }]) : { how: "none", ty: prim("unit") };
  }
  for (let i = 0; i < methods; i++) g.method(rng.pick(nss));
  // every number of arguments for calls and for streams
  for (const n of [0, 1, 2, 3, 4, 5, 9]) for (const kind of ["method", "stream", "stream"]) g.method(rng.pick(nss), { n, kind });
  // equal names in different namespaces with different signatures
  for (const ns of nss) g.method(ns, { name: "shared" });
  for (const ns of nss) for (const kind of ["method", "stream", "stream"]) g.method(ns, { kind, n: 2, ctx: { pool: bare, pred: (t) => t.k === "ref" || (t.t?.k === "ref") } });
  g.method(nss[0], { name: "stream_of_nothing", kind: "stream", n: 0 });
  // two methods with the same signature next to each other
  for (const ns of nss.slice(0, 2)) { const a = g.method(ns, { name: "twin_a", kind: "method" }); const b = g.method(ns, { name: "twin_b", kind: "method", n: 0 }); b.args = a.args; b.ret = a.ret; }
  const all = nss.flatMap((ns) => ns.methods);
  for (const m of all) { m.tuple = tup(...m.args.map((a) => a.ty)); m.where = `${m.ns.exported}.${m.name}`; }
  const p = Program.build(tag, tag, g, { extraRoots: all.filter((m) => m.args.length).map((m) => m.tuple), what: "program with RPC methods" });
  for (const m of all) m.root = p.roots.find((r) => r.ty === m.tuple);
  silence();
  console.error = () => {};
  // argument lists in the form in which serde returns them
  const cases = [];
  for (const m of all) {
    const vr = rng.sub(m.where);
    for (let j = 0; j < (conf.tier === "thorough" ? 25 : 14); j++) {
      const v = m.args.map((a) => gen(a.ty, vr, 1 + (j % 4)));
      if (!outOfScope(v)) cases.push({ m, v });
      if (!m.args.length && j > 1) break;
    }
  }
  const asked = cases.filter((c) => c.m.root);
  p.serde(asked.map((c) => ({ root: c.m.root.index, doc: toJson(c.v), mode: "v" }))).forEach((r, j) => {
    if (r.ok === undefined) { asked[j].refused = r.err; return; }
    try { asked[j].v = revive(asked[j].m.tuple, JSON.parse(r.ok)); } catch (e) { if (!(e instanceof Mismatch)) throw e; asked[j].refused = "representation"; }
  });
  const refused = cases.filter((c) => c.refused).length;
  if (refused > cases.length / 20) throw new Inconclusive(`the server type refuses ${refused} of ${cases.length} argument lists: ${cases.find((c) => c.refused).refused}`);
  const server = new Server(p.bin);
  await server.ready;
  const rec = recorder(server.port);
  const mod = await loadModule(p.generate(), path.join(p.crate, "gen"));
  for (const m of all) {
    m.f = mod[m.ns.exported]?.[m.name];
    if (typeof m.f !== "function") { server.stop(); throw new Violation(`${m.where} is not exported`, {}); }
  }
  return { rng, g, p, all, cases: cases.filter((c) => !c.refused), server, rec, mod };
}

/** the JSON form of what the method returns, in the documented representation */
export function expected(m, args) {
  switch (m.ret.how) {
    case "none": case "unit": return null;
    case "echo": return args[m.ret.i];
    case "ok": return { Ok: args[m.ret.i] };
    case "err": return { Err: args[m.ret.i] };
    case "fixed": return [1, 2, 3];
    case "all": return args;
    case "items": return args[m.ret.i];
    case "thrice": return [args[m.ret.i], args[m.ret.i], args[m.ret.i]];
  }
}
export function readAs(t, json) {
  try { return { v: revive(t, json) }; } catch (e) { if (!(e instanceof Mismatch)) throw e; return { bad: e.message }; }
}
export { same };
