// The real generated client on a simulated WebSocket, clock and server: every event is chosen by the seeded scheduler,
// a monitor follows what the client is obliged to do.
import { Rng } from "../rng.mjs";
import { Gen } from "../corpus.mjs";
import { Program, ts, z } from "../types.mjs";
import { prim, opt, vec, T, computeDepths } from "../spec.mjs";
import { Violation, Inconclusive } from "../util.mjs";

const tick = () => new Promise((r) => setImmediate(r));

export function clientProgram(tag) {
  const g = new Gen(new Rng("client"));
  const a = g.namespace("Ns"), b = g.namespace("Other", "other_ns");
  const s = prim("string"), n = prim("u32");
  const arg = (name, ty) => ({ name, id: name, ty });
  const method = (ns, name, args, kind = "method") => { const m = { ns, name, id: name, args, kind, ret: kind === "method" ? { how: "none", ty: prim("unit") } : { how: "thrice", i: 0, ty: args[0].ty } }; ns.methods.push(m); return m; };
  const methods = [
    method(a, "one", [arg("tag", n)]), method(a, "two", [arg("tag", n), arg("s", s)]), method(b, "one", [arg("tag", n), arg("o", opt(s))]), method(b, "list", [arg("tag", n), arg("v", vec(T("bset", { t: n })))]),
  ];
  const streams = [method(a, "numbers", [arg("tag", n)], "stream"), method(b, "words", [arg("tag", n), arg("s", s)], "stream")];
  computeDepths(g.decls);
  const p = Program.build(tag, tag, g, { what: "client program" });
  const out = ts.transpileModule(p.generate(), { reportDiagnostics: true, compilerOptions: { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.CommonJS } });
  const errs = (out.diagnostics ?? []).filter((d) => d.category === ts.DiagnosticCategory.Error);
  if (errs.length) throw new Violation(`the client is not valid TypeScript: ${ts.flattenDiagnosticMessageText(errs[0].messageText, "\n")}`, {});
  const factory = new Function("exports", "require", "WebSocket", "setTimeout", "clearTimeout", "setInterval", "clearInterval", "console", "globalThis", "window", "self", out.outputText);
  return { factory, methods, streams };
}

const quiet = Object.fromEntries(["log", "debug", "trace", "info", "warn", "error", "group", "groupEnd", "time", "timeEnd"].map((k) => [k, () => {}]));

/** one client with everything around it */
export class World {
  constructor(client, rng, profile) {
    this.rng = rng; this.profile = profile; this.client = client;
    this.now = 0; this.timers = new Map(); this.timerId = 0;
    this.sockets = []; this.trace = []; this.problems = [];
    this.calls = []; this.stores = []; this.serial = 0; this.ids = new Map();
    this.closes = 0; this.kills = 0;
    const world = this;
    this.WebSocket = class FakeSocket extends EventTarget {
      static CONNECTING = 0; static OPEN = 1; static CLOSING = 2; static CLOSED = 3;
      CONNECTING = 0; OPEN = 1; CLOSING = 2; CLOSED = 3;
      readyState = 0; bufferedAmount = 0; binaryType = "blob"; protocol = ""; extensions = "";
      constructor(url) { super(); this.url = String(url); this.n = world.sockets.length; this.inbox = []; this.outbox = []; world.sockets.push(this); world.log("socket", this.n); }
      send(data) {
        if (this.readyState === 0) throw new DOMException("still connecting", "InvalidStateError");
        if (this.readyState !== 1) { world.log("lost frame", this.n, data); return; }
        world.frame(this, String(data));
      }
      close() { if (this.readyState >= 2) return; this.readyState = 2; this.closedByClient = true; world.closes++; world.log("client closes", this.n); }
      fire(type, props = {}) {
        const e = Object.assign(new Event(type), props);
        const on = this[`on${type}`];
        // an exception in a handler does not stop the event
        try { if (typeof on === "function") on.call(this, e); } catch (x) { world.log("handler threw", String(x)); world.thrown = x; }
        this.dispatchEvent(e);
      }
    };
    const exports = {};
    const setT = (f, ms = 0, ...a) => { const id = ++this.timerId; this.timers.set(id, { at: this.now + (Number(ms) || 0), f: () => f(...a), id }); return id; };
    const clearT = (id) => { this.timers.delete(id); };
    const g = { WebSocket: this.WebSocket, setTimeout: setT, clearTimeout: clearT, console: quiet, performance };
    client.factory(exports, () => z, this.WebSocket, setT, clearT, (f, ms) => setT(f, ms), clearT, quiet, g, g, g);
    this.api = exports;
  }
  log(...x) { this.trace.push(x); }
  problem(kind, message) { if (this.problems.length < 10) this.problems.push({ kind, message, at: this.trace.length }); }

  // ---------------------------------------------------------- what the client sends
  frame(socket, data) {
    this.log("frame", socket.n, data);
    let m;
    try { m = JSON.parse(data); } catch { this.problem("frame", `a frame is not JSON: ${data}`); return; }
    if (m.exec) {
      const { id, method, namespace, args } = m.exec;
      const tag = Array.isArray(args) ? args[0] : undefined;
      const c = this.calls[tag] ?? null;
      if (!c) { this.problem("frame", `an unknown request is sent: ${data}`); return; }
      c.frames.push({ socket, id });
      if (c.frames.length > 1) this.problem(c.kind, `the request of call ${tag} is sent ${c.frames.length} times`);
      if (c.invalid) this.problem(c.kind, `call ${tag} with invalid arguments is sent`);
      if (!Number.isSafeInteger(id) || id < 0) this.problem(c.kind, `call ${tag} has the id ${id}`);
      if (this.ids.has(id) && this.ids.get(id) !== c) this.problem(c.kind, `the id ${id} is used by the calls ${this.ids.get(id).tag} and ${tag}`);
      this.ids.set(id, c);
      c.id = id; c.socket = socket;
      if (namespace !== c.m.ns.exported || method !== c.m.name) this.problem(c.kind, `call ${tag} of ${c.m.ns.exported}.${c.m.name} asks for ${namespace}.${method}`);
      if (JSON.stringify(args) !== JSON.stringify(c.wire)) this.problem(c.kind, `call ${tag} has the arguments ${JSON.stringify(args)} instead of ${JSON.stringify(c.wire)}`);
      // the server: a method is answered once, a stream emits some items
      if (c.kind === "method") socket.inbox.push(this.answer(c));
      else { c.running = socket; for (let i = this.rng.n(5); i > 0; i--) socket.inbox.push(this.item(c)); }
    } else if (m.cancelStream) {
      const c = this.ids.get(m.cancelStream.id);
      if (!c || c.kind !== "stream") { this.problem("stream", `a stream that was never started is cancelled: ${data}`); return; }
      c.cancels.push(socket);
      if (!c.closed) this.problem("stream", `stream ${c.tag} is cancelled, but was not closed`);
      if (c.cancels.length > 1) this.problem("stream", `stream ${c.tag} is cancelled ${c.cancels.length} times`);
      // items that are on their way may still arrive
      if (c.running === socket) c.running = null;
    } else this.problem("frame", `an unknown frame is sent: ${data}`);
  }
  answer(c) {
    const r = this.rng;
    if (r.p(0.15)) return { c, msg: { error: { id: c.id, data: { JsonError: `e${c.tag}` } } }, error: true };
    return { c, msg: { method: { id: c.id, data: r.pick([null, 0, false, "", c.tag, { tag: c.tag }, [c.tag], `r${c.tag}`, { id: c.id + 1, data: 1 }]) } } };
  }
  item(c) {
    const r = this.rng;
    c.produced = (c.produced ?? 0) + 1;
    if (r.p(0.06)) return { c, msg: { error: { id: c.id, data: { JsonError: "item" } } }, error: true };
    return { c, msg: { stream: { id: c.id, data: r.pick([null, 0, false, "", c.produced, { n: c.produced }, [c.tag, c.produced], "x", { error: 1 }]) } } };
  }

  // ---------------------------------------------------------- what the program does with the client
  call(m, from) {
    const tag = this.serial++;
    const r = this.rng;
    const rest = m.args.slice(1).map((a) => (a.ty.k === "opt" ? r.pick([undefined, "o"]) : a.ty.k === "vec" ? r.pick([[], [new Set([tag])]]) : r.pick(["", "x", `"${tag}`])));
    const wire = [tag, ...rest.map((x) => (x === undefined ? null : Array.isArray(x) ? x.map((y) => [...y]) : x))];
    const c = { tag, m, kind: m.kind, frames: [], wire, state: "pending", settled: 0, cancels: [], subs: [], items: 0 };
    this.calls[tag] = c;
    const f = this.api[m.ns.exported][m.name];
    this.log("call", tag, `${m.ns.exported}.${m.name}`, from ?? "");
    try {
      if (m.kind === "method") {
        const p = f(tag, ...rest);
        p.then((v) => { c.settled++; c.state = "resolved"; c.value = v; this.log("resolved", tag); if (r.p(this.profile.chain ?? 0)) this.act("then"); },
          (e) => { c.settled++; c.state = "rejected"; c.value = e; this.log("rejected", tag); if (r.p(this.profile.chain ?? 0)) this.act("catch"); });
      } else { c.store = f(tag, ...rest); c.state = "open"; this.stores.push(c); }
    } catch (e) { c.state = "threw"; this.problem(c.kind, `call ${tag} throws ${e}`); }
    return c;
  }
  subscribe(c) {
    const sub = { c, n: c.subs.length, active: true, got: [], from: this.delivery ?? null };
    c.subs.push(sub);
    this.log("subscribe", c.tag, sub.n);
    const callback = (value) => {
      sub.got.push(value);
      this.log("item", c.tag, sub.n);
      const d = this.delivery;
      if (!sub.active) this.problem("stream", `callback ${sub.n} of stream ${c.tag} is called after it was unsubscribed`);
      if (!d) this.problem("stream", `callback ${sub.n} of stream ${c.tag} is called although nothing arrived`);
      else {
        if (d.c !== c) this.problem("stream", `callback ${sub.n} of stream ${c.tag} is called for a message of call ${d.c?.tag}`);
        else if (d.error) this.problem("stream", `callback ${sub.n} of stream ${c.tag} is called for an error`);
        else if (JSON.stringify(value) !== JSON.stringify(d.msg.stream?.data)) this.problem("stream", `callback ${sub.n} of stream ${c.tag} is called with ${JSON.stringify(value)} instead of ${JSON.stringify(d.msg.stream?.data)}`);
        d.called.set(sub, (d.called.get(sub) ?? 0) + 1);
      }
      const r = this.rng;
      if (r.p(this.profile.reentrant ?? 0)) this.act("callback", sub);
    };
    try { sub.off = c.store.subscribe(callback); } catch (e) { this.problem("stream", `subscribing to stream ${c.tag} throws ${e}`); }
    if (typeof sub.off !== "function") { this.problem("stream", "subscribe() returns no function"); sub.off = () => {}; }
  }
  unsubscribe(sub) {
    if (!sub.active && !this.rng.p(0.2)) return;
    sub.active = false;
    sub.endedIn = this.delivery ?? null;
    this.log("unsubscribe", sub.c.tag, sub.n);
    try { sub.off(); } catch (e) { this.problem("stream", `unsubscribing from stream ${sub.c.tag} throws ${e}`); }
  }
  close(c) {
    // the state in which the client learns that the stream is closed
    if (!c.closed) {
      c.closed = true;
      c.closedOn = c.frames.length === 0 ? "queued" : c.socket.readyState === 1 ? c.socket : null;
    }
    this.log("close stream", c.tag);
    try { c.store.close(); } catch (e) { this.problem("stream", `closing stream ${c.tag} throws ${e}`); }
  }
  /** one action of the program */
  act(from, sub) {
    const r = this.rng, p = this.profile;
    const open = this.stores;
    const w = r.f() * (p.call + p.stream + p.sub + p.unsub + p.close);
    if (w < p.call) { if (this.serial < p.maxCalls) this.call(r.pick(this.client.methods), from); return; }
    if (w < p.call + p.stream || !open.length) { if (this.serial < p.maxCalls) { const c = this.call(r.pick(this.client.streams), from); if (c.store && r.p(0.8)) this.subscribe(c); } return; }
    const c = sub && r.p(0.5) ? sub.c : r.pick(open);
    if (w < p.call + p.stream + p.sub) { if (c.subs.length < 5) this.subscribe(c); } else if (w < p.call + p.stream + p.sub + p.unsub) { if (c.subs.length) this.unsubscribe(sub && r.p(0.4) ? sub : r.pick(c.subs)); } else this.close(c);
  }

  // ---------------------------------------------------------- what the environment does
  deliver(s, i) {
    const d = s.inbox.splice(i, 1)[0];
    d.called = new Map();
    const eligible = d.c?.kind === "stream" && !d.error ? d.c.subs.filter((x) => x.active) : [];
    const before = new Map(this.calls.filter((c) => c.kind === "method").map((c) => [c, c.settled]));
    this.log("deliver", s.n, JSON.stringify(d.msg));
    this.delivery = d;
    this.thrown = undefined;
    s.fire("message", { data: JSON.stringify(d.msg) });
    this.delivery = null;
    if (this.thrown) this.problem(d.c?.kind ?? "method", `the client throws at the message ${JSON.stringify(d.msg)}: ${this.thrown}`);
    if (d.c?.kind === "method") { d.c.answered = d; }
    if (d.c?.kind === "stream" && !d.error) {
      d.c.items++;
      for (const x of eligible) {
        const n = d.called.get(x) ?? 0;
        // unsubscribed by another callback meanwhile, or closed before: both are right
        const may0 = x.endedIn === d || d.c.closed;
        if (n > 1 || (n === 0 && !may0)) this.problem("stream", `callback ${x.n} of stream ${d.c.tag} is called ${n} times for one item`);
      }
      for (const [x, n] of d.called) if (n > 1) this.problem("stream", `callback ${x.n} of stream ${x.c.tag} is called ${n} times for one item`);
    }
    return before;
  }
  /** after the microtasks: exactly the answered call settles */
  judge(before) {
    for (const c of this.calls) {
      if (c.kind !== "method") continue;
      if (c.settled > 1) this.problem("method", `call ${c.tag} settles ${c.settled} times`);
      if (c.settled && !c.answered) { if (!c.reportedEarly) { c.reportedEarly = true; this.problem("method", `call ${c.tag} settles (${c.state} ${JSON.stringify(c.value)}) without an answer`); } continue; }
      if (c.answered && !c.judged) {
        c.judged = true;
        const m = c.answered.msg;
        if (!c.settled) this.problem("method", `call ${c.tag} does not settle after the answer ${JSON.stringify(m)}`);
        else if (m.error ? c.state !== "rejected" : c.state !== "resolved" || JSON.stringify(c.value) !== JSON.stringify(m.method.data)) this.problem("method", `call ${c.tag} is ${c.state} with ${JSON.stringify(c.value)} by the answer ${JSON.stringify(m)}`);
      }
    }
    void before;
  }
  /** the possible events, as functions */
  events() {
    const p = this.profile, out = [];
    const add = (w, f) => { if (w > 0) out.push([w, f]); };
    for (const s of this.sockets) {
      if (s.readyState === 0) {
        add(p.open, () => { s.readyState = 1; this.log("open", s.n); s.fire("open"); });
        add(p.fail, () => { this.kills++; s.readyState = 3; s.killed = true; this.log("cannot connect", s.n); s.fire("error"); s.fire("close", { code: 1006, wasClean: false }); });
      }
      if (s.readyState === 1) {
        if (s.inbox.length) add(p.deliver, () => this.deliver(s, this.rng.p(p.inOrder) ? 0 : this.firstOfSome(s)));
        for (const c of this.stores) if (c.running === s && (c.produced ?? 0) < 12) add(p.produce, () => { this.log("produce", c.tag); s.inbox.push(this.item(c)); });
        add(p.noise, () => { s.inbox.push({ c: null, msg: this.rng.pick([{ error: { id: null, data: { JsonError: "?" } } }, { error: { id: 999999, data: { JsonError: "?" } } }]), error: true }); });
        // the server closes: the socket is closing for a while before the close event
        add(p.closing ?? 0, () => { this.kills++; s.readyState = 2; s.killed = true; s.inbox.length = 0; for (const c of this.stores) if (c.running === s) c.running = null; this.log("server closes", s.n); });
        add(p.kill, () => { this.kills++; s.readyState = 3; s.killed = true; s.inbox.length = 0; for (const c of this.stores) if (c.running === s) c.running = null; this.log("connection lost", s.n); s.fire("close", { code: 1006, wasClean: false }); });
      }
      if (s.readyState === 2) add(p.closed, () => { s.readyState = 3; s.inbox.length = 0; for (const c of this.stores) if (c.running === s) c.running = null; this.log("closed", s.n); s.fire("close", { code: 1005, wasClean: true }); });
    }
    if (this.timers.size) add(p.timer, () => this.fireTimer());
    return out;
  }
  /** answers may come in any order, items of one stream not */
  firstOfSome(s) {
    const seen = new Set(), firsts = [];
    s.inbox.forEach((d, i) => { if (!seen.has(d.c) || !d.c) { seen.add(d.c); firsts.push(i); } });
    return this.rng.pick(firsts);
  }
  fireTimer() {
    const t = [...this.timers.values()].sort((a, b) => a.at - b.at || a.id - b.id)[0];
    this.timers.delete(t.id);
    this.now = Math.max(this.now, t.at);
    this.log("timer", t.at);
    try { t.f(); } catch (e) { this.problem("method", `a timer of the client throws ${e}`); }
  }
  pick(list) {
    let w = this.rng.f() * list.reduce((a, [x]) => a + x, 0);
    for (const [x, f] of list) { if ((w -= x) < 0) return f; }
    return list.at(-1)[1];
  }
  async step() {
    const list = this.events();
    list.push([this.profile.act, () => this.act("main")]);
    const before = this.pick(list)();
    // within a burst no promise reaction runs between the events
    if (this.rng.p(this.profile.burst ?? 0)) return;
    await tick();
    this.judge(before);
  }
  /** let everything that is on its way happen, then check what must have happened */
  async drain() {
    this.profile = { ...this.profile, fail: 0, kill: 0, closing: 0, noise: 0, produce: 0, act: 0, chain: 0, reentrant: 0 };
    await tick(); this.judge();
    for (let i = 0; i < 3000; i++) {
      const list = this.events();
      if (!list.length) break;
      this.pick(list)();
      await tick();
      this.judge();
      if (i === 2999) this.problem("method", "the client never comes to rest");
    }
    for (const c of this.calls) {
      if (!c || c.state === "threw") continue;
      if (c.frames.length === 0) this.problem(c.kind, `the request of call ${c.tag} is never sent`);
      if (c.kind === "method" && c.frames.length && !c.settled && !c.socket.killed) this.problem("method", `call ${c.tag} never settles although the connection was not lost (closed by the client: ${!!c.socket.closedByClient})`);
      if (c.kind === "stream") {
        if (c.closed && c.closedOn === "queued" && c.frames.length && !c.socket.killed && !c.socket.closedByClient && c.cancels.length !== 1) this.problem("stream", `stream ${c.tag}, closed before its request was sent, is cancelled ${c.cancels.length} times`);
        if (c.closed && c.closedOn && c.closedOn !== "queued" && c.cancels[0] !== c.closedOn) this.problem("stream", `stream ${c.tag} was closed while its connection was open, but cancelled ${c.cancels.length ? "on another connection" : "never"}`);
        if (!c.closed && c.cancels.length) this.problem("stream", `stream ${c.tag} was cancelled without being closed`);
      }
    }
  }
}

const BASE = { act: 3, call: 4, stream: 1, sub: 1, unsub: 1, close: 0.5, open: 2, fail: 0, deliver: 3, produce: 0.4, noise: 0.05, kill: 0, closed: 1, timer: 0.7, inOrder: 0.5, burst: 0.1, chain: 0.1, reentrant: 0.05, maxCalls: 60 };
export const PROFILES = {
  // requests, answered in any order
  requests: { ...BASE, stream: 0, sub: 0, unsub: 0, close: 0, inOrder: 0.2 },
  // mostly idle: the connection is closed and opened again all the time
  idle: { ...BASE, act: 0.6, deliver: 4, open: 4, closed: 0.6, stream: 0.3 },
  // the close event comes long after the next socket was created
  lateClose: { ...BASE, act: 1.5, closed: 0.08, deliver: 5, open: 5, stream: 0.2 },
  // slow connections: everything queues
  slowOpen: { ...BASE, open: 0.15, act: 2, deliver: 4 },
  // connecting fails now and then
  flaky: { ...BASE, fail: 1, open: 1, act: 2, timer: 1.5 },
  // connections are lost, too
  lossy: { ...BASE, fail: 0.5, kill: 0.3, timer: 1.5 },
  // the server closes connections
  shutDown: { ...BASE, fail: 0.2, kill: 0.1, closing: 0.3, closed: 0.4, timer: 1.5 },
  streams: { ...BASE, call: 1, stream: 2, sub: 2, unsub: 2, close: 1, produce: 1.5, reentrant: 0.2, deliver: 4, maxCalls: 40 },
  fanout: { ...BASE, call: 0.3, stream: 0.5, sub: 4, unsub: 2, close: 0.3, produce: 2, reentrant: 0.15, deliver: 5, maxCalls: 12 },
  churn: { ...BASE, call: 1, stream: 3, sub: 1, unsub: 1.5, close: 3, produce: 0.5, open: 1, maxCalls: 60 },
  quietStreams: { ...BASE, call: 1, stream: 2, sub: 1, unsub: 2, close: 2, produce: 0.2, open: 0.3, closed: 0.3 },
  mixed: { ...BASE, chain: 0.3, reentrant: 0.2, burst: 0.3 },
};

/** run scenarios; kinds: the problems this check reports */
export async function simulate(report, conf, { tag, profiles, kinds, count, seed }) {
  const client = clientProgram(tag);
  process.removeAllListeners("unhandledRejection");
  process.on("unhandledRejection", () => {});
  for (let i = 0; i < count; i++) {
    const name = profiles[i % profiles.length];
    const rng = new Rng(`${tag}:${seed}:${i}`);
    const w = new World(client, rng, PROFILES[name]);
    const steps = rng.pick([15, 40, 80, 160]);
    for (let k = 0; k < steps; k++) await w.step();
    await w.drain();
    const key = w.trace.map((t) => t.slice(0, 2).join(" ")).join("|");
    report.eval(w.calls.length > 1 ? key : null);
    report.count(`scenarios ${name}`);
    report.count("calls", w.calls.filter((c) => c.kind === "method").length);
    report.count("streams", w.stores.length);
    report.count("answers", w.calls.filter((c) => c.judged).length);
    report.count("items delivered", w.stores.reduce((a, c) => a + c.items, 0));
    report.count("callback calls", w.stores.reduce((a, c) => a + c.subs.reduce((b, x) => b + x.got.length, 0), 0));
    report.count("cancels", w.stores.reduce((a, c) => a + c.cancels.length, 0));
    report.count("sockets", w.sockets.length);
    report.count("closed by the client", w.closes);
    report.count("lost or refused connections", w.kills);
    report.count("events", w.trace.length);
    for (const p of w.problems) if (kinds.includes(p.kind)) { report.violation(`scenario ${i} (${name}): ${p.message}`, { trace: w.trace.slice(Math.max(0, p.at - 60), p.at + 2).map((t) => t.join(" ")) }); break; }
    if (i % 701 === 5) report.sample({ profile: name, events: w.trace.slice(0, 14).map((t) => t.join(" ")) });
    if (report.violations.length >= 6) return;
  }
  void Inconclusive;
}

/** very many calls or streams on one client: what only shows beyond a number of them */
export async function bulk(report, { tag, kind, seed, total, outstanding }) {
  const client = clientProgram(`${tag}`);
  process.removeAllListeners("unhandledRejection");
  process.on("unhandledRejection", () => {});
  const rng = new Rng(`${tag}:bulk:${seed}`);
  const w = new World(client, rng, { ...PROFILES.requests, chain: 0 });
  w.log = () => {};
  const kinds = [kind, "frame"];
  const connect = () => { for (const s of w.sockets) { if (s.readyState === 0) { s.readyState = 1; s.fire("open"); } if (s.readyState === 2) { s.readyState = 3; s.fire("close", { code: 1005, wasClean: true }); } } };
  let max = 0, settled = 0, items = 0;
  if (kind === "method") {
    while (settled < total && !w.problems.some((p) => kinds.includes(p.kind))) {
      // in waves: now and then everything is answered, so that the connection is closed in between
      const goal = Math.min(total - settled, 1 + rng.n(outstanding));
      const inbox = [];
      for (let i = 0; i < goal; i++) w.call(rng.pick(client.methods));
      connect(); await tick(); connect();
      for (const s of w.sockets) inbox.push(...s.inbox.splice(0).map((d) => [s, d]));
      max = Math.max(max, inbox.length);
      if (inbox.length !== goal) { w.problem("method", `${goal} calls send ${inbox.length} requests (${w.serial} calls so far)`); break; }
      inbox.splice(0, inbox.length, ...rng.shuffle(inbox));
      const keep = inbox.length > 1 ? rng.n(inbox.length) : 0;
      let done = 0;
      for (const [s, d] of inbox) {
        d.c.answered = d;
        s.fire("message", { data: JSON.stringify(d.msg) });
        if (done++ % 97 === 0 || done > inbox.length - 3 || done === keep) {
          await tick();
          const early = inbox.slice(done, done + 50).find(([, x]) => x.c.settled);
          if (early) w.problem("method", `call ${early[1].c.tag} (id ${early[1].c.id}) settles by the answer to another call, of ${inbox.length} outstanding ones`);
        }
      }
      await tick();
      w.sockets = w.sockets.filter((s) => s.readyState !== 3);
      for (const [, { c, msg }] of inbox) {
        settled++;
        if (c.settled !== 1) w.problem("method", `call ${c.tag} (id ${c.id}) of ${inbox.length} outstanding ones settles ${c.settled} times`);
        else if (msg.error ? c.state !== "rejected" : c.state !== "resolved" || JSON.stringify(c.value) !== JSON.stringify(msg.method.data)) w.problem("method", `call ${c.tag} (id ${c.id}) is ${c.state} with ${JSON.stringify(c.value)} by the answer ${JSON.stringify(msg)}`);
        w.calls[c.tag] = { ...c, store: undefined };
      }
    }
    report.count("bulk calls", settled);
    report.counts["bulk calls outstanding at most"] = Math.max(report.counts["bulk calls outstanding at most"] ?? 0, max);
  } else {
    const all = [];
    for (let i = 0; i < total; i++) {
      const c = w.call(rng.pick(client.streams));
      if (!c.store) break;
      const got = [];
      c.store.subscribe((v) => got.push(v));
      all.push({ c, got, sent: [] });
    }
    connect(); await tick(); connect();
    for (const s of w.sockets) s.inbox.length = 0;
    for (let i = 0; i < outstanding; i++) {
      const x = i % 3 ? rng.pick(all) : all[0];
      const data = rng.pick([i, i, null, x.sent.at(-1) ?? 0]);
      x.sent.push(data); items++;
      x.c.socket?.fire("message", { data: JSON.stringify({ stream: { id: x.c.id, data } }) });
    }
    for (const { c, got, sent } of all) if (JSON.stringify(got) !== JSON.stringify(sent)) { w.problem("stream", `of ${total} streams stream ${c.tag} (id ${c.id}) gets ${got.length} items, ${sent.length} were sent (first difference at ${got.findIndex((v, k) => v !== sent[k])})`); }
    report.count("bulk streams", all.length);
    report.count("bulk items", items);
  }
  report.eval(`bulk ${kind} ${seed}`);
  for (const p of w.problems) if (kinds.includes(p.kind)) { report.violation(`bulk of ${total} ${kind}s: ${p.message}`, { seed, total, outstanding }); break; }
}
