//! One scenario: connections that call, subscribe, cancel, misbehave and leave, in an order chosen by the generator.
use crate::api::{op, server, Ev, Plan, Server, Trace};
use crate::hostile::{self, Expect};
use crate::rng::Rng;
use futures::channel::mpsc::{unbounded, UnboundedReceiver, UnboundedSender};
use futures::{FutureExt, SinkExt, StreamExt};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio_tungstenite::tungstenite::Message;
use zod::rpc::{Backend, SubscriberMap};
use zod::rpc::servers::proxy::{BackendProxy, ProxyRx, ProxyTx};
use zod::rpc::{Request, Response};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    /// `handle_request` and `SubscriberMap`, as in a custom server
    Raw,
    /// `BackendProxy`, one thread, virtual time
    Proxy,
    /// `BackendProxy`, several threads
    Threads,
    /// the WebSocket endpoint, several threads
    Ws,
    /// the WebSocket endpoint on one thread
    Ws1,
}
impl Mode {
    pub fn det(self) -> bool {
        matches!(self, Mode::Raw | Mode::Proxy)
    }
    pub fn ws(self) -> bool {
        matches!(self, Mode::Ws | Mode::Ws1)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Profile {
    pub name: &'static str,
    pub connect: f64,
    pub call: f64,
    pub stream: f64,
    pub cancel: f64,
    pub hostile: f64,
    pub leave: f64,
    pub frames: f64,
    pub http: f64,
    pub max_cons: usize,
    /// methods that take long
    pub slow: f64,
    pub bad: f64,
}
const BASE: Profile = Profile { name: "mixed", connect: 0.6, call: 4.0, stream: 1.5, cancel: 1.0, hostile: 0.5, leave: 0.3, frames: 0.5, http: 0.1, max_cons: 6, slow: 0.4, bad: 0.15 };
pub const PROFILES: &[Profile] = &[
    BASE,
    Profile { name: "calls", stream: 0.2, cancel: 0.1, hostile: 0.3, leave: 0.0, call: 8.0, frames: 0.1, ..BASE },
    Profile { name: "slow", stream: 0.3, cancel: 0.1, hostile: 0.1, leave: 0.1, call: 6.0, slow: 0.9, frames: 0.1, max_cons: 10, ..BASE },
    Profile { name: "hostile", hostile: 6.0, call: 2.0, stream: 0.5, cancel: 0.3, leave: 0.1, http: 0.6, ..BASE },
    Profile { name: "leaving", leave: 2.0, connect: 2.0, call: 4.0, stream: 2.0, slow: 0.6, http: 0.3, max_cons: 10, ..BASE },
    Profile { name: "streams", stream: 5.0, cancel: 0.0, call: 1.5, hostile: 0.2, leave: 0.0, bad: 0.4, ..BASE },
    Profile { name: "cancelling", stream: 4.0, cancel: 5.0, call: 1.0, hostile: 0.1, leave: 0.1, ..BASE },
    Profile { name: "releasing", stream: 4.0, cancel: 1.0, call: 1.0, hostile: 0.0, leave: 2.0, connect: 2.0, max_cons: 10, ..BASE },
    Profile { name: "frames", frames: 5.0, call: 3.0, stream: 1.0, cancel: 0.5, hostile: 0.5, leave: 0.4, connect: 1.0, ..BASE },
    Profile { name: "single", connect: 0.0, max_cons: 1, leave: 0.0, ..BASE },
];

#[derive(Clone, Debug)]
pub enum Kind {
    Method { ns: &'static str, f: &'static str, n: i64 },
    Stream { plan: Plan, bad: bool, finite: bool },
    Cancel { target: Option<u64> },
    Bad(Expect),
}
#[derive(Clone, Debug)]
pub struct Req {
    pub con: usize,
    pub id: u64,
    pub key: u64,
    pub kind: Kind,
    pub probe: bool,
    /// index into the trace
    pub at: usize,
    /// it was not certain that the frame leaves
    pub doubtful: bool,
}

type WsTx = futures::stream::SplitSink<tokio_tungstenite::WebSocketStream<tokio::net::TcpStream>, Message>;
enum Link {
    Raw { tx: UnboundedSender<Response>, rx: UnboundedReceiver<Response>, map: SubscriberMap },
    Proxy { tx: ProxyTx, rx: ProxyRx },
    Task { tx: ProxyTx, reader: tokio::task::JoinHandle<()>, stop: Arc<tokio::sync::Notify> },
    Ws { tx: WsTx, reader: tokio::task::JoinHandle<()>, stall: Arc<AtomicBool>, end: Arc<AtomicBool> },
    Gone,
}
pub struct Con {
    link: Link,
    pub gone: Option<usize>,
    /// the other side ended it
    pub ended: Arc<AtomicBool>,
    ids: Vec<u64>,
    bad_ids: HashSet<u64>,
    err_ids: HashSet<u64>,
    pub kept: Option<ProxyTx>,
}

pub struct World {
    pub t: Arc<Trace>,
    pub r: Rng,
    pub mode: Mode,
    pub p: Profile,
    pub cons: Vec<Con>,
    pub reqs: Vec<Req>,
    backend: Option<Server>,
    proxy: Option<BackendProxy>,
    port: u16,
    server: Option<tokio::task::JoinHandle<()>>,
    next_key: u64,
    next_gate: u32,
    gates: Vec<u32>,
    id_style: usize,
    pub problems: Vec<(&'static str, String)>,
    pub pings: Vec<(usize, Vec<u8>)>,
    pub stopped_at: usize,
    /// items that endless streams had produced by then
    due: Vec<(u64, usize)>,
    /// requests that are going to be sent at the same time
    batch: Option<Vec<(usize, String)>>,
    /// many ready items in a row
    pub floods: bool,
    /// large transfers that are still to come
    gluts: usize,
    huge: usize,
}

fn text_of(resp: &Response) -> String {
    serde_json::to_string(resp).expect("a response is JSON")
}

impl World {
    pub async fn new(mode: Mode, p: Profile, mut r: Rng) -> World {
        let t = Arc::new(Trace::default());
        t.paced.store(!mode.det(), Ordering::SeqCst);
        let b = server(&t);
        let id_style = r.n(4);
        let floods = r.p(0.5);
        let (gluts, huge) = if mode.ws() { ((p.name == "frames" && r.p(0.1)) as usize, r.p(0.12) as usize * 2) } else { (0, 0) };
        let mut w = World {
            t, r, mode, p, cons: vec![], reqs: vec![], backend: None, proxy: None, port: 0, server: None, next_key: 1, next_gate: 0, gates: vec![], id_style, problems: vec![],
            pings: vec![], stopped_at: 0, due: vec![], batch: None, floods, gluts, huge,
        };
        match mode {
            Mode::Raw => w.backend = Some(b),
            Mode::Proxy | Mode::Threads => w.proxy = Some(BackendProxy::new(b)),
            Mode::Ws | Mode::Ws1 => {
                let app = axum::Router::new()
                    .route("/ws", axum::routing::get(zod::rpc::servers::axum::websocket_handler))
                    .layer(axum::extract::Extension(BackendProxy::new(b)));
                let srv = axum::Server::bind(&"127.0.0.1:0".parse().unwrap()).serve(app.into_make_service());
                w.port = srv.local_addr().port();
                w.server = Some(tokio::spawn(async move {
                    let _ = srv.await;
                }));
            }
        }
        w
    }

    fn problem(&mut self, kind: &'static str, msg: String) {
        if self.problems.len() < 12 {
            self.problems.push((kind, msg));
        }
    }

    // ------------------------------------------------------------ connections
    pub async fn connect(&mut self) -> usize {
        let i = self.cons.len();
        self.t.log(Ev::Connected { con: i });
        let ended = Arc::new(AtomicBool::new(false));
        let link = match self.mode {
            Mode::Raw => {
                let (tx, rx) = unbounded();
                Link::Raw { tx, rx, map: SubscriberMap::default() }
            }
            Mode::Proxy | Mode::Threads => {
                let p = self.proxy.as_ref().unwrap();
                // connections nobody uses
                if self.r.p(0.1) {
                    drop(p.connect());
                }
                let con = if self.r.p(0.2) { p.clone().connect() } else { p.connect() };
                let (tx, mut rx) = con.split();
                if self.mode == Mode::Proxy && self.r.p(0.5) {
                    Link::Proxy { tx, rx }
                } else {
                    let t = self.t.clone();
                    let stop = Arc::new(tokio::sync::Notify::new());
                    let st = stop.clone();
                    let lag = self.r.n(4) as u32;
                    let slow = self.t.clone();
                    let ended = ended.clone();
                    let reader = tokio::spawn(async move {
                        loop {
                            tokio::select! {
                                _ = st.notified() => break,
                                m = rx.next() => match m {
                                    Some(m) => t.log(Ev::Got { con: i, text: text_of(&m) }),
                                    None => { ended.store(true, Ordering::SeqCst); break }
                                }
                            }
                            for _ in 0..if slow.paced.load(Ordering::SeqCst) { 0 } else { lag } {
                                tokio::task::yield_now().await;
                            }
                        }
                    });
                    Link::Task { tx, reader, stop }
                }
            }
            Mode::Ws | Mode::Ws1 => {
                let tcp = match tokio::net::TcpStream::connect(("127.0.0.1", self.port)).await {
                    Ok(tcp) => tcp,
                    Err(e) if e.kind() == std::io::ErrorKind::ConnectionRefused => {
                        self.problem("alive", format!("the server does not accept connection {i}"));
                        self.cons.push(Con { link: Link::Gone, gone: None, ended, ids: vec![], bad_ids: HashSet::new(), err_ids: HashSet::new(), kept: None });
                        return i;
                    }
                    // no sockets left: nothing about the server
                    Err(e) => { eprintln!("cannot connect: {e}"); std::process::exit(7) }
                };
                let _ = tcp.set_nodelay(true);
                match tokio_tungstenite::client_async(format!("ws://127.0.0.1:{}/ws", self.port), tcp).await {
                    Err(e) => {
                        self.problem("alive", format!("connection {i} cannot be opened: {e}"));
                        ended.store(true, Ordering::SeqCst);
                        Link::Gone
                    }
                    Ok((s, _)) => {
                        let (tx, mut rx) = s.split();
                        let (stall, end) = (Arc::new(AtomicBool::new(false)), ended.clone());
                        let (t, st, en) = (self.t.clone(), stall.clone(), end.clone());
                        let reader = tokio::spawn(async move {
                            loop {
                                while st.load(Ordering::SeqCst) {
                                    tokio::time::sleep(Duration::from_millis(2)).await;
                                }
                                match rx.next().await {
                                    Some(Ok(Message::Text(text))) => t.log(Ev::Got { con: i, text }),
                                    Some(Ok(Message::Pong(b))) => t.log(Ev::Got { con: i, text: format!("pong {b:?}") }),
                                    Some(Ok(Message::Ping(_))) => {}
                                    Some(Ok(Message::Close(_))) | Some(Err(_)) | None => {
                                        en.store(true, Ordering::SeqCst);
                                        break;
                                    }
                                    Some(Ok(m)) => t.log(Ev::Got { con: i, text: format!("not a text frame: {m:?}") }),
                                }
                            }
                        });
                        Link::Ws { tx, reader, stall, end }
                    }
                }
            }
        };
        self.cons.push(Con { link, gone: None, ended, ids: vec![], bad_ids: HashSet::new(), err_ids: HashSet::new(), kept: None });
        i
    }

    async fn send(&mut self, con: usize, text: String, mut req: Req) {
        req.at = self.t.len();
        if let Some(b) = &mut self.batch {
            b.push((con, text));
            self.reqs.push(req);
            return;
        }
        self.t.log(Ev::Sent { con, what: text.chars().take(160).collect() });
        let c = &mut self.cons[con];
        match &mut c.link {
            Link::Raw { tx, map, .. } => match serde_json::from_str::<Request>(&text) {
                Ok(q) => {
                    let tx = tx.clone();
                    self.backend.as_mut().unwrap().handle_request(q, tx, map).await;
                }
                Err(e) => tx.unbounded_send(Response::error(None, e)).unwrap(),
            },
            Link::Proxy { tx, .. } | Link::Task { tx, .. } => {
                let q = serde_json::from_str::<Request>(&text).map_err(|e| Response::error(None, e));
                if let Err(e) = tx.send(q) {
                    self.problem("alive", format!("connection {con} cannot send any more: {e}"));
                }
            }
            Link::Ws { tx, end, .. } => {
                // a large text may come in several frames
                let frag = self.r.p(0.15) && text.len() > 3;
                let res = if frag {
                    fragments(tx, &text, &mut self.r).await
                } else {
                    tx.send(Message::Text(text)).await
                };
                if res.is_err() || end.load(Ordering::SeqCst) {
                    req.doubtful = true;
                }
            }
            Link::Gone => req.doubtful = true,
        }
        self.reqs.push(req);
    }

    /// read what arrived on the connections that nobody else reads
    pub fn drain(&mut self) {
        for (i, c) in self.cons.iter_mut().enumerate() {
            let mut got = vec![];
            match &mut c.link {
                Link::Raw { rx, .. } => {
                    while let Some(Some(m)) = rx.next().now_or_never() {
                        got.push(m);
                    }
                }
                Link::Proxy { rx, .. } => loop {
                    match rx.next().now_or_never() {
                        Some(Some(m)) => got.push(m),
                        Some(None) => {
                            c.ended.store(true, Ordering::SeqCst);
                            break;
                        }
                        None => break,
                    }
                },
                _ => {}
            }
            for m in got {
                self.t.log(Ev::Got { con: i, text: text_of(&m) });
            }
        }
    }

    pub async fn breathe(&mut self, n: usize) {
        for _ in 0..n {
            if self.mode.det() {
                for _ in 0..12 {
                    tokio::task::yield_now().await;
                }
                tokio::time::advance(Duration::from_millis(10)).await;
                self.drain();
            } else {
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
        }
    }

    fn id_for(&mut self, con: usize) -> u64 {
        let c = &self.cons[con];
        match self.id_style {
            0 => c.ids.len() as u64,
            1 => self.r.n(4) as u64,
            2 => *self.r.pick(&[0, 1, 2, u32::MAX as u64, u32::MAX as u64 + 1, 1 << 53, i64::MAX as u64, u64::MAX - 1, u64::MAX, 7, 255, 256, 65536]),
            _ => {
                // an id that another connection uses
                let all: Vec<u64> = self.cons.iter().flat_map(|c| c.ids.iter().rev().take(3).copied()).collect();
                if all.is_empty() || self.r.p(0.4) { self.r.n(20) as u64 } else { *self.r.pick(&all) }
            }
        }
    }
    fn live(&self) -> Vec<usize> {
        (0..self.cons.len()).filter(|i| self.cons[*i].gone.is_none()).collect()
    }
    fn pause(&mut self, gates: bool) -> (u8, u32) {
        match self.r.n(10) {
            0..=4 => (op::YIELD, 1 + self.r.n(6) as u32),
            5..=7 => (op::SLEEP, self.r.n(if self.mode.det() { 40 } else { 4 }) as u32),
            _ if gates => {
                let g = if !self.gates.is_empty() && self.r.p(0.5) { *self.r.pick(&self.gates.clone()) } else { self.next_gate += 1; self.gates.push(self.next_gate); self.next_gate };
                (op::GATE, g)
            }
            _ => (op::YIELD, 1),
        }
    }
    fn method_plan(&mut self) -> Plan {
        if !self.r.p(self.p.slow) { return vec![]; }
        // nobody could open the gate while the driver itself waits
        let gates = self.mode != Mode::Raw && self.r.p(0.3);
        (0..1 + self.r.n(3)).map(|_| {
            let p = self.pause(gates);
            // here the driver itself waits for the method
            if self.mode == Mode::Raw && p.0 == op::SLEEP { (op::YIELD, 3) } else { p }
        }).collect()
    }
    /// plan, contains bad items, ends by itself
    fn stream_plan(&mut self) -> (Plan, bool, bool) {
        let mut plan = vec![];
        let mut bad = false;
        for _ in 0..self.r.n(6) {
            let x = match self.r.n(10) {
                0..=4 => (op::EMIT, 1 + self.r.n(if self.floods { 60 } else { 5 }) as u32),
                5 if self.r.p(self.p.bad) => { bad = true; (op::BAD, 0) }
                6 => (op::BIG, self.r.n(3000) as u32),
                _ => self.pause(true),
            };
            plan.push(x);
        }
        let end = match self.r.n(14) {
            0 => Some((op::FOREVER, 0)),
            1 => Some((op::ENDLESS, 1 + self.r.n(5) as u32)),
            2 if self.r.p(0.4) => Some((op::BUSY, 0)),
            3 => Some((op::PANIC, 0)),
            4 if self.r.p(0.15) && self.mode.det() => Some((op::ENDLESS, 0)),
            5 => Some((op::EMIT, if self.floods { 400 } else { 30 })),
            _ => None,
        };
        let finite = end.map_or(true, |e| matches!(e.0, op::PANIC | op::EMIT));
        plan.extend(end);
        (plan, bad, finite)
    }

    pub async fn call(&mut self, con: usize, probe: bool) -> u64 {
        let mut id = self.id_for(con);
        let key = self.next_key;
        self.next_key += 1;
        let k = if probe { self.r.n(3) } else { self.r.n(14) };
        let (ns, f, args, n): (&'static str, &'static str, Value, i64) = match k {
            0 | 3 | 4 => { let n = self.r.n(100) as i64 - 20; let plan = if probe { vec![] } else { self.method_plan() }; ("Alpha", "add", json!([key, plan, n]), n) }
            1 | 5 | 6 => { let n = self.r.n(100) as i64; let plan = if probe { vec![] } else { self.method_plan() }; ("beta_ns", "add", json!([key, plan, n]), n) }
            2 | 7 => ("Alpha", "get", json!([key]), 0),
            8 | 9 => { let plan = self.method_plan(); ("beta_ns", "push", json!([key, plan]), 0) }
            10 => { let plan = self.method_plan(); ("Alpha", "fail", json!([key, plan]), 0) }
            11 => ("Alpha", "unit", json!([key]), 0),
            12 => { let s: String = (0..self.r.n(8)).map(|_| *self.r.pick(&['a', '"', '\\', '\u{0}', 'é', '\u{1F600}', '\u{2028}', '<', '\n'])).collect(); ("Alpha", "echo", json!([key, s]), 0) }
            _ => if self.r.p(0.5) { ("Alpha", "big", json!([key, self.r.n(20000)]), 0) } else { ("Alpha", "nop", json!([]), 0) },
        };
        if f == "fail" {
            while self.cons[con].bad_ids.contains(&id) { id = self.r.next() >> 12; }
            self.cons[con].err_ids.insert(id);
        }
        self.cons[con].ids.push(id);
        let text = self.spelled(json!({"id": id, "namespace": ns, "method": f, "args": args}));
        self.send(con, text, Req { con, id, key, kind: Kind::Method { ns, f, n }, probe, at: 0, doubtful: false }).await;
        key
    }
    /// the same request with its members in any order
    fn spelled(&mut self, v: Value) -> String {
        if self.r.p(0.7) { return json!({ "exec": v }).to_string(); }
        let mut m: Vec<String> = v.as_object().unwrap().iter().map(|(k, v)| format!("\"{k}\":{}{v}", if self.r.p(0.3) { " " } else { "" })).collect();
        for i in (1..m.len()).rev() { let j = self.r.n(i + 1); m.swap(i, j); }
        format!("{{ \"exec\":{{{}}}}}", m.join(if self.r.p(0.3) { "\n,\t" } else { "," }))
    }
    /// the client reads nothing while more arrives than the sockets can hold
    async fn glut(&mut self, con: usize) {
        if let Link::Ws { stall, .. } = &self.cons[con].link { stall.store(true, Ordering::SeqCst) } else { return }
        for _ in 0..40 + self.r.n(30) {
            let (id, key) = (self.fresh_id(con), self.next_key);
            self.next_key += 1;
            let text = json!({"exec": {"id": id, "namespace": "Alpha", "method": "big", "args": [key, 100_000 + self.r.n(200_000)]}}).to_string();
            self.send(con, text, Req { con, id, key, kind: Kind::Method { ns: "Alpha", f: "big", n: 0 }, probe: false, at: 0, doubtful: false }).await;
        }
        tokio::time::sleep(Duration::from_millis(400 + self.r.n(900) as u64)).await;
        if let Link::Ws { stall, .. } = &self.cons[con].link { stall.store(false, Ordering::SeqCst) }
    }
    /// messages of some megabytes, in one frame or in several
    async fn huge(&mut self, con: usize) {
        let n = *self.r.pick(&[65_535usize, 65_536, 1 << 20, (1 << 20) + 1, 3 << 20, 6 << 20]);
        let (id, key) = (self.fresh_id(con), self.next_key);
        self.next_key += 1;
        let (f, args) = if self.r.p(0.6) { ("echo", json!([key, "é".repeat(n / 2)])) } else { ("big", json!([key, n])) };
        let text = json!({"exec": {"id": id, "namespace": "Alpha", "method": f, "args": args}}).to_string();
        self.send(con, text, Req { con, id, key, kind: Kind::Method { ns: "Alpha", f, n: 0 }, probe: false, at: 0, doubtful: false }).await;
    }
    fn fresh_id(&mut self, con: usize) -> u64 {
        let mut id = self.id_for(con);
        while self.cons[con].bad_ids.contains(&id) { id = self.r.next() >> 12; }
        self.cons[con].ids.push(id);
        id
    }
    pub async fn subscribe(&mut self, con: usize) {
        let (plan, bad, finite) = self.stream_plan();
        let key = self.next_key;
        let mut id = self.id_for(con);
        // an id is free again when its stream was cancelled or is over
        let taken = |w: &World, id: u64| {
            w.cons[con].bad_ids.contains(&id) || (bad && (w.cons[con].ids.contains(&id) || w.cons[con].err_ids.contains(&id)))
                || w.reqs.iter().enumerate().any(|(i, q)| q.con == con && q.id == id && matches!(q.kind, Kind::Stream { .. }) && !w.cancelled(i) && !w.t.with(|s| s.ended.contains(&q.key)))
        };
        let mut tries = 0;
        while taken(self, id) {
            tries += 1;
            id = if tries < 4 { self.id_for(con) } else { self.r.next() >> self.r.n(12) };
        }
        self.next_key += 1;
        self.cons[con].ids.push(id);
        if bad { self.cons[con].bad_ids.insert(id); }
        let (ns, f) = *self.r.pick(&[("Alpha", "items"), ("Alpha", "boxed"), ("beta_ns", "items")]);
        let text = self.spelled(json!({"id": id, "namespace": ns, "method": f, "args": [key, plan]}));
        self.send(con, text, Req { con, id, key, kind: Kind::Stream { plan, bad, finite }, probe: false, at: 0, doubtful: false }).await;
    }
    pub fn cancelled(&self, stream: usize) -> bool {
        let s = &self.reqs[stream];
        self.reqs[stream + 1..].iter().any(|q| matches!(q.kind, Kind::Cancel { target: Some(k) } if k == s.key))
    }
    async fn cancel(&mut self, con: usize) {
        // its own running stream, or anything that must not have an effect
        let own: Vec<(u64, u64)> = self.reqs.iter().enumerate()
            .filter(|(i, q)| q.con == con && matches!(q.kind, Kind::Stream { .. }) && !self.cancelled(*i)).map(|(_, q)| (q.id, q.key)).collect();
        let id = if !own.is_empty() && self.r.p(0.75) {
            self.r.pick(&own).0
        } else {
            match self.r.n(4) {
                // an id somebody else uses
                0 => { let all: Vec<u64> = self.cons.iter().flat_map(|c| c.ids.iter().copied()).collect(); if all.is_empty() { 0 } else { *self.r.pick(&all) } }
                // one that was used before
                1 if !self.cons[con].ids.is_empty() => *self.r.pick(&self.cons[con].ids.clone()),
                2 => u64::MAX - self.r.n(2) as u64,
                _ => self.r.n(50) as u64,
            }
        };
        let target = own.iter().rev().find(|(i, _)| *i == id).map(|x| x.1);
        let text = json!({"cancelStream": {"id": id}}).to_string();
        let n = if self.r.p(0.15) { 2 } else { 1 };
        for i in 0..n {
            self.send(con, text.clone(), Req { con, id, key: 0, kind: Kind::Cancel { target: if i == 0 { target } else { None } }, probe: false, at: 0, doubtful: false }).await;
        }
        // within a bounded number of steps
        if let Some(k) = target {
            if self.mode.det() && self.r.p(0.6) && self.t.with(|s| s.entered.contains_key(&k)) && !self.busy() {
                for _ in 0..80 { tokio::task::yield_now().await; }
                self.drain();
                if self.t.with(|s| s.live.contains(&k)) {
                    self.breathe(20).await;
                    if self.t.with(|s| s.live.contains(&k)) && !self.busy() {
                        self.problem("cancel", format!("stream {k} of connection {con} still runs after it was cancelled"));
                    }
                }
            }
        }
    }
    /// requests are waiting or running
    fn busy(&self) -> bool {
        self.t.with(|s| {
            self.reqs.iter().any(|q| match &q.kind {
                Kind::Method { f, .. } => *f != "nop" && !s.exits.contains_key(&q.key),
                Kind::Stream { .. } => !s.entered.contains_key(&q.key),
                _ => false,
            })
        })
    }
    async fn hostile(&mut self, con: usize) {
        let mut id = self.id_for(con);
        while self.cons[con].bad_ids.contains(&id) { id = self.r.next() >> 12; }
        // nothing else uses this one
        let own = (1 << 40) + self.reqs.len() as u64;
        let (text, e) = hostile::text(&mut self.r, id, own);
        let id = match &e {
            Expect::WithId(i) | Expect::Either(i) => *i,
            _ => 0,
        };
        if self.cons[con].bad_ids.contains(&id) && e != Expect::NoId { return; }
        if e != Expect::NoId { self.cons[con].err_ids.insert(id); }
        if !matches!(e, Expect::Either(_)) { self.cons[con].ids.push(id); }
        self.send(con, text, Req { con, id, key: 0, kind: Kind::Bad(e), probe: false, at: 0, doubtful: false }).await;
    }
    async fn leave(&mut self, con: usize) {
        self.drain();
        let at = self.t.len();
        self.cons[con].gone = Some(at);
        let link = std::mem::replace(&mut self.cons[con].link, Link::Gone);
        let how = self.r.n(5);
        let name = match link {
            Link::Gone => "gone",
            Link::Raw { tx, rx, map } => {
                if how == 0 { drop(map); drop(rx); } else { drop(rx); drop(map); }
                drop(tx);
                "drop"
            }
            Link::Proxy { tx, rx } => match how {
                0 => { drop(tx); drop(rx); "tx first" }
                1 => { drop(rx); self.cons[con].kept = Some(tx); "rx only" }
                _ => { drop(rx); drop(tx); "rx first" }
            },
            Link::Task { tx, reader, stop } => {
                match how {
                    0 => { drop(tx); reader.abort(); }
                    1 => { reader.abort(); drop(tx); }
                    2 => { stop.notify_one(); drop(tx); }
                    3 => { stop.notify_one(); let _ = reader.await; drop(tx); }
                    _ => { reader.abort(); self.cons[con].kept = Some(tx); }
                }
                "reader ends"
            }
            Link::Ws { mut tx, reader, stall, end } => match how {
                0 | 1 => { stall.store(false, Ordering::SeqCst); let _ = tx.send(Message::Close(None)).await; tokio::spawn(async move { let _ = reader.await; drop(tx); }); "close frame" }
                2 => { end.store(true, Ordering::SeqCst); reader.abort(); let _ = reader.await; drop(tx); "dropped" }
                3 => {
                    // a reset instead of an orderly end
                    reader.abort();
                    let _ = reader.await;
                    drop(tx);
                    "dropped"
                }
                _ => { let _ = tx.close().await; reader.abort(); let _ = reader.await; "closed" }
            },
        };
        self.t.log(Ev::Gone { con, how: name });
    }
    /// frames that are not text
    async fn frame(&mut self, con: usize) {
        let k = self.r.n(7);
        let data: Vec<u8> = (0..self.r.n(100)).map(|i| (i as u8).wrapping_mul(31)).collect();
        let Link::Ws { tx, stall, .. } = &mut self.cons[con].link else { return };
        self.t.log(Ev::Sent { con, what: format!("frame {k}") });
        let req = json!({"exec": {"id": 1, "namespace": "Alpha", "method": "get", "args": [424242]}}).to_string();
        let _ = match k {
            0 => { let d = data[..data.len().min(120)].to_vec(); self.pings.push((con, d.clone())); tx.send(Message::Ping(d)).await }
            1 => tx.send(Message::Pong(data)).await,
            2 => tx.send(Message::Binary(data)).await,
            // binary data that looks like a request is none
            3 => tx.send(Message::Binary(req.into_bytes())).await,
            4 => tx.send(Message::Binary(vec![0xff; 70_000])).await,
            5 => { stall.store(true, Ordering::SeqCst); Ok(()) }
            _ => { stall.store(false, Ordering::SeqCst); Ok(()) }
        };
    }
    /// something else than a WebSocket
    async fn http(&mut self) {
        use tokio::io::{AsyncReadExt, AsyncWriteExt};
        let Ok(mut tcp) = tokio::net::TcpStream::connect(("127.0.0.1", self.port)).await else {
            self.problem("alive", "the server does not accept connections".into());
            return;
        };
        let b: &[u8] = match self.r.n(6) {
            0 => b"GET /ws HTTP/1.1\r\nHost: x\r\n\r\n",
            1 => b"\x00\xff\x00garbage\r\n\r\n",
            2 => b"GET /ws HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\n",
            3 => b"POST /ws HTTP/1.1\r\nHost: x\r\nContent-Length: 5\r\n\r\nabcde",
            // frames against the protocol after the upgrade
            4 => b"GET /ws HTTP/1.1\r\nHost: x\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n\xff\xff\xff\xff\xff\xff",
            _ => b"GET /ws HTTP/1.1\r\nHost: x\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n\x81\x84\x00\x00\x00\x00\xff\xfe\xfd\xfc",
        };
        self.t.log(Ev::Note { what: "not a websocket" });
        let _ = tcp.write_all(b).await;
        if self.r.p(0.5) {
            let mut buf = [0u8; 256];
            let _ = tokio::time::timeout(Duration::from_millis(3), tcp.read(&mut buf)).await;
        }
    }

    /// all connections send at the same time, from different threads
    async fn burst(&mut self) {
        self.batch = Some(vec![]);
        let live = self.live();
        for c in &live {
            for _ in 0..1 + self.r.n(8) {
                let x = self.r.f() * (self.p.call + self.p.stream + self.p.cancel + self.p.hostile);
                if x < self.p.call { self.call(*c, false).await } else if x < self.p.call + self.p.stream { self.subscribe(*c).await; 0 } else if x < self.p.call + self.p.stream + self.p.cancel { self.cancel(*c).await; 0 } else { self.hostile(*c).await; 0 };
            }
        }
        let mut per: HashMap<usize, Vec<String>> = HashMap::new();
        for (c, t) in self.batch.take().unwrap() { per.entry(c).or_default().push(t); }
        let start = Arc::new(tokio::sync::Barrier::new(per.len()));
        let mut tasks = vec![];
        for (c, texts) in per {
            let link = std::mem::replace(&mut self.cons[c].link, Link::Gone);
            let (t, start) = (self.t.clone(), start.clone());
            let mut r = Rng::new(self.r.next(), c as u64);
            tasks.push(tokio::spawn(async move {
                start.wait().await;
                let mut link = link;
                let mut failed = false;
                for text in texts {
                    t.log(Ev::Sent { con: c, what: text.chars().take(160).collect() });
                    match &mut link {
                        Link::Task { tx, .. } => failed |= tx.send(serde_json::from_str::<Request>(&text).map_err(|e| Response::error(None, e))).is_err(),
                        Link::Ws { tx, .. } => failed |= tx.send(Message::Text(text)).await.is_err(),
                        _ => failed = true,
                    }
                    if r.p(0.3) { tokio::task::yield_now().await; }
                }
                (c, link, failed)
            }));
        }
        for t in tasks {
            let (c, link, failed) = t.await.expect("client task");
            self.cons[c].link = link;
            if failed { self.problem("alive", format!("connection {c} cannot send any more")); }
        }
    }

    pub async fn step(&mut self) {
        let p = self.p;
        let live = self.live();
        if !self.mode.det() && live.len() > 1 && self.r.p(0.05) { return self.burst().await; }
        if live.is_empty() || (live.len() < p.max_cons && self.r.p(p.connect * 0.1)) {
            self.connect().await;
            return;
        }
        let con = *self.r.pick(&live);
        let ws = self.mode.ws();
        let w = [p.call, p.stream, p.cancel, p.hostile, if live.len() > 1 || self.r.p(0.2) { p.leave } else { 0.0 }, if ws { p.frames } else { 0.0 }, if ws { p.http } else { 0.0 }, 2.5, if self.gates.is_empty() { 0.0 } else { 0.8 }, 0.1];
        let mut x = self.r.f() * w.iter().sum::<f64>();
        let mut k = 0;
        while k + 1 < w.len() && x >= w[k] { x -= w[k]; k += 1; }
        match k {
            0 if self.gluts > 0 && self.r.p(0.2) => { self.gluts -= 1; self.glut(con).await }
            0 if self.huge > 0 && self.r.p(0.2) => { self.huge -= 1; self.huge(con).await }
            0 => { for _ in 0..1 + self.r.n(3) { self.call(con, false).await; } }
            1 => self.subscribe(con).await,
            2 => self.cancel(con).await,
            3 => self.hostile(con).await,
            4 => self.leave(con).await,
            5 => self.frame(con).await,
            6 => self.http().await,
            7 => {
                if self.mode.det() {
                    for _ in 0..self.r.n(12) { tokio::task::yield_now().await; }
                    if self.r.p(0.3) { tokio::time::advance(Duration::from_millis(self.r.n(30) as u64)).await; }
                    if self.r.p(0.3) { self.drain(); }
                    // nothing happens for minutes, hours or days
                    if self.r.p(0.05) { let s = *self.r.pick(&[5, 31, 61, 301, 3_601, 90_000]); tokio::time::advance(Duration::from_secs(s)).await; }
                } else if self.r.p(0.3) {
                    tokio::time::sleep(Duration::from_micros(self.r.n(1500) as u64)).await;
                } else {
                    tokio::task::yield_now().await;
                }
            }
            8 => {
                let i = self.r.n(self.gates.len());
                let g = self.gates.swap_remove(i);
                self.t.open_gate(g);
            }
            _ => {
                // a client that subscribes after its receiver is gone
                if let Some(c) = (0..self.cons.len()).find(|c| self.cons[*c].kept.is_some()) {
                    let tx = self.cons[c].kept.take().unwrap();
                    let key = self.next_key;
                    self.next_key += 1;
                    let q: Request = serde_json::from_value(json!({"exec": {"id": 3, "namespace": "Alpha", "method": "items", "args": [key, [[op::FOREVER, 0]]]}})).unwrap();
                    self.t.log(Ev::Sent { con: c, what: format!("stream {key} without a receiver") });
                    let at = self.t.len();
                    if tx.send(Ok(q)).is_ok() {
                        self.reqs.push(Req { con: c, id: 3, key, kind: Kind::Stream { plan: vec![(op::FOREVER, 0)], bad: false, finite: false }, probe: false, at, doubtful: true });
                    }
                }
            }
        }
    }

    /// messages per connection so far
    pub fn got(&self) -> Vec<Vec<String>> {
        let mut out = vec![vec![]; self.cons.len()];
        for e in self.t.ev.lock().unwrap().iter() {
            if let Ev::Got { con, text } = e { out[*con].push(text.clone()); }
        }
        out
    }

    /// is anything still owed?
    fn owed(&self) -> Option<String> {
        let got = self.got();
        for (i, c) in self.cons.iter().enumerate() {
            if c.gone.is_some() { continue; }
            let owed = self.reqs.iter().filter(|q| q.con == i && matches!(q.kind, Kind::Method { .. } | Kind::Bad(_))).count();
            let bad_ids = &c.bad_ids;
            let have = got[i].iter().filter(|t| {
                t.starts_with("{\"method\"") || (t.starts_with("{\"error\"") && serde_json::from_str::<Value>(t).map_or(true, |v| v["error"]["id"].as_u64().map_or(true, |i| !bad_ids.contains(&i))))
            }).count();
            if have < owed { return Some(format!("{} of {} answers on connection {i}", owed - have, owed)); }
        }
        for (key, due) in &self.due {
            let q = self.reqs.iter().find(|q| q.key == *key).unwrap();
            let n = got[q.con].iter().filter(|t| t.starts_with("{\"stream\"") && t.contains(&format!("\"key\":{key},"))).count();
            if n < *due { return Some(format!("items of stream {key}")); }
        }
        self.t.with(|s| {
            for (i, q) in self.reqs.iter().enumerate() {
                if let Kind::Stream { finite, plan, .. } = &q.kind {
                    if !self.cancelled(i) && self.cons[q.con].gone.is_none() && !q.doubtful && plan.last().map_or(false, |l| l.0 == op::ENDLESS) && !s.produced.contains_key(&q.key) { return Some(format!("an item of stream {}", q.key)); }
                    let over = self.cons[q.con].gone.is_some() || self.cancelled(i);
                    if over && s.live.contains(&q.key) { return Some(format!("stream {} to be dropped", q.key)); }
                    if !over && *finite && !s.ended.contains(&q.key) && !q.doubtful { return Some(format!("the end of stream {}", q.key)); }
                    if !over && *finite && !q.doubtful {
                        let p = s.produced.get(&q.key).map_or(0, |p| p.iter().filter(|x| !x.1).count());
                        let n = got[q.con].iter().filter(|t| t.starts_with("{\"stream\"") && t.contains(&format!("\"key\":{},", q.key))).count();
                        if n < p { return Some(format!("items of stream {}", q.key)); }
                    }
                }
            }
            None
        })
    }
    async fn until_quiet(&mut self) {
        let limit = Instant::now() + Duration::from_secs(if self.mode.det() { 600 } else { 12 });
        let mut rounds = 0;
        loop {
            self.breathe(if rounds < 5 { 2 } else { 8 }).await;
            rounds += 1;
            if self.owed().is_none() || Instant::now() > limit || (self.mode.det() && rounds > 250) { break; }
        }
    }
    pub async fn finish(&mut self) {
        for c in &self.cons {
            if let Link::Ws { stall, .. } = &c.link { stall.store(false, Ordering::SeqCst); }
        }
        // readers catch up
        self.t.paced.store(true, Ordering::SeqCst);
        if self.mode.det() && self.r.p(0.3) { tokio::time::advance(Duration::from_secs(100_000)).await; for _ in 0..20 { tokio::task::yield_now().await; } }
        self.t.open_all();
        self.until_quiet().await;
        // whoever is still there, and whoever comes now, is served
        if self.live().len() < 12 { self.connect().await; }
        for c in self.live() { self.call(c, true).await; }
        self.until_quiet().await;
        self.stopped_at = self.t.len();
        self.due = self.t.with(|s| self.reqs.iter().enumerate()
            .filter(|(i, q)| matches!(q.kind, Kind::Stream { finite: false, .. }) && !q.doubtful && self.cons[q.con].gone.is_none() && !self.cancelled(*i))
            .map(|(_, q)| (q.key, s.produced.get(&q.key).map_or(0, |p| p.iter().filter(|x| !x.1).count()))).collect());
        self.breathe(4).await;
        self.drain();
        if !self.mode.det() { self.until_quiet().await; }
    }
    /// everybody leaves
    pub async fn end(&mut self) {
        for c in self.live() { self.leave(c).await; }
        for c in &mut self.cons { c.kept = None; }
        let limit = Instant::now() + Duration::from_secs(12);
        let mut rounds = 0;
        loop {
            self.breathe(2).await;
            rounds += 1;
            if self.t.with(|s| s.live.is_empty()) || Instant::now() > limit || (self.mode.det() && rounds > 150) { break; }
        }
        let left: Vec<u64> = self.t.with(|s| s.live.iter().copied().collect());
        if !left.is_empty() {
            let who: Vec<String> = left.iter().take(4).map(|k| self.reqs.iter().find(|q| q.key == *k).map_or("?".into(), |q| format!("{k} (connection {}, id {})", q.con, q.id))).collect();
            self.problem("release", format!("{} streams still exist after all connections are gone: {}", left.len(), who.join(", ")));
        }
        self.proxy = None;
        if let Some(s) = self.server.take() { s.abort(); }
    }
}

async fn fragments(tx: &mut WsTx, text: &str, r: &mut Rng) -> Result<(), tokio_tungstenite::tungstenite::Error> {
    use tokio_tungstenite::tungstenite::protocol::frame::{coding::{Data, OpCode}, Frame};
    let b = text.as_bytes();
    let n = 2 + r.n(3);
    let mut cuts: Vec<usize> = (0..n - 1).map(|_| r.n(b.len())).collect();
    cuts.sort();
    cuts.push(b.len());
    let mut from = 0;
    for (i, c) in cuts.iter().enumerate() {
        let f = Frame::message(b[from..*c].to_vec(), OpCode::Data(if i == 0 { Data::Text } else { Data::Continue }), i + 1 == cuts.len());
        tx.send(Message::Frame(f)).await?;
        // control frames may come in between
        if i + 1 < cuts.len() && r.p(0.3) { tx.send(Message::Ping(vec![])).await?; }
        from = *c;
    }
    Ok(())
}
