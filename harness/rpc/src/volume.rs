//! Few scenarios with very many items, streams, calls or connections: what only shows beyond a number of them.
use crate::api::{op, server, Trace};
use crate::rng::Rng;
use futures::{SinkExt, StreamExt};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::Ordering;
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio_tungstenite::tungstenite::Message;
use zod::rpc::servers::proxy::{BackendProxy, ProxyRx, ProxyTx};
use zod::rpc::{Request, Response};

type Ws = tokio_tungstenite::WebSocketStream<tokio::net::TcpStream>;
enum Tx {
    Proxy(ProxyTx),
    Ws(futures::stream::SplitSink<Ws, Message>),
}
enum Rx {
    Proxy(ProxyRx),
    Ws(futures::stream::SplitStream<Ws>),
}
impl Tx {
    async fn send(&mut self, text: String) -> bool {
        match self {
            Tx::Proxy(tx) => tx.send(serde_json::from_str::<Request>(&text).map_err(|e| Response::error(None, e))).is_ok(),
            // without waiting for each single frame to be flushed
            Tx::Ws(tx) => tx.feed(Message::Text(text)).await.is_ok(),
        }
    }
    async fn flush(&mut self) {
        if let Tx::Ws(tx) = self {
            let _ = tx.flush().await;
        }
    }
}
impl Rx {
    /// the next message; None if nothing comes within the limit
    async fn next(&mut self, limit: Duration) -> Option<Value> {
        let text = match self {
            Rx::Proxy(rx) => serde_json::to_string(&tokio::time::timeout(limit, rx.next()).await.ok()??).unwrap(),
            Rx::Ws(rx) => loop {
                match tokio::time::timeout(limit, rx.next()).await.ok()??.ok()? {
                    Message::Text(t) => break t,
                    Message::Close(_) => return None,
                    _ => {}
                }
            },
        };
        Some(serde_json::from_str(&text).unwrap_or_else(|_| json!({ "no JSON": text })))
    }
}

struct Place {
    t: Arc<Trace>,
    proxy: BackendProxy,
    port: Option<u16>,
    server: Option<tokio::task::JoinHandle<()>>,
}
impl Place {
    fn new(ws: bool) -> Place {
        let t = Arc::new(Trace::default());
        let proxy = BackendProxy::new(server(&t));
        let mut p = Place { t, proxy, port: None, server: None };
        if ws {
            let app = axum::Router::new()
                .route("/ws", axum::routing::get(zod::rpc::servers::axum::websocket_handler))
                .layer(axum::extract::Extension(p.proxy.clone()));
            let srv = axum::Server::bind(&"127.0.0.1:0".parse().unwrap()).serve(app.into_make_service());
            p.port = Some(srv.local_addr().port());
            p.server = Some(tokio::spawn(async move {
                let _ = srv.await;
            }));
        }
        p
    }
    async fn connect(&self) -> (Tx, Rx) {
        match self.port {
            None => {
                let (tx, rx) = self.proxy.connect().split();
                (Tx::Proxy(tx), Rx::Proxy(rx))
            }
            Some(port) => {
                let tcp = match tokio::net::TcpStream::connect(("127.0.0.1", port)).await {
                    Ok(t) => t,
                    Err(e) => {
                        eprintln!("cannot connect: {e}");
                        std::process::exit(7)
                    }
                };
                let (ws, _) = tokio_tungstenite::client_async(format!("ws://127.0.0.1:{port}/ws"), tcp).await.expect("handshake");
                let (tx, rx) = ws.split();
                (Tx::Ws(tx), Rx::Ws(rx))
            }
        }
    }
}

fn call(id: u64, method: &str, args: Value) -> String {
    json!({"exec": {"id": id, "namespace": "Alpha", "method": method, "args": args}}).to_string()
}
async fn until(f: impl Fn() -> bool) -> bool {
    let end = Instant::now() + Duration::from_secs(30);
    while !f() {
        if Instant::now() > end {
            return false;
        }
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
    true
}
const LIMIT: Duration = Duration::from_secs(30);
type Problems = Vec<(&'static str, String)>;
type Counts = BTreeMap<&'static str, usize>;

/// streams with n items, read while they are produced or only afterwards
async fn long(p: &Place, r: &mut Rng, n: u32, problems: &mut Problems, counts: &mut Counts) {
    let sizes = [n, n / 7 + 1, 5, 1];
    let mut cons = vec![];
    for c in 0..2 {
        cons.push((c, p.connect().await));
    }
    let late = r.p(0.5);
    for (c, (tx, _)) in cons.iter_mut() {
        for (i, s) in sizes.iter().enumerate() {
            // the ids of both connections are the same
            tx.send(call(i as u64, "items", json!([*c as u64 * 10 + i as u64, [[op::EMIT, s]]]))).await;
        }
        tx.flush().await;
    }
    if late && p.port.is_none() {
        let t = p.t.clone();
        until(move || t.with(|s| s.ended.len() == 2 * sizes.len())).await;
    }
    let mut hs = vec![];
    for (c, (mut tx, mut rx)) in cons {
        hs.push(tokio::spawn(async move {
            let mut next: HashMap<u64, u32> = HashMap::new();
            let mut left: u32 = sizes.iter().sum();
            while left > 0 {
                let Some(m) = rx.next(LIMIT).await else { return Err(("item", format!("connection {c} waits for {left} of {} items (received so far: {next:?}, sizes {sizes:?})", sizes.iter().sum::<u32>()))) };
                let (id, key, seq) = (m["stream"]["id"].as_u64(), m["stream"]["data"]["key"].as_u64(), m["stream"]["data"]["seq"].as_u64());
                let (Some(id), Some(key), Some(seq)) = (id, key, seq) else { return Err(("item", format!("connection {c} receives {m}"))) };
                if key != c * 10 + id { return Err(("leak", format!("connection {c} receives item {seq} of stream {key} under the id {id}"))); }
                let want = next.entry(id).or_default();
                if *want as u64 != seq { return Err(("item", format!("stream {key}: item {seq} is received where item {want} of {} is due", sizes[id as usize]))); }
                *want += 1;
                left -= 1;
            }
            // the connection still works
            tx.send(call(99, "echo", json!([c + 1000, "x"]))).await;
            tx.flush().await;
            match rx.next(LIMIT).await {
                Some(m) if m["method"]["id"] == json!(99) => Ok(sizes.iter().sum::<u32>() as usize),
                m => Err(("item", format!("connection {c} receives {m:?} after all items of its streams, instead of the answer to a call"))),
            }
        }));
    }
    for h in hs {
        match h.await.expect("reader") {
            Ok(n) => *counts.entry("items of long streams").or_default() += n,
            Err(e) => problems.push(e),
        }
    }
}

/// n streams of one connection at a time
async fn wide(p: &Place, r: &mut Rng, n: u32, problems: &mut Problems, counts: &mut Counts) {
    let n = n as u64;
    let (mut tx, mut rx) = p.connect().await;
    let (mut tx2, mut rx2) = p.connect().await;
    for i in 0..n {
        tx.send(call(i, "items", json!([i, [[op::EMIT, 2], [op::GATE, 1], [op::EMIT, 1], [op::FOREVER, 0]]]))).await;
        if i % 50 == 0 { tx2.send(call(i, "items", json!([1_000_000 + i, [[op::EMIT, 1], [op::GATE, 1], [op::EMIT, 1], [op::FOREVER, 0]]]))).await; }
    }
    tx.flush().await;
    tx2.flush().await;
    let others: HashSet<u64> = (0..n).step_by(50).map(|i| 1_000_000 + i).collect();
    let all: HashSet<u64> = (0..n).chain(others.iter().copied()).collect();
    let t = &p.t;
    if !until(|| t.with(|s| s.produced.values().map(|v| v.len() as u64).sum::<u64>()) >= 2 * n + others.len() as u64).await {
        problems.push(("stalled", format!("{} of {} streams emit", t.with(|s| s.produced.len()), all.len())));
        return;
    }
    let diff = |want: &HashSet<u64>, what: &str, kind: &'static str, problems: &mut Problems| {
        let live = t.with(|s| s.live.clone());
        let (a, b): (Vec<_>, Vec<_>) = (live.difference(want).take(4).collect(), want.difference(&live).take(4).collect());
        if !a.is_empty() { problems.push((kind, format!("{what}: of {} streams {} too many are there: {a:?}..", all.len(), live.difference(want).count()))); }
        if !b.is_empty() { problems.push(("stopped", format!("{what}: of {} streams {} were stopped although nobody asked for it: {b:?}..", all.len(), want.difference(&live).count()))); }
    };
    diff(&all, "after subscribing", "twice", problems);
    // two thirds are cancelled, in any order
    let mut ids: Vec<u64> = (0..n).collect();
    for i in (1..ids.len()).rev() { ids.swap(i, r.n(i + 1)); }
    let keep: HashSet<u64> = ids.split_off(ids.len() * 2 / 3).into_iter().collect();
    for i in &ids { tx.send(json!({"cancelStream": {"id": i}}).to_string()).await; }
    tx.flush().await;
    let want: HashSet<u64> = keep.iter().chain(&others).copied().collect();
    until(|| t.with(|s| s.live.len() <= want.len())).await;
    tokio::time::sleep(Duration::from_millis(20)).await;
    diff(&want, "after cancelling", "cancel", problems);
    t.open_gate(1);
    // everybody gets its items
    let mut seen: HashMap<u64, u32> = HashMap::new();
    let total = 2 * n as usize + keep.len();
    for k in 0..total {
        let Some(m) = rx.next(LIMIT).await else { problems.push(("item", format!("{k} of {total} items of {n} streams are received"))); return };
        let (id, key, seq) = (m["stream"]["id"].as_u64(), m["stream"]["data"]["key"].as_u64(), m["stream"]["data"]["seq"].as_u64());
        let e = seen.entry(key.unwrap_or(u64::MAX)).or_default();
        if id != key || seq != Some(*e as u64) || (seq == Some(2) && !keep.contains(&id.unwrap())) { problems.push((if id == key { "item" } else { "leak" }, format!("{m} is received, item {e} is due ({} streams)", n))); return; }
        *e += 1;
    }
    *counts.entry("streams of one connection").or_default() = n as usize;
    // the connection leaves
    drop(tx);
    drop(rx);
    until(|| t.with(|s| s.live.len() <= others.len())).await;
    tokio::time::sleep(Duration::from_millis(20)).await;
    diff(&others, "after the connection left", "release", problems);
    for _ in 0..others.len() * 2 {
        if rx2.next(LIMIT).await.is_none() { problems.push(("item", "the other connection does not receive its items".into())); break; }
    }
    drop((tx2, rx2));
    until(|| t.with(|s| s.live.is_empty())).await;
    diff(&HashSet::new(), "after all connections left", "release", problems);
}

/// n requests wait while one runs
async fn backlog(p: &Place, r: &mut Rng, n: u32, problems: &mut Problems, counts: &mut Counts) {
    let mut cons = vec![];
    for c in 0..3u64 { cons.push((c, p.connect().await, vec![])); }
    let mut key = 1u64;
    cons[0].1 .0.send(call(0, "add", json!([0, [[op::GATE, 5]], 1]))).await;
    cons[0].1 .0.flush().await;
    let t = &p.t;
    until(|| t.with(|s| s.entered.contains_key(&0))).await;
    for i in 0..n {
        let c = r.n(3);
        let (_, (tx, _), want) = &mut cons[c];
        let id = i as u64 / 3;
        match r.n(20) {
            0 => { tx.send("{".into()).await; want.push((None, u64::MAX)); }
            1 => { tx.send(call(id, "none", json!([]))).await; want.push((Some(id), u64::MAX)); }
            _ => {
                tx.send(call(id, "echo", json!([key, format!("{key}")]))).await;
                want.push((Some(id), key));
                key += 1;
            }
        }
        // the socket takes only so much before somebody reads
        if p.port.is_some() && i % 64 == 63 { tx.flush().await; }
        if p.port.is_some() && i == 6000 { t.open_gate(5); }
    }
    t.open_gate(5);
    let mut hs = vec![];
    for (c, (mut tx, mut rx), want) in cons {
        hs.push(tokio::spawn(async move {
            let writer = tokio::spawn(async move { tx.flush().await; tx });
            let n = want.len();
            if c == 0 {
                match rx.next(LIMIT).await {
                    Some(m) if m["method"]["data"]["key"] == json!(0) => {}
                    m => return Err(("resp", format!("connection {c} receives {m:?} instead of the answer to its first call"))),
                }
            }
            for (i, (id, key)) in want.into_iter().enumerate() {
                let Some(m) = rx.next(LIMIT).await else { return Err(("never", format!("connection {c} receives {i} of {n} answers"))) };
                let right = if key == u64::MAX { m["error"]["id"] == json!(id) && m["error"].get("data").is_some() } else { m["method"] == json!({"id": id, "data": [key, key.to_string()]}) };
                if !right { return Err(("resp", format!("connection {c} receives {m} where the answer {i} of {n}, to call {key} with id {id:?}, is due"))); }
            }
            let tx = writer.await;
            tokio::time::sleep(Duration::from_millis(5)).await;
            let more = rx.next(Duration::from_millis(1)).await;
            drop(tx);
            if let Some(m) = more { return Err(("resp", format!("connection {c} receives {m} after its {n} answers"))); }
            Ok(n)
        }));
    }
    for h in hs {
        match h.await.expect("reader") {
            Ok(n) => *counts.entry("answers of a backlog").or_default() += n,
            Err(e) => problems.push(e),
        }
    }
    if t.with(|s| s.entered.values().any(|n| *n > 1)) { problems.push(("twice", "a call is executed twice".into())); }
    *counts.entry("calls that waited").or_default() += key as usize;
}

/// n connections come and go, one stays
async fn churn(p: &Place, r: &mut Rng, n: u32, problems: &mut Problems, counts: &mut Counts) {
    let (mut tx, mut rx) = p.connect().await;
    let t = &p.t;
    tx.send(call(0, "items", json!([1, [[op::EMIT, 1], [op::GATE, 9], [op::EMIT, 1], [op::FOREVER, 0]]]))).await;
    tx.flush().await;
    if rx.next(LIMIT).await.map_or(true, |m| m["stream"]["data"]["key"] != json!(1)) { problems.push(("never", "the stream of the first connection does not start".into())); return; }
    let mut key = 2u64;
    let step = if p.port.is_some() { 100 } else { 2000 };
    for i in 0..n {
        let (mut a, b) = p.connect().await;
        match r.n(6) {
            0 => {}
            1 => { a.send(call(0, "echo", json!([key, "gone"]))).await; }
            2 => { a.send("[".into()).await; }
            3 => { a.send(json!({"cancelStream": {"id": 0}}).to_string()).await; }
            _ => { a.send(call(r.n(3) as u64, "items", json!([key, [[op::EMIT, 1], [op::FOREVER, 0]]]))).await; }
        }
        key += 1;
        a.flush().await;
        if r.p(0.2) { tokio::task::yield_now().await; }
        if r.p(0.5) { drop(a); drop(b) } else { drop(b); drop(a) }
        if i % step == step - 1 {
            tx.send(call(7, "echo", json!([2_000_000 + i as u64, "here"]))).await;
            tx.flush().await;
            match rx.next(LIMIT).await {
                Some(m) if m["method"] == json!({"id": 7, "data": [2_000_000 + i as u64, "here"]}) => {}
                m => { problems.push(("alive", format!("after {i} connections that left, the one that stayed receives {m:?} instead of its answer"))); return; }
            }
        }
    }
    let gone = || t.with(|s| s.live.len() == 1 && s.live.contains(&1));
    if !until(gone).await {
        let live: Vec<u64> = t.with(|s| s.live.iter().copied().take(5).collect());
        if live.contains(&1) { problems.push(("release", format!("after {n} connections left, {} streams still exist: {live:?}..", t.with(|s| s.live.len())))); } else { problems.push(("stopped", format!("after {n} connections left, the stream of the one that stayed is gone"))); }
    }
    t.open_gate(9);
    match rx.next(LIMIT).await {
        Some(m) if m["stream"]["data"]["key"] == json!(1) && m["stream"]["id"] == json!(0) => {}
        m => problems.push(("item", format!("after {n} connections left, the one that stayed receives {m:?} instead of the item of its stream"))),
    }
    *counts.entry("connections that came and went").or_default() += n as usize;
    drop((tx, rx));
    if !until(|| t.with(|s| s.live.is_empty())).await { problems.push(("release", "a stream exists after all connections are gone".into())); }
}

/// volume SEED WHAT SIZE THREADS(0: one thread) TRANSPORT
pub fn volume(args: &[String]) {
    let (seed, what, size, threads, ws): (u64, &str, u32, usize, bool) = (args[0].parse().unwrap(), &args[1], args[2].parse().unwrap(), args[3].parse().unwrap(), args[4] == "ws");
    let name = format!("volume {} seed {seed}", args[1..].join(" "));
    let now = crate::watchdog(name.clone(), Duration::from_secs(200));
    crate::STARTED.store(now().max(1), Ordering::SeqCst);
    let rt = if threads == 0 { tokio::runtime::Builder::new_current_thread().enable_all().build() } else { tokio::runtime::Builder::new_multi_thread().worker_threads(threads).enable_all().build() }.unwrap();
    let mut r = Rng::new(seed, what.len() as u64 * 31 + size as u64);
    let mut problems = vec![];
    let mut counts: Counts = BTreeMap::new();
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        rt.block_on(async {
            let p = Place::new(ws);
            let (problems, counts) = (&mut problems, &mut counts);
            match what {
                "long" => long(&p, &mut r, size, problems, counts).await,
                "wide" => wide(&p, &mut r, size, problems, counts).await,
                "backlog" => backlog(&p, &mut r, size, problems, counts).await,
                "churn" => churn(&p, &mut r, size, problems, counts).await,
                _ => panic!("volume {what}"),
            }
            if let Some(s) = &p.server { s.abort(); }
        })
    }));
    if let Err(e) = res {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        problems.push(("crash", format!("panic: {m}")));
    }
    for (k, p) in problems.iter().take(5) {
        crate::out(json!({"t": "violation", "kind": k, "msg": p.chars().take(600).collect::<String>(), "scenario": name, "head": [], "tail": []}));
    }
    crate::out(json!({"t": "eval", "h": name}));
    rt.shutdown_timeout(Duration::from_millis(300));
    crate::STARTED.store(0, Ordering::SeqCst);
    crate::out(json!({"t": "done", "counts": counts}));
}
