//! The backend under test: methods and streams follow a plan given as an argument and record every step.
use futures::Stream;
use std::collections::{HashMap, HashSet};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug)]
pub enum Ev {
    /// a method or stream function of this call starts to run
    Enter { key: u64, ns: &'static str, f: &'static str },
    Exit { key: u64, json: String },
    /// the future of a method was dropped before it was done
    Aborted { key: u64 },
    Produced { key: u64, seq: u32, bad: bool },
    End { key: u64 },
    Panicked { key: u64 },
    Dropped { key: u64 },
    Sent { con: usize, what: String },
    Got { con: usize, text: String },
    Connected { con: usize },
    Gone { con: usize, how: &'static str },
    Note { what: &'static str },
}

#[derive(Default)]
pub struct Trace {
    pub ev: Mutex<Vec<Ev>>,
    state: Mutex<State>,
    gates: tokio::sync::Notify,
    /// endless streams wait for the clock
    pub paced: std::sync::atomic::AtomicBool,
}
#[derive(Default)]
pub struct State {
    open: HashSet<u32>,
    all_open: bool,
    pub active: HashSet<u64>,
    pub exits: HashMap<u64, String>,
    pub entered: HashMap<u64, u32>,
    /// streams that exist
    pub live: HashSet<u64>,
    pub dropped: HashSet<u64>,
    pub ended: HashSet<u64>,
    pub produced: HashMap<u64, Vec<(u32, bool)>>,
}

impl Trace {
    pub fn log(&self, e: Ev) {
        let mut ev = self.ev.lock().unwrap();
        {
            let mut s = self.state.lock().unwrap();
            match &e {
                Ev::Enter { key, .. } => *s.entered.entry(*key).or_default() += 1,
                Ev::Exit { key, json } => {
                    s.exits.insert(*key, json.clone());
                }
                Ev::Produced { key, seq, bad } => s.produced.entry(*key).or_default().push((*seq, *bad)),
                Ev::End { key } | Ev::Panicked { key } => {
                    s.ended.insert(*key);
                }
                Ev::Dropped { key } => {
                    s.live.remove(key);
                    s.dropped.insert(*key);
                }
                _ => {}
            }
        }
        ev.push(e);
    }
    pub fn len(&self) -> usize {
        self.ev.lock().unwrap().len()
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut State) -> R) -> R {
        f(&mut self.state.lock().unwrap())
    }
    pub fn open_gate(&self, g: u32) {
        self.state.lock().unwrap().open.insert(g);
        self.gates.notify_waiters();
    }
    pub fn open_all(&self) {
        self.state.lock().unwrap().all_open = true;
        self.gates.notify_waiters();
    }
    async fn gate(&self, g: u32) {
        loop {
            let n = self.gates.notified();
            tokio::pin!(n);
            n.as_mut().enable();
            {
                let s = self.state.lock().unwrap();
                if s.all_open || s.open.contains(&g) {
                    return;
                }
            }
            n.await;
        }
    }
}

/// what happens in a method or a stream, in order
pub type Plan = Vec<(u8, u32)>;
pub mod op {
    pub const EMIT: u8 = 0; // n items in a row that are all ready
    pub const BAD: u8 = 1; // an item that cannot be serialised
    pub const YIELD: u8 = 2; // n times
    pub const SLEEP: u8 = 3; // n ms
    pub const GATE: u8 = 4; // until the gate is opened
    pub const PANIC: u8 = 5;
    pub const FOREVER: u8 = 6; // pending for ever
    pub const ENDLESS: u8 = 7; // items for ever, n yields in between
    pub const BUSY: u8 = 8; // yields for ever
    pub const BIG: u8 = 9; // an item of n bytes
}

async fn pause(t: &Trace, (o, n): (u8, u32)) {
    match o {
        op::YIELD => {
            for _ in 0..n {
                tokio::task::yield_now().await
            }
        }
        op::SLEEP => tokio::time::sleep(Duration::from_millis(n as u64)).await,
        op::GATE => t.gate(n).await,
        op::FOREVER => std::future::pending().await,
        op::BUSY => loop {
            tokio::task::yield_now().await
        },
        _ => {}
    }
}

struct Call {
    t: Arc<Trace>,
    key: u64,
    done: bool,
}
impl Call {
    fn enter(t: &Arc<Trace>, key: u64, ns: &'static str, f: &'static str) -> Self {
        t.log(Ev::Enter { key, ns, f });
        Call { t: t.clone(), key, done: false }
    }
    fn exit<T: serde::Serialize>(mut self, v: T) -> T {
        self.done = true;
        let json = serde_json::to_string(&v).unwrap_or_else(|_| "!".into());
        self.t.log(Ev::Exit { key: self.key, json });
        v
    }
}
impl Drop for Call {
    fn drop(&mut self) {
        if !self.done {
            self.t.log(Ev::Aborted { key: self.key });
        }
    }
}

pub fn pad(key: u64, seq: u32) -> String {
    format!("{key}:{seq}:{}", "é\u{1F600}\"\\\n".repeat((key.wrapping_add(seq as u64) % 3) as usize))
}

struct Guard {
    t: Arc<Trace>,
    key: u64,
}
impl Guard {
    fn new(t: Arc<Trace>, key: u64) -> Self {
        t.with(|s| s.live.insert(key));
        Guard { t, key }
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        self.t.log(Ev::Dropped { key: self.key });
    }
}

struct Run {
    g: Guard,
    plan: Plan,
    pc: usize,
    left: u32,
    seq: u32,
}
impl Run {
    fn emit(&mut self, bad: bool, size: u32) -> Item {
        let seq = self.seq;
        self.seq += 1;
        let key = self.g.key;
        self.g.t.log(Ev::Produced { key, seq, bad });
        let mut p = pad(key, seq);
        while p.len() < size as usize {
            p.push('x')
        }
        Item { key, seq, pad: p, bad }
    }
}

pub fn run_stream(t: &Arc<Trace>, key: u64, plan: Plan, ns: &'static str, f: &'static str) -> impl Stream<Item = Item> {
    t.log(Ev::Enter { key, ns, f });
    let run = Run { g: Guard::new(t.clone(), key), plan, pc: 0, left: 0, seq: 0 };
    futures::stream::unfold(run, |mut r| async move {
        loop {
            if r.left > 0 {
                r.left -= 1;
                let item = r.emit(false, 0);
                return Some((item, r));
            }
            let Some(&(o, n)) = r.plan.get(r.pc) else {
                r.g.t.log(Ev::End { key: r.g.key });
                return None;
            };
            r.pc += 1;
            match o {
                op::EMIT => r.left = n,
                op::BAD => {
                    let item = r.emit(true, 0);
                    return Some((item, r));
                }
                op::BIG => {
                    let item = r.emit(false, n);
                    return Some((item, r));
                }
                op::PANIC => {
                    r.g.t.log(Ev::Panicked { key: r.g.key });
                    panic!("{}", crate::EXPECTED_PANIC);
                }
                op::ENDLESS => {
                    let step = if r.g.t.paced.load(std::sync::atomic::Ordering::SeqCst) { op::SLEEP } else { op::YIELD };
                    pause(&r.g.t, (step, n)).await;
                    r.pc -= 1;
                    let item = r.emit(false, 0);
                    return Some((item, r));
                }
                _ => {
                    let t = r.g.t.clone();
                    pause(&t, (o, n)).await
                }
            }
        }
    })
}

#[derive(zod::Namespace)]
pub struct Alpha {
    pub t: Arc<Trace>,
    pub total: i64,
}
#[derive(zod::Namespace)]
#[namespace(name = "beta_ns")]
pub struct Beta {
    pub t: Arc<Trace>,
    pub total: i64,
    pub keys: Vec<u64>,
}

#[derive(zod::Zod, Debug)]
#[zod(namespace = "Alpha")]
pub struct Item {
    pub key: u64,
    pub seq: u32,
    pub pad: String,
    pub bad: bool,
}
impl serde::Serialize for Item {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.bad {
            return Err(serde::ser::Error::custom("bad item"));
        }
        (serde_json::json!({"key": self.key, "seq": self.seq, "pad": self.pad})).serialize(s)
    }
}

#[derive(zod::Zod, serde::Serialize)]
#[zod(namespace = "Alpha")]
pub struct Reply {
    pub key: u64,
    pub value: i64,
}

#[derive(zod::Zod)]
#[zod(namespace = "Alpha")]
pub struct Bad {
    pub key: u64,
}
impl serde::Serialize for Bad {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("bad result"))
    }
}

#[zod::rpc::namespace]
impl Alpha {
    /// not atomic
    pub async fn add(&mut self, key: u64, plan: Plan, n: i64) -> Reply {
        let c = Call::enter(&self.t, key, "Alpha", "add");
        let before = self.total;
        for p in plan {
            pause(&self.t, p).await;
        }
        self.total = before + n;
        c.exit(Reply { key, value: before })
    }
    pub async fn get(&mut self, key: u64) -> Reply {
        let c = Call::enter(&self.t, key, "Alpha", "get");
        c.exit(Reply { key, value: self.total })
    }
    pub async fn fail(&mut self, key: u64, plan: Plan) -> Bad {
        let c = Call::enter(&self.t, key, "Alpha", "fail");
        for p in plan {
            pause(&self.t, p).await;
        }
        c.exit(Bad { key })
    }
    pub async fn unit(&mut self, key: u64) {
        let c = Call::enter(&self.t, key, "Alpha", "unit");
        c.exit(())
    }
    pub async fn echo(&mut self, key: u64, s: String) -> (u64, String) {
        let c = Call::enter(&self.t, key, "Alpha", "echo");
        c.exit((key, s))
    }
    pub async fn big(&mut self, key: u64, n: u32) -> (u64, String) {
        let c = Call::enter(&self.t, key, "Alpha", "big");
        c.exit((key, "y".repeat(n as usize)))
    }
    pub async fn nop(&mut self) -> bool {
        let c = Call::enter(&self.t, u64::MAX, "Alpha", "nop");
        c.exit(true)
    }
    pub fn items(&mut self, key: u64, plan: Plan) -> impl Stream<Item = Item> {
        run_stream(&self.t, key, plan, "Alpha", "items")
    }
    pub fn boxed(&mut self, key: u64, plan: Plan) -> Pin<Box<dyn Stream<Item = Item> + Send>> {
        Box::pin(run_stream(&self.t, key, plan, "Alpha", "boxed"))
    }
}

#[zod::rpc::namespace]
impl Beta {
    /// the same name and signature as in the other namespace, another state
    pub async fn add(&mut self, key: u64, plan: Plan, n: i64) -> Reply {
        let c = Call::enter(&self.t, key, "beta_ns", "add");
        let before = self.total;
        for p in plan {
            pause(&self.t, p).await;
        }
        self.total = before + n;
        c.exit(Reply { key, value: before })
    }
    /// all keys pushed before
    pub async fn push(&mut self, key: u64, plan: Plan) -> Vec<u64> {
        let c = Call::enter(&self.t, key, "beta_ns", "push");
        let before = self.keys.clone();
        for p in plan {
            pause(&self.t, p).await;
        }
        self.keys.push(key);
        let last: Vec<u64> = std::iter::once(key).chain(before.into_iter().rev().take(5)).collect();
        c.exit(last)
    }
    pub fn items(&mut self, key: u64, plan: Plan) -> impl Stream<Item = Item> {
        run_stream(&self.t, key, plan, "beta_ns", "items")
    }
}

#[derive(zod::rpc::Backend)]
pub struct Server {
    pub alpha: Alpha,
    pub beta: Beta,
}

pub fn server(t: &Arc<Trace>) -> Server {
    Server { alpha: Alpha { t: t.clone(), total: 0 }, beta: Beta { t: t.clone(), total: 0, keys: vec![] } }
}
