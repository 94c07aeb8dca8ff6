mod api;
mod hostile;
mod judge;
mod rng;
mod storm;
mod volume;
mod world;

use rng::Rng;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};
use world::{Mode, World, PROFILES};

pub const EXPECTED_PANIC: &str = "the stream panics on purpose";

static STARTED: AtomicU64 = AtomicU64::new(0);

fn out(v: serde_json::Value) {
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = writeln!(o, "{v}");
    let _ = o.flush();
}

fn mode(s: &str) -> Mode {
    match s {
        "raw" => Mode::Raw,
        "proxy" => Mode::Proxy,
        "threads" => Mode::Threads,
        "ws" => Mode::Ws,
        "ws1" => Mode::Ws1,
        _ => panic!("mode {s}"),
    }
}

/// report that nothing happens any more
fn watchdog(name: String, limit: Duration) -> impl Fn() -> u64 + Copy {
    let begin = Instant::now();
    let now = move || begin.elapsed().as_millis() as u64;
    STARTED.store(1, Ordering::SeqCst);
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let s = STARTED.load(Ordering::SeqCst);
        if s > 0 && now() > s && Duration::from_millis(now() - s) > limit {
            out(serde_json::json!({"t": "violation", "kind": "hang", "scenario": name, "msg": "nothing proceeds any more"}));
            std::process::exit(0);
        }
    });
    now
}

/// run SEED FROM COUNT PROFILE MODE
fn run(args: &[String]) {
    let (seed, from, count): (u64, u64, u64) = (args[0].parse().unwrap(), args[1].parse().unwrap(), args[2].parse().unwrap());
    let p = *PROFILES.iter().find(|p| p.name == args[3]).expect("profile");
    let m = mode(&args[4]);
    let limit = Duration::from_secs(args.get(5).map_or(40, |s| s.parse().unwrap()));
    let name = format!("{} {} seed {seed}", args[3], args[4]);
    let now = watchdog(name.clone(), limit);
    let mut st = judge::Stats::default();
    let mut found = 0;
    for i in from..from + count {
        STARTED.store(now().max(1), Ordering::SeqCst);
        let rt = match m {
            Mode::Raw | Mode::Proxy => tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build(),
            Mode::Ws1 => tokio::runtime::Builder::new_current_thread().enable_all().build(),
            _ => tokio::runtime::Builder::new_multi_thread().worker_threads(2 + (i % 3) as usize).enable_all().build(),
        }
        .unwrap();
        let salt = args[3].bytes().chain(args[4].bytes()).fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64));
        let r = Rng::new(seed, i.wrapping_mul(1_000_003) ^ salt);
        let problems = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.block_on(async {
            let mut r = r;
            let steps = *r.pick(&[12, 30, 60, 100]);
            let mut w = World::new(m, p, r).await;
            for _ in 0..steps {
                w.step().await;
            }
            w.finish().await;
            let mut problems = judge::judge(&w, &mut st);
            let n = w.problems.len();
            w.end().await;
            problems.extend(w.problems[n.min(w.problems.len())..].iter().cloned());
            if problems.is_empty() {
                let ev = w.t.ev.lock().unwrap();
                // the interleaving: who did what, without payloads
                let mut h = 0xcbf2_9ce4_8422_2325u64;
                let mut kinds = 0;
                for e in ev.iter() {
                    let s = format!("{e:?}");
                    let n = if matches!(e, api::Ev::Got { .. }) { 24 } else { 60 };
                    for b in s.bytes().take(n) {
                        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
                    }
                    kinds += matches!(e, api::Ev::Enter { .. }) as usize;
                }
                out(serde_json::json!({"t": "eval", "h": if kinds > 1 { format!("{h:x}") } else { String::new() }}));
                if i == from {
                    out(serde_json::json!({"t": "sample", "scenario": format!("{name} #{i}"), "events": ev.iter().take(25).map(|e| format!("{e:?}")).collect::<Vec<_>>()}));
                }
            } else {
                let ev = w.t.ev.lock().unwrap();
                let tail: Vec<String> = ev.iter().skip(ev.len().saturating_sub(150)).map(|e| { let s = format!("{e:?}"); s.chars().take(200).collect() }).collect();
                let head: Vec<String> = ev.iter().take(80).map(|e| { let s = format!("{e:?}"); s.chars().take(200).collect() }).collect();
                for (k, p) in problems.iter().take(6) {
                    out(serde_json::json!({"t": "violation", "kind": k, "msg": p, "scenario": format!("{name} #{i}"), "head": head, "tail": tail}));
                }
                found += 1;
            }
            problems
        })));
        if let Err(e) = &problems {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            out(serde_json::json!({"t": "violation", "kind": "crash", "msg": format!("panic while a request is handled: {m}"), "scenario": format!("{name} #{i}"), "head": [], "tail": []}));
            found += 3;
        }
        st.add("scenarios", 1);
        let _ = problems;
        STARTED.store(now().max(1), Ordering::SeqCst);
        rt.shutdown_timeout(Duration::from_millis(300));
        if found >= 3 {
            break;
        }
    }
    STARTED.store(0, Ordering::SeqCst);
    out(serde_json::json!({"t": "done", "counts": st.n}));
}

fn main() {
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let expected = i.payload().downcast_ref::<&str>().map_or(false, |s| *s == EXPECTED_PANIC) || i.payload().downcast_ref::<String>().map_or(false, |s| s == EXPECTED_PANIC);
        if !expected {
            hook(i)
        }
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args[0].as_str() {
        "run" => run(&args[1..]),
        "storm" => storm::storm(&args[1..]),
        "volume" => volume::volume(&args[1..]),
        _ => panic!("unknown command"),
    }
}
