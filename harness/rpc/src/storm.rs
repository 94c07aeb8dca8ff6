//! Many connections opened from several threads at once; afterwards each must own exactly its own streams.
use crate::api::{op, server, Trace};
use crate::rng::Rng;
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::Ordering;
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};
use zod::rpc::servers::proxy::{BackendProxy, ProxyRx, ProxyTx};
use zod::rpc::Request;

fn subscribe(key: u64, id: u64) -> Request {
    serde_json::from_value(json!({"exec": {"id": id, "namespace": "Alpha", "method": "items", "args": [key, [[op::EMIT, 1], [op::FOREVER, 0]]]}})).unwrap()
}
fn until(f: impl Fn() -> bool) -> bool {
    let end = Instant::now() + Duration::from_secs(20);
    while !f() {
        if Instant::now() > end {
            return false;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    true
}

/// storm SEED ROUNDS THREADS PER_THREAD
pub fn storm(args: &[String]) {
    let n: Vec<u64> = args.iter().map(|s| s.parse().unwrap()).collect();
    let (seed, rounds, threads, per) = (n[0], n[1], n[2] as usize, n[3] as usize);
    let now = crate::watchdog(format!("storm seed {seed}"), Duration::from_secs(120));
    let mut counts: BTreeMap<&str, usize> = BTreeMap::new();
    for round in 0..rounds {
        crate::STARTED.store(now().max(1), Ordering::SeqCst);
        let mut r = Rng::new(seed, 77_000 + round);
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
        let _g = rt.enter();
        let t = Arc::new(Trace::default());
        let proxy = BackendProxy::new(server(&t));
        let barrier = Barrier::new(threads);
        let same_id = r.p(0.7);
        let mut problems: Vec<(&str, String)> = vec![];
        // all threads open connections at once
        let mut cons: Vec<(u64, Option<(ProxyTx, ProxyRx)>)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|i| {
                    let (proxy, barrier) = (proxy.clone(), &barrier);
                    s.spawn(move || {
                        barrier.wait();
                        let l: Vec<_> = (0..per).map(|_| proxy.connect()).collect();
                        barrier.wait();
                        l.into_iter()
                            .enumerate()
                            .map(|(j, c)| {
                                let key = (i * per + j) as u64 + 1;
                                let (tx, rx) = c.split();
                                let _ = tx.send(Ok(subscribe(key, if same_id { 7 } else { key % 5 })));
                                (key, Some((tx, rx)))
                            })
                            .collect::<Vec<_>>()
                    })
                })
                .collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        });
        let all = threads * per;
        let produced = |t: &Trace| t.with(|s| s.produced.len());
        if !until(|| produced(&t) >= all) {
            problems.push(("never", format!("{} of {all} streams of as many connections emit", produced(&t))));
        }
        let mut expect: HashSet<u64> = (1..=all as u64).collect();
        let check = |expect: &HashSet<u64>, what: &str, problems: &mut Vec<(&str, String)>| {
            until(|| t.with(|s| s.live.is_subset(expect)));
            std::thread::sleep(Duration::from_millis(3));
            let live = t.with(|s| s.live.clone());
            let extra: Vec<_> = live.difference(expect).take(3).collect();
            let missing: Vec<_> = expect.difference(&live).take(3).collect();
            if !extra.is_empty() {
                problems.push((if what == "cancel" { "cancel" } else { "release" }, format!("{what}: the streams {extra:?} are still there")));
            }
            if !missing.is_empty() {
                problems.push(("stopped", format!("{what}: the streams {missing:?} were stopped although nobody asked for it")));
            }
        };
        check(&expect, "connect", &mut problems);
        // some cancel, some leave, from different threads
        let mut rest = vec![];
        let (mut cancel, mut leave) = (vec![], vec![]);
        for (key, c) in cons.drain(..) {
            match r.n(3) {
                0 => { expect.remove(&key); cancel.push((key, c)) }
                1 => { expect.remove(&key); leave.push((key, c)) }
                _ => rest.push((key, c)),
            }
        }
        *counts.entry("streams cancelled").or_default() += cancel.len();
        *counts.entry("streams of connections that left").or_default() += leave.len();
        std::thread::scope(|s| {
            let (cancel, rest) = (&cancel, &rest);
            s.spawn(move || {
                for (key, c) in cancel.iter() {
                    let id = if same_id { 7 } else { key % 5 };
                    let _ = c.as_ref().unwrap().0.send(Ok(serde_json::from_value(json!({"cancelStream": {"id": id}})).unwrap()));
                }
            });
            s.spawn(move || drop(leave));
            s.spawn(move || {
                // cancelling what does not exist
                for (key, c) in rest.iter() {
                    let _ = c.as_ref().unwrap().0.send(Ok(serde_json::from_value(json!({"cancelStream": {"id": key + 1_000_000}})).unwrap()));
                }
            });
        });
        check(&expect, "cancel", &mut problems);
        // what every remaining connection received
        for (key, c) in rest.iter_mut().chain(cancel.iter_mut()) {
            use futures::{FutureExt, StreamExt};
            let rx = &mut c.as_mut().unwrap().1;
            let mut got = vec![];
            while let Some(Some(m)) = rx.next().now_or_never() {
                got.push(serde_json::to_value(&m).unwrap());
            }
            if got.len() != 1 || got[0]["stream"]["data"]["key"] != json!(*key) {
                problems.push(("leak", format!("the connection of stream {key} receives {}", json!(got))));
                break;
            }
        }
        *counts.entry("connections").or_default() += all;
        *counts.entry("streams").or_default() += all;
        drop(rest);
        drop(cancel);
        check(&HashSet::new(), "leave", &mut problems);
        drop(proxy);
        for (k, p) in problems.iter().take(5) {
            crate::out(json!({"t": "violation", "kind": k, "msg": p, "scenario": format!("storm seed {seed} #{round}"), "head": [], "tail": []}));
        }
        crate::out(json!({"t": "eval", "h": format!("storm {seed} {round} {same_id}")}));
        *counts.entry("storms").or_default() += 1;
        rt.shutdown_timeout(Duration::from_millis(300));
        if !problems.is_empty() {
            break;
        }
    }
    crate::STARTED.store(0, Ordering::SeqCst);
    crate::out(json!({"t": "done", "counts": counts}));
}
