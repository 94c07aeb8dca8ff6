//! What must hold of a recorded history.
use crate::api::{pad, Ev};
use crate::hostile::Expect;
use crate::world::{Kind, Req, World};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Default)]
pub struct Stats {
    pub n: BTreeMap<&'static str, usize>,
}
impl Stats {
    pub fn add(&mut self, k: &'static str, n: usize) {
        *self.n.entry(k).or_default() += n;
    }
}

fn short(s: &str) -> String {
    if s.chars().count() > 200 { s.chars().take(200).collect::<String>() + "..." } else { s.to_string() }
}

pub fn judge(w: &World, st: &mut Stats) -> Vec<(&'static str, String)> {
    let mut out: Vec<(&'static str, String)> = w.problems.clone();
    let mut bad = |k: &'static str, m: String| if out.len() < 30 { out.push((k, m)) };
    let ev = w.t.ev.lock().unwrap();
    let by_key: HashMap<u64, &Req> = w.reqs.iter().filter(|q| matches!(q.kind, Kind::Method { .. } | Kind::Stream { .. })).map(|q| (q.key, q)).collect();

    // ------------------------------------------------ execution
    let mut active: Option<(u64, usize)> = None;
    let mut order: HashMap<usize, Vec<u64>> = HashMap::new();
    let mut ran: HashMap<u64, usize> = HashMap::new();
    let mut exits: HashMap<u64, &str> = HashMap::new();
    let (mut totals, mut keys): (HashMap<&str, i64>, Vec<u64>) = (HashMap::new(), vec![]);
    let mut current: Option<(u64, &str, &str)> = None;
    let mut nops = 0;
    let mut produced_after_drop: HashSet<u64> = HashSet::new();
    let mut dropped: HashSet<u64> = HashSet::new();
    let mut produced: HashMap<u64, Vec<(u32, bool, usize)>> = HashMap::new();
    for (i, e) in ev.iter().enumerate() {
        match e {
            Ev::Enter { key, ns, f } => {
                st.add("executions", 1);
                if let Some((k, at)) = active {
                    bad("mutex", format!("call {key} ({ns}.{f}) starts while call {k}, started at {at}, is running"));
                }
                let nop = *f == "nop";
                if nop { nops += 1; }
                match by_key.get(key) {
                    None if !nop => bad("hostile", format!("{ns}.{f} runs for key {key} which no valid request has")),
                    Some(q) => {
                        let n = ran.entry(*key).or_default();
                        *n += 1;
                        if *n > 1 { bad("twice", format!("call {key} ({ns}.{f}) is executed {n} times")); }
                        if let Kind::Method { ns: n2, f: f2, .. } = q.kind {
                            if n2 != *ns || f2 != *f { bad("resp", format!("call {key} of {n2}.{f2} runs {ns}.{f}")); }
                        }
                        if i < q.at { bad("order", format!("call {key} runs before it was sent")); }
                        order.entry(q.con).or_default().push(*key);
                    }
                    _ => {}
                }
                if !matches!(*f, "items" | "boxed") {
                    active = Some((*key, i));
                    current = Some((*key, ns, f));
                }
            }
            Ev::Exit { key, json } => {
                active = None;
                exits.insert(*key, json);
                // the sequential model
                if let Some((k, ns, f)) = current.take() {
                    if k == *key {
                        let n = match by_key.get(key).map(|q| &q.kind) {
                            Some(Kind::Method { n, .. }) => *n,
                            _ => 0,
                        };
                        let want = match f {
                            "add" => { let t = totals.entry(ns).or_default(); let b = *t; *t += n; Some(json!({"key": key, "value": b})) }
                            "get" => Some(json!({"key": key, "value": totals.get(ns).copied().unwrap_or(0)})),
                            "push" => { let v: Vec<u64> = std::iter::once(*key).chain(keys.iter().rev().take(5).copied()).collect(); keys.push(*key); Some(json!(v)) }
                            _ => None,
                        };
                        if let Some(want) = want {
                            st.add("results compared with the model", 1);
                            if serde_json::from_str::<Value>(json).ok().as_ref() != Some(&want) { bad("lin", format!("call {key} ({ns}.{f}) returns {json} but one call after the other gives {want}")); }
                        }
                    }
                }
            }
            Ev::Aborted { key } => {
                active = None;
                bad("aborted", format!("call {key} started but was given up"));
            }
            Ev::Produced { key, seq, bad: b } => {
                produced.entry(*key).or_default().push((*seq, *b, i));
                if dropped.contains(key) { produced_after_drop.insert(*key); }
            }
            Ev::Dropped { key } => { dropped.insert(*key); }
            _ => {}
        }
    }
    if let Some((k, _)) = active { bad("aborted", format!("call {k} started but never ends")); }
    for (c, o) in &order {
        let pos: HashMap<u64, usize> = w.reqs.iter().enumerate().filter(|(_, q)| q.con == *c).map(|(i, q)| (q.key, i)).collect();
        for p in o.windows(2) {
            if pos[&p[0]] > pos[&p[1]] { bad("order", format!("connection {c} sent call {} before {} but they run the other way round", p[1], p[0])); break; }
        }
    }

    // ------------------------------------------------ what every connection received
    let got = {
        let mut g: Vec<Vec<(usize, &str)>> = vec![vec![]; w.cons.len()];
        for (i, e) in ev.iter().enumerate() { if let Ev::Got { con, text } = e { g[*con].push((i, text)); } }
        g
    };
    let mut sure_nops = 0;
    let mut all_nops = 0;
    let mut final_ids: HashSet<u64> = HashSet::new();
    for (c, con) in w.cons.iter().enumerate() {
        let here = con.gone.is_none();
        if here { st.add("connections served to the end", 1); } else { st.add("connections that left", 1); }
        if here && con.ended.load(std::sync::atomic::Ordering::SeqCst) { bad("alive", format!("connection {c} was ended by the server")); }
        // owed, in the order sent
        let mut want: Vec<(String, String)> = vec![]; // answer, which call
        let mut want_null = 0;
        let mut either: Vec<u64> = vec![];
        for q in w.reqs.iter().filter(|q| q.con == c) {
            match &q.kind {
                Kind::Method { f, .. } => {
                    let k = if *f == "nop" { u64::MAX } else { q.key };
                    if *f == "nop" { all_nops += 1; if here { sure_nops += 1; } }
                    match exits.get(&k) {
                        Some(&"!") => want.push((format!("E{}", q.id), format!("call {k}"))),
                        Some(j) => want.push((format!("M{} {}", q.id, serde_json::from_str::<Value>(j).unwrap()), format!("call {k}"))),
                        None if here && !q.doubtful => bad(if q.probe { "alive" } else { "never" }, format!("call {} (id {}, {f}) of connection {c} never runs", q.key, q.id)),
                        None => {}
                    }
                }
                Kind::Bad(Expect::NoId) => want_null += 1,
                Kind::Bad(Expect::WithId(i)) => want.push((format!("E{i}"), "malformed call".into())),
                Kind::Bad(Expect::Either(i)) => either.push(*i),
                _ => {}
            }
        }
        let mut have: Vec<String> = vec![];
        let mut nulls = 0;
        let mut streams: HashMap<u64, Vec<(Option<u32>, usize)>> = HashMap::new();
        let mut bad_id_seq: HashMap<u64, Vec<Option<u32>>> = HashMap::new();
        for (at, text) in &got[c] {
            st.add("messages received", 1);
            if let Some(p) = text.strip_prefix("pong ") {
                let _ = p;
                continue;
            }
            let v: Value = match serde_json::from_str(text) {
                Ok(v) => v,
                Err(_) => { bad("transport", format!("connection {c} receives something that is no response: {}", short(text))); continue; }
            };
            let shape = v.as_object().filter(|o| o.len() == 1).and_then(|o| o.iter().next()).and_then(|(k, b)| b.as_object().filter(|b| b.len() == 2 && b.contains_key("id") && b.contains_key("data")).map(|b| (k.as_str(), &b["id"], &b["data"])));
            let Some((kind, id, data)) = shape else { bad("transport", format!("connection {c} receives {}", short(text))); continue; };
            match (kind, id.as_u64()) {
                ("method", Some(id)) => have.push(format!("M{id} {data}")),
                ("stream", Some(id)) => {
                    st.add("stream items received", 1);
                    let (Some(key), Some(seq)) = (data["key"].as_u64(), data["seq"].as_u64()) else { bad("item", format!("connection {c} receives the stream item {}", short(text))); continue; };
                    let seq = seq as u32;
                    match by_key.get(&key) {
                        Some(q) if q.con != c => bad("leak", format!("connection {c} receives an item of stream {key} of connection {}", q.con)),
                        Some(q) if q.id != id => bad("leak", format!("an item of stream {key} has the id {id} instead of {}", q.id)),
                        Some(q) => {
                            let p = data["pad"].as_str().unwrap_or("");
                            let base = pad(key, seq);
                            if !(p.starts_with(&base) && p[base.len()..].bytes().all(|b| b == b'x')) { bad("item", format!("item {seq} of stream {key} is {}", short(text))); }
                            streams.entry(key).or_default().push((Some(seq), *at));
                            if let Kind::Stream { bad: true, .. } = q.kind { bad_id_seq.entry(id).or_default().push(Some(seq)); }
                        }
                        None => bad("leak", format!("connection {c} receives an item of the unknown stream {key}")),
                    }
                }
                ("error", Some(id)) if stream_with_bad(w, c, id) => bad_id_seq.entry(id).or_default().push(None),
                ("error", Some(id)) => {
                    // whether these carry the id is open
                    if let Some(i) = either.iter().position(|x| *x == id).filter(|_| !want_has_more(&want, &have, id)) { either.remove(i); } else { have.push(format!("E{id}")); }
                }
                ("error", None) if id.is_null() => nulls += 1,
                _ => bad("transport", format!("connection {c} receives {}", short(text))),
            }
        }
        st.add("answers to malformed input", nulls + have.iter().filter(|h| h.starts_with('E')).count());
        st.add("answers to calls", have.iter().filter(|h| h.starts_with('M')).count());
        // answers
        let mut count: BTreeMap<&str, i64> = BTreeMap::new();
        for (a, _) in &want { *count.entry(a).or_default() += 1; }
        for h in &have { *count.entry(h).or_default() -= 1; }
        let mut equal = true;
        for (a, n) in count {
            if n == 0 { continue; }
            equal = false;
            let who = want.iter().find(|x| x.0 == a).map_or("", |x| &x.1);
            let doubt = w.reqs.iter().any(|q| q.con == c && q.doubtful);
            let kind = if who == "malformed call" { "hostile" } else { "resp" };
            if n < 0 { bad(if a.starts_with('E') && who.is_empty() { "hostile" } else { kind }, format!("connection {c} receives {} answers {} too many ({} {who})", -n, short(a), if who.is_empty() { "nobody asked for it" } else { "for" })); }
            else if here && !doubt { bad(kind, format!("connection {c} does not receive the answer {} for {who}", short(a))); }
        }
        if here && equal {
            let w2: Vec<&String> = want.iter().map(|x| &x.0).collect();
            let h2: Vec<&String> = have.iter().collect();
            if w2 != h2 {
                let i = w2.iter().zip(&h2).position(|(a, b)| a != b).unwrap_or(0);
                bad("answers-order", format!("connection {c} receives answer {i}: {} where {} ({}) was sent earlier", short(h2[i]), short(w2[i]), want[i].1));
            }
        }
        if nulls > want_null + either.len() { bad("hostile", format!("connection {c} receives {nulls} errors without id for {want_null} texts that owe one")); }
        if here && nulls < want_null { bad("hostile", format!("connection {c} receives {nulls} errors without id for {want_null} texts that owe one")); }
        if here && nulls != want_null + either.len() && !either.is_empty() { bad("hostile", format!("connection {c} receives {nulls} errors without id instead of {}", want_null + either.len())); }

        // streams
        for (i, q) in w.reqs.iter().enumerate().filter(|(_, q)| q.con == c) {
            let Kind::Stream { finite, bad: has_bad, plan } = &q.kind else { continue };
            if q.doubtful { continue; }
            st.add("streams", 1);
            let cancelled = w.cancelled(i);
            let p = produced.get(&q.key).map(|p| p.as_slice()).unwrap_or(&[]);
            let good: Vec<u32> = p.iter().filter(|x| !x.1).map(|x| x.0).collect();
            let rec: Vec<u32> = streams.get(&q.key).map_or(vec![], |l| l.iter().filter_map(|x| x.0).collect());
            let what = format!("stream {} (connection {c}, id {}, plan {plan:?}{})", q.key, q.id, if cancelled { ", cancelled" } else if !here { ", left" } else { "" });
            if rec.len() > good.len() || rec[..] != good[..rec.len()] {
                let k = rec.iter().zip(&good).position(|(a, b)| a != b).unwrap_or(good.len());
                bad("item", format!("{what}: item {k} received is {:?}, produced {:?}", rec.get(k), good.get(k)));
                continue;
            }
            if produced_after_drop.contains(&q.key) { bad("cancel", format!("{what}: produced after it was dropped")); }
            let state = w.t.with(|s| (s.entered.contains_key(&q.key), s.ended.contains(&q.key), s.live.contains(&q.key), s.dropped.contains(&q.key)));
            if here && !cancelled {
                if !state.0 { bad("never", format!("{what} never starts")); continue; }
                let due = p.iter().filter(|x| !x.1 && x.2 < w.stopped_at).count();
                if rec.len() < due { bad("item", format!("{what}: {} of {due} items received", rec.len())); }
                if *finite && !state.1 { bad(if state.2 { "stalled" } else { "stopped" }, format!("{what} {} before its end", if state.2 { "does not proceed" } else { "was stopped" })); }
                if !*finite && state.3 { bad("stopped", format!("{what} was stopped")); }
                if *finite && state.1 && state.2 { bad("stalled", format!("{what} is over but still exists")); }
                if plan.last().map_or(false, |l| l.0 == crate::api::op::ENDLESS) { st.add("endless streams", 1); if p.is_empty() { bad("stalled", format!("{what} does not proceed")); } }
                st.add("streams compared item by item", 1);
                final_ids.insert(q.id);
            }
            if cancelled { st.add("streams cancelled", 1); if here && state.2 { bad("cancel", format!("{what} still exists")); } }
            if !here { st.add("streams of connections that left", 1); if state.2 { bad("release", format!("{what} still exists")); } }
            if *has_bad {
                // one error in the place of each item
                let seq = bad_id_seq.get(&q.id).cloned().unwrap_or_default();
                let all: Vec<Option<u32>> = p.iter().map(|x| if x.1 { None } else { Some(x.0) }).collect();
                let need = if here && !cancelled { p.iter().filter(|x| x.2 < w.stopped_at).count() } else { 0 };
                if seq.len() > all.len() || seq[..] != all[..seq.len()] || seq.len() < need { bad("bad-item", format!("{what}: received {:?} of {:?} (None: error)", &seq[..seq.len().min(20)], &all[..all.len().min(20)])); }
                st.add("items that cannot be serialised", all.iter().filter(|x| x.is_none()).count());
            }
        }
    }
    if nops < sure_nops || nops > all_nops { bad("twice", format!("nop runs {nops} times for {all_nops} calls")); }
    // pings are answered in the transport
    for (c, d) in &w.pings {
        st.add("pings", 1);
        if w.cons[*c].gone.is_none() && !got[*c].iter().any(|(_, t)| *t == format!("pong {d:?}")) { bad("ping", format!("connection {c} does not receive the pong for {d:?}")); }
    }
    st.add("events", ev.len());
    out
}

fn stream_with_bad(w: &World, c: usize, id: u64) -> bool {
    w.reqs.iter().any(|q| q.con == c && q.id == id && matches!(q.kind, Kind::Stream { bad: true, .. }))
}
/// an error with this id is still owed to an ordinary call
fn want_has_more(want: &[(String, String)], have: &[String], id: u64) -> bool {
    let a = format!("E{id}");
    want.iter().filter(|x| x.0 == a).count() > have.iter().filter(|h| **h == a).count()
}
