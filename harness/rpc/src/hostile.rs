//! Input that is not a valid request, with the answer the server owes.
use crate::rng::Rng;
use serde_json::{json, Value};

#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    /// one error without an id
    NoId,
    /// one error with this id
    WithId(u64),
    /// one error, with or without it
    Either(u64),
}

/// namespace, method, arguments
pub const METHODS: &[(&str, &str, &[Arg])] = &[
    ("Alpha", "add", &[Arg::U64, Arg::Plan, Arg::I64]),
    ("Alpha", "get", &[Arg::U64]),
    ("Alpha", "fail", &[Arg::U64, Arg::Plan]),
    ("Alpha", "unit", &[Arg::U64]),
    ("Alpha", "echo", &[Arg::U64, Arg::Str]),
    ("Alpha", "big", &[Arg::U64, Arg::U32]),
    ("Alpha", "nop", &[]),
    ("Alpha", "items", &[Arg::U64, Arg::Plan]),
    ("Alpha", "boxed", &[Arg::U64, Arg::Plan]),
    ("beta_ns", "add", &[Arg::U64, Arg::Plan, Arg::I64]),
    ("beta_ns", "push", &[Arg::U64, Arg::Plan]),
    ("beta_ns", "items", &[Arg::U64, Arg::Plan]),
];
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Arg {
    U64,
    U32,
    I64,
    Str,
    Plan,
}
impl Arg {
    fn ok(self, v: &Value) -> bool {
        let u32_ = |v: &Value| v.as_u64().map_or(false, |n| n <= u32::MAX as u64);
        match self {
            Arg::U64 => v.is_u64(),
            Arg::U32 => u32_(v),
            Arg::I64 => v.is_i64(),
            Arg::Str => v.is_string(),
            Arg::Plan => v.as_array().map_or(false, |l| {
                l.iter().all(|p| p.as_array().map_or(false, |p| p.len() == 2 && p[0].as_u64().map_or(false, |n| n <= 255) && u32_(&p[1])))
            }),
        }
    }
    fn good(self) -> Value {
        match self {
            Arg::U64 | Arg::U32 => json!(77),
            Arg::I64 => json!(-7),
            Arg::Str => json!("s"),
            Arg::Plan => json!([[2, 1]]),
        }
    }
}

/// does an object of the text have two members of one name?
fn duplicates(text: &str) -> bool {
    use serde::de::*;
    struct D;
    impl<'de> DeserializeSeed<'de> for &mut D {
        type Value = bool;
        fn deserialize<T: Deserializer<'de>>(self, d: T) -> Result<bool, T::Error> {
            d.deserialize_any(self)
        }
    }
    impl<'de> Visitor<'de> for &mut D {
        type Value = bool;
        fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("json")
        }
        fn visit_bool<E>(self, _: bool) -> Result<bool, E> {
            Ok(false)
        }
        fn visit_i64<E>(self, _: i64) -> Result<bool, E> {
            Ok(false)
        }
        fn visit_u64<E>(self, _: u64) -> Result<bool, E> {
            Ok(false)
        }
        fn visit_f64<E>(self, _: f64) -> Result<bool, E> {
            Ok(false)
        }
        fn visit_str<E>(self, _: &str) -> Result<bool, E> {
            Ok(false)
        }
        fn visit_unit<E>(self) -> Result<bool, E> {
            Ok(false)
        }
        fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<bool, A::Error> {
            let mut r = false;
            while let Some(x) = a.next_element_seed(&mut *self)? {
                r |= x;
            }
            Ok(r)
        }
        fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<bool, A::Error> {
            let mut seen = std::collections::HashSet::new();
            let mut r = false;
            while let Some(k) = a.next_key::<String>()? {
                r |= !seen.insert(k);
                r |= a.next_value_seed(&mut *self)?;
            }
            Ok(r)
        }
    }
    let mut d = serde_json::Deserializer::from_str(text);
    (&mut D).deserialize(&mut d).unwrap_or(false)
}

/// None: a valid request, or the protocol says nothing about it
pub fn classify(text: &str) -> Option<Expect> {
    let v: Value = match serde_json::from_str(text) {
        Ok(v) => v,
        Err(_) => return Some(Expect::NoId),
    };
    if duplicates(text) {
        return None;
    }
    let Value::Object(o) = &v else {
        // the name of a variant without content is no request either
        return Some(Expect::NoId);
    };
    if o.len() != 1 {
        return if o.is_empty() || !(o.contains_key("exec") || o.contains_key("cancelStream")) { Some(Expect::NoId) } else { None };
    }
    let (k, body) = o.iter().next().unwrap();
    match k.as_str() {
        "exec" => {
            let Value::Object(b) = body else {
                return if body.is_array() { None } else { Some(Expect::NoId) };
            };
            let id = match b.get("id") {
                Some(Value::Number(n)) if n.is_u64() => n.as_u64().unwrap(),
                _ => return Some(Expect::NoId),
            };
            let err = Some(Expect::WithId(id));
            let Some(Value::String(ns)) = b.get("namespace") else { return err };
            let Some(Value::String(m)) = b.get("method") else { return err };
            let Some((_, _, sig)) = METHODS.iter().find(|x| x.0 == ns && x.1 == m) else { return err };
            let Some(Value::Array(args)) = b.get("args") else {
                return if b.get("args").map_or(false, |a| a.is_object() || a.is_null()) && sig.is_empty() { None } else { err };
            };
            if args.len() != sig.len() || !args.iter().zip(sig.iter()).all(|(a, s)| s.ok(a)) {
                return err;
            }
            None
        }
        "cancelStream" => {
            let Value::Object(b) = body else {
                return if body.is_array() { None } else { Some(Expect::NoId) };
            };
            match b.get("id") {
                // cancelling itself is done elsewhere
                Some(Value::Number(n)) if n.is_u64() => None,
                _ => Some(Expect::NoId),
            }
        }
        _ => Some(Expect::NoId),
    }
}

fn junk(r: &mut Rng, depth: u32) -> Value {
    match r.n(if depth == 0 { 9 } else { 12 }) {
        0 => Value::Null,
        1 => json!(true),
        2 => json!(-1),
        3 => json!(1.5),
        4 => json!(u64::MAX),
        5 => json!(i64::MIN),
        6 => json!(""),
        7 => json!(r.pick(&["__proto__", "id", "exec", "\u{0}", "💥\"\\", "null", "0", "Alpha", "add"])),
        8 => json!(1e300),
        9 => Value::Array((0..r.n(4)).map(|_| junk(r, depth - 1)).collect()),
        10 => json!({ r.pick(&["id", "key", "x", "exec"]).to_string(): junk(r, depth - 1) }),
        _ => json!([[junk(r, depth - 1)]]),
    }
}

fn valid(r: &mut Rng, id: u64) -> Value {
    let m = r.pick(METHODS);
    json!({"exec": {"id": id, "namespace": m.0, "method": m.1, "args": m.2.iter().map(|a| a.good()).collect::<Vec<_>>()}})
}

/// a text that is not valid
pub fn text(r: &mut Rng, id: u64, own: u64) -> (String, Expect) {
    loop {
        let t = candidate(r, id, own);
        // whether this is JSON depends on the limits of the parser
        if t.contains("[[[[[[[[") || t.contains("{\"a\":{\"a\":{") {
            return (t, Expect::Either(own));
        }
        // what it looks like is decided here, whatever it was made from
        if let Some(e) = classify(&t) {
            return (t, e);
        }
    }
}

fn candidate(r: &mut Rng, id: u64, own: u64) -> String {
    let k = r.n(22);
    let mut v = valid(r, id);
    match k {
        // no JSON at all
        0 => r.pick(&["", " ", "\u{0}", "nul", "{", "}", "[", "\"", "{]", "tru", "'x'", "{\"exec\":", "undefined", "NaN", "Infinity", "-", "1.", "1e", "\u{feff}{}", "//", "\u{1F600}", "{\"exec\":{\"id\":1}},"]).to_string(),
        // JSON, but no request
        1 => junk(r, 3).to_string(),
        2 => r.pick(&["{}", "{\"Exec\":{\"id\":1}}", "{\"exec\":{}}", "{\"exec\":null}", "{\"exec\":1}", "{\"exec\":\"x\"}", "\"exec\"", "\"cancelStream\"", "{\"cancelStream\":{}}", "{\"cancelStream\":null}", "{\"cancelStream\":5}", "{\"cancel_stream\":{\"id\":1}}", "{\"stream\":{\"id\":1,\"data\":1}}", "{\"method\":{\"id\":1,\"data\":1}}", "[{\"exec\":{\"id\":1}}]"]).to_string(),
        // truncated
        3 => {
            let s = v.to_string();
            let n = r.n(s.len());
            s.chars().take(n).collect()
        }
        // trailing data
        4 => format!("{v}{}", r.pick(&["x", "{}", "1", ",", "}"])),
        // bytes changed, removed, doubled
        5 | 6 | 7 => {
            let mut b: Vec<char> = v.to_string().chars().collect();
            for _ in 0..1 + r.n(3) {
                let i = r.n(b.len());
                match r.n(3) {
                    0 => b[i] = *r.pick(&['"', '{', '}', '[', ']', ',', ':', '0', '9', '-', 'e', '.', 'a', '\\', '\u{0}', 'é']),
                    1 => {
                        b.remove(i);
                    }
                    _ => b.insert(i, b[i]),
                }
            }
            b.into_iter().collect()
        }
        // another id
        8 => {
            v["exec"]["id"] = r.pick(&[json!(-1), json!(1.5), json!("1"), Value::Null, json!([1]), json!({"id": 1}), json!(true), json!(1e3), json!(-0.0)]).clone();
            v.to_string()
        }
        9 => v.to_string().replace(&format!("\"id\":{id}"), r.pick(&["\"id\":18446744073709551616", "\"id\":1e400", "\"id\":01", "\"id\":0x1", "\"Id\":1", "\"id\":1.0", "\"id\":99999999999999999999999999"])),
        // names nobody has
        10 | 11 => {
            let field = *r.pick(&["namespace", "method"]);
            let old = v["exec"][field].as_str().unwrap().to_string();
            v["exec"][field] = match r.n(9) {
                0 => json!(old.to_uppercase()),
                1 => json!(format!("{old} ")),
                2 => json!(format!("{old}\u{0}")),
                3 => json!(""),
                4 => json!("Beta"),
                5 => json!(old.chars().take(old.len() - 1).collect::<String>()),
                6 => json!("__proto__"),
                7 => junk(r, 1),
                _ => json!(format!("r#{old}")),
            };
            v.to_string()
        }
        // a method of the other namespace
        12 => {
            v["exec"]["namespace"] = json!(*r.pick(&["Alpha", "beta_ns"]));
            v.to_string()
        }
        // a member is missing
        13 | 14 => {
            let f = *r.pick(&["namespace", "method", "args", "id"]);
            v["exec"].as_object_mut().unwrap().remove(f);
            v.to_string()
        }
        // other arguments
        15 | 16 | 17 | 18 => {
            let args = v["exec"]["args"].as_array_mut().unwrap();
            match r.n(6) {
                0 => {
                    args.pop();
                }
                1 => {
                    let x = junk(r, 1);
                    args.push(x)
                }
                2 => args.clear(),
                3 => args.reverse(),
                _ => {
                    if !args.is_empty() {
                        let i = r.n(args.len());
                        args[i] = if r.p(0.3) { r.pick(&[json!([[256, 1]]), json!([[1, 4294967296u64]]), json!([[1]]), json!([[1, 2, 3]]), json!([[2, -1]]), json!(["x"]), json!([null])]).clone() } else { junk(r, 2) };
                    }
                }
            }
            v.to_string()
        }
        19 => {
            v["exec"]["args"] = junk(r, 2);
            v.to_string()
        }
        // deep
        20 => {
            let n = *r.pick(&[60, 126, 127, 128, 129, 500, 20_000]);
            let (open, close) = *r.pick(&[("[", "]"), ("{\"a\":", "}")]);
            let deep = format!("{}{}{}", open.repeat(n), if open == "[" { "" } else { "1" }, close.repeat(n));
            match r.n(3) {
                0 => deep,
                1 => format!("{{\"exec\":{{\"id\":{own},\"namespace\":\"Alpha\",\"method\":\"get\",\"args\":[{deep}]}}}}"),
                _ => open.repeat(n),
            }
        }
        // long
        _ => {
            let n = *r.pick(&[1000, 70_000, 300_000]);
            match r.n(4) {
                0 => "x".repeat(n),
                1 => format!("{{\"exec\":{{\"id\":{id},\"namespace\":\"{}\",\"method\":\"get\",\"args\":[1]}}}}", "A".repeat(n)),
                2 => format!("{{\"exec\":{{\"id\":{},\"namespace\":\"Alpha\",\"method\":\"get\",\"args\":[1]}}}}", "9".repeat(n)),
                _ => format!("{{\"exec\":{{\"id\":{id},\"namespace\":\"Alpha\",\"method\":\"get\",\"args\":[{}1]}}}}", "1,".repeat(n)),
            }
        }
    }
}
