// Host side of the generated programs: answers questions about the real schemas, types, registries and serde.
use std::io::{BufRead, Write};
use zod::{Namespace, ZodType};

pub fn default_u32() -> u32 {
    7
}
pub fn never<T: ?Sized>(_: &T) -> bool {
    false
}
pub fn ser_debug<T: std::fmt::Debug + ?Sized, S: serde::Serializer>(x: &T, s: S) -> Result<S::Ok, S::Error> {
    s.collect_str(&format_args!("{x:?}"))
}

pub fn record(ns: &str, method: &str, args: Vec<String>) {
    let line = format!(
        "CALL {{\"ns\":{},\"m\":{},\"args\":[{}]}}\n",
        serde_json::to_string(ns).unwrap(),
        serde_json::to_string(method).unwrap(),
        args.join(",")
    );
    let out = std::io::stdout();
    let mut out = out.lock();
    out.write_all(line.as_bytes()).unwrap();
    out.flush().unwrap();
}

type Rt = fn(&str) -> Result<String, String>;

fn rt<T: serde::Serialize + serde::de::DeserializeOwned>(doc: &str) -> Result<String, String> {
    let v: T = serde_json::from_str(doc).map_err(|e| e.to_string())?;
    serde_json::to_string(&v).map_err(|e| format!("SER {e}"))
}
fn rt_buffered<T: serde::Serialize + serde::de::DeserializeOwned>(doc: &str) -> Result<String, String> {
    let v: serde_json::Value = serde_json::from_str(doc).map_err(|e| e.to_string())?;
    let v: T = serde_json::from_value(v).map_err(|e| e.to_string())?;
    serde_json::to_string(&v).map_err(|e| format!("SER {e}"))
}

fn def(t: zod::TsTypeDef) -> serde_json::Value {
    match t {
        zod::TsTypeDef::Interface(s) => serde_json::json!({"form": "interface", "text": s}),
        zod::TsTypeDef::Type(s) => serde_json::json!({"form": "type", "text": s}),
    }
}
fn describe<T: ZodType>() -> serde_json::Value {
    serde_json::json!({
        "schema": T::schema(), "inline_schema": T::inline_schema(), "type_def": def(T::type_def()),
        "inline": T::inline().to_string(), "docs": T::docs(),
    })
}
fn member(m: &zod::NamespaceMemberDefinition) -> serde_json::Value {
    serde_json::json!({"ns": m.namespace(), "name": m.name(), "schema": m.schema(), "type_def": def(m.type_def())})
}

fn backend<B: zod::rpc::Backend>() -> serde_json::Value {
    let zn: serde_json::Map<String, serde_json::Value> = B::zod_namespaces()
        .into_iter()
        .map(|(k, v)| (k.to_string(), v.into_iter().map(member).collect::<Vec<_>>().into()))
        .collect();
    serde_json::json!({
        "code": B::generate::<zod::rpc::clients::WebsocketClient>(),
        "ns_names": B::NS_NAMES, "zod_namespaces": zn, "rpc_members": B::rpc_members(),
    })
}

pub struct Host {
    backends: Vec<(&'static str, fn() -> serde_json::Value)>,
    roots: Vec<(Option<Rt>, Option<Rt>, fn() -> serde_json::Value)>,
    nss: Vec<Box<dyn Fn() -> serde_json::Value>>,
    rpc: Vec<Box<dyn Fn() -> serde_json::Value>>,
}

impl Host {
    pub fn new() -> Self {
        Host { backends: vec![], roots: vec![], nss: vec![], rpc: vec![] }
    }
    pub fn root<T: ZodType + serde::Serialize + serde::de::DeserializeOwned>(&mut self) {
        self.roots.push((Some(rt::<T>), Some(rt_buffered::<T>), describe::<T>));
    }
    pub fn schema_only<T: ZodType>(&mut self) {
        self.roots.push((None, None, describe::<T>));
    }
    /// one more backend of this program
    pub fn backend<B: zod::rpc::Backend>(&mut self, name: &'static str) {
        self.backends.push((name, backend::<B>));
    }
    pub fn ns<N: Namespace>(&mut self) {
        self.nss.push(Box::new(|| {
            serde_json::json!({"name": N::NAME, "members": N::members().into_iter().map(member).collect::<Vec<_>>()})
        }));
    }
    pub fn rpc_ns<N: zod_core::rpc::codegen::RpcNamespace>(&mut self) {
        self.rpc.push(Box::new(|| {
            serde_json::json!({"name": N::NAME, "members": N::rpc_members().into_iter().map(|m| serde_json::json!({"ns": m.ns_name(), "decl": m.decl()})).collect::<Vec<_>>()})
        }));
    }
    pub fn run<B: zod::rpc::Backend + Send + 'static>(self, server: fn() -> B) {
        let args: Vec<String> = std::env::args().collect();
        match args.get(1).map(|s| s.as_str()) {
            Some("gen") => {
                print!("{}", B::generate::<zod::rpc::clients::WebsocketClient>());
            }
            Some("dump") => {
                let collect: serde_json::Map<String, serde_json::Value> = zod::NamespaceMemberDefinition::collect()
                    .into_iter()
                    .map(|(k, v)| (k.to_string(), v.into_iter().map(member).collect::<Vec<_>>().into()))
                    .collect();
                let out = serde_json::json!({
                    "roots": self.roots.iter().map(|(_, _, d)| d()).collect::<Vec<_>>(),
                    "namespaces": self.nss.iter().map(|f| f()).collect::<Vec<_>>(),
                    "rpc_namespaces": self.rpc.iter().map(|f| f()).collect::<Vec<_>>(),
                    "collect": collect, "server": backend::<B>(),
                    "backends": self.backends.iter().map(|(n, f)| (n.to_string(), f())).collect::<serde_json::Map<_, _>>(),
                });
                println!("{out}");
            }
            Some("rt") => {
                let stdin = std::io::stdin();
                let stdout = std::io::stdout();
                let mut out = std::io::BufWriter::new(stdout.lock());
                for line in stdin.lock().lines() {
                    let line = line.unwrap();
                    // index, mode, document
                    let mut parts = line.splitn(3, ' ');
                    let t: usize = parts.next().unwrap().parse().unwrap();
                    let mode = parts.next().unwrap();
                    let doc = parts.next().unwrap();
                    let f = match mode {
                        "s" => self.roots[t].0,
                        _ => self.roots[t].1,
                    };
                    let res = f.expect("root with serde")(doc);
                    let v = match res {
                        Ok(s) => format!("O{s}"),
                        Err(e) => format!("E{}", e.replace('\n', " ")),
                    };
                    writeln!(out, "{v}").unwrap();
                }
                out.flush().unwrap();
            }
            Some("serve") => {
                tokio::runtime::Builder::new_multi_thread().enable_all().build().unwrap().block_on(async move {
                    let proxy = zod::rpc::servers::proxy::BackendProxy::new(server());
                    let app = axum::Router::new()
                        .route("/ws", axum::routing::get(zod::rpc::servers::axum::websocket_handler))
                        .layer(axum::extract::Extension(proxy));
                    let srv = axum::Server::bind(&"127.0.0.1:0".parse().unwrap()).serve(app.into_make_service());
                    {
                        let line = format!("PORT {}\n", srv.local_addr().port());
                        let out = std::io::stdout();
                        let mut out = out.lock();
                        out.write_all(line.as_bytes()).unwrap();
                        out.flush().unwrap();
                    }
                    // end with the parent
                    std::thread::spawn(|| {
                        let mut s = String::new();
                        while std::io::stdin().read_line(&mut s).map(|n| n > 0).unwrap_or(false) {}
                        std::process::exit(0);
                    });
                    srv.await.unwrap();
                });
            }
            _ => panic!("unknown command"),
        }
    }
}
