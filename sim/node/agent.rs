//! Client agents: scripted and randomised users of the queue, built on the real
//! client library (`opsqueue::producer::client::Client`,
//! `opsqueue::consumer::client::OuterClient`,
//! `opsqueue::object_store::ObjectStoreClient`) and, where a property needs exact
//! control over single frames, on raw HTTP / WebSocket connections speaking the
//! library's own message types.
use futures::{SinkExt, StreamExt};
use opsqueue::common::chunk::{Chunk, ChunkId, ChunkIndex, ChunkSize};
use opsqueue::common::errors::E;
use opsqueue::common::submission::{Submission, SubmissionId, SubmissionStatus};
use opsqueue::consumer::client::OuterClient;
use opsqueue::consumer::common::{AsyncServerToClientMessage, ClientToServerMessage, Envelope, ServerToClientMessage, SyncServerToClientResponse};
use opsqueue::consumer::strategy::Strategy;
use opsqueue::object_store::{ChunkType, ObjectStoreClient};
use opsqueue::producer::client::Client;
use opsqueue::producer::{ChunkContents, InsertSubmission};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio_tungstenite::tungstenite::Message;

#[path = "../shared/content.rs"]
#[allow(dead_code)]
mod content;
use content::*;

unsafe extern "C" {
    fn simk_event(p: *const u8, n: usize);
    fn simk_now() -> u64;
    fn simk_board_put(kp: *const u8, kn: usize, vp: *const u8, vn: usize);
    fn simk_board_get(kp: *const u8, kn: usize, out: *mut u8, cap: usize) -> i64;
    fn simk_rand() -> u64;
}
fn ev(v: Value) {
    let s = v.to_string();
    unsafe { simk_event(s.as_ptr(), s.len()) }
}
fn now_ms() -> u64 {
    unsafe { simk_now() / 1_000_000 }
}
fn put(k: &str, v: &str) {
    unsafe { simk_board_put(k.as_ptr(), k.len(), v.as_ptr(), v.len()) }
}
fn get(k: &str) -> Option<String> {
    let mut b = [0u8; 256];
    let n = unsafe { simk_board_get(k.as_ptr(), k.len(), b.as_mut_ptr(), b.len()) };
    (n >= 0).then(|| String::from_utf8_lossy(&b[..(n as usize).min(256)]).into_owned())
}
fn below(n: u64) -> u64 {
    if n == 0 { 0 } else { unsafe { simk_rand() % n } }
}
fn between(a: u64, b: u64) -> u64 {
    a + below(b.saturating_sub(a) + 1)
}
fn ppm(p: u64) -> bool {
    below(1_000_000) < p
}
async fn sleep_ms(ms: u64) {
    tokio::time::sleep(Duration::from_millis(ms)).await
}
async fn sleep_until_ms(t: u64) {
    let n = now_ms();
    if t > n {
        sleep_ms(t - n).await
    }
}
static CALL: AtomicU64 = AtomicU64::new(0);
static ADDR: std::sync::OnceLock<String> = std::sync::OnceLock::new();
fn addr() -> &'static str {
    ADDR.get().unwrap()
}
fn u(v: &Value, k: &str, d: u64) -> u64 {
    v[k].as_u64().unwrap_or(d)
}
fn s<'a>(v: &'a Value, k: &str, d: &'a str) -> &'a str {
    v[k].as_str().unwrap_or(d)
}
fn call(op: &str, mut v: Value) -> u64 {
    let id = CALL.fetch_add(1, Ordering::Relaxed);
    v["e"] = json!("call");
    v["id"] = json!(id);
    v["op"] = json!(op);
    ev(v);
    id
}
fn ret(id: u64, op: &str, mut v: Value) {
    v["e"] = json!("ret");
    v["id"] = json!(id);
    v["op"] = json!(op);
    ev(v);
}

pub fn main(plan: &str) {
    let v: Value = serde_json::from_str(plan).expect("agent plan");
    let _ = ADDR.set(s(&v, "addr", "10.0.0.2:3999").to_string());
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(u(&v, "threads", 1) as usize).enable_all().build().unwrap();
    rt.block_on(async {
        let mut js = vec![];
        for a in v["actors"].as_array().cloned().unwrap_or_default() {
            js.push((s(&a, "name", "?").to_string(), tokio::spawn(actor(a))));
        }
        for (n, j) in js {
            if let Err(e) = j.await {
                ev(json!({"e": "agent_panic", "a": n, "msg": format!("{e}")}));
            }
        }
    });
    ev(json!({"e": "agent_done"}));
    // stay alive (connections stay open) until the world ends us
    loop {
        std::thread::sleep(Duration::from_secs(3600));
    }
}
async fn actor(a: Value) {
    if let Some(t) = a["start"].as_u64() {
        sleep_until_ms(t).await;
    }
    match s(&a, "kind", "") {
        "prod" => {
            let p = Arc::new(Prod { name: s(&a, "name", "p").into(), client: Client::new(addr()), raw: a["raw"] == json!(true) });
            p.steps(a["steps"].as_array().cloned().unwrap_or_default()).await;
        }
        "cons" => cons(a).await,
        "raw" => raw(a).await,
        "obj" => obj(a).await,
        "objsrv" => objsrv(a).await,
        k => panic!("unknown actor kind {k}"),
    }
}
async fn wait_board(st: &Value) -> bool {
    let key = s(st, "key", "");
    let end = now_ms() + u(st, "max", 60_000);
    loop {
        if get(key).is_some() {
            return true;
        }
        if now_ms() >= end {
            ev(json!({"e": "wait_timeout", "key": key}));
            return false;
        }
        sleep_ms(u(st, "every", 5)).await;
    }
}
/// Steps every kind of actor understands. Returns false if not handled.
async fn common_step(st: &Value) -> bool {
    match s(st, "op", "") {
        "sleep" => {
            tokio::time::sleep(Duration::from_micros(u(st, "us", 0))).await;
            sleep_ms(between(u(st, "ms", 0), u(st, "ms2", u(st, "ms", 0)))).await
        }
        "at" => sleep_until_ms(u(st, "t", 0)).await,
        "wait" => {
            wait_board(st).await;
        }
        "put" => put(s(st, "key", ""), s(st, "val", "1")),
        "mark" => ev(json!({"e": "mark", "key": s(st, "key", "")})),
        _ => return false,
    }
    true
}

// ---- producer ------------------------------------------------------------------------
struct Prod {
    name: String,
    client: Client,
    raw: bool,
}
fn smeta(v: &Value) -> opsqueue::common::StrategicMetadataMap {
    let mut m = opsqueue::common::StrategicMetadataMap::default();
    if let Some(o) = v.as_object() {
        for (k, x) in o {
            m.insert(k.clone(), x.as_i64().unwrap());
        }
    }
    m
}
fn sm_json(m: &opsqueue::common::StrategicMetadataMap) -> Value {
    let b: BTreeMap<String, i64> = m.iter().map(|(k, v)| (k.clone(), *v)).collect();
    json!(b)
}
fn insert_req(st: &Value) -> (InsertSubmission, Value) {
    let tag = s(st, "tag", "");
    let n = u(st, "n", 0);
    let kind = s(st, "kind", "str");
    let cc = if kind == "obj" {
        ChunkContents::SeeObjectStorage { prefix: s(st, "prefix", tag).to_string(), count: ChunkIndex::new(n).unwrap() }
    } else {
        ChunkContents::Direct { contents: (0..n).map(|i| chunk(tag, i, kind)).collect() }
    };
    let md = if st["nometa"] == json!(true) { None } else { Some(metadata(tag, u(st, "mtail", 0))) };
    let req = InsertSubmission { chunk_contents: cc, metadata: md, strategic_metadata: smeta(&st["sm"]), chunk_size: st["cs"].as_i64().map(ChunkSize) };
    (req, json!({"tag": tag, "n": n, "kind": kind, "sm": st["sm"], "cs": st["cs"], "mtail": st["mtail"], "prefix": st["prefix"], "nometa": st["nometa"]}))
}
fn status_json(st: &Option<SubmissionStatus>) -> Value {
    fn base(id: SubmissionId, prefix: &Option<String>, total: ChunkIndex, md: &Option<Vec<u8>>, sm: &opsqueue::common::StrategicMetadataMap) -> Value {
        json!({"sid": u64::from(id), "px": prefix, "tot": u64::from(total), "md": md.as_ref().map(|m| hex(m)), "sm": sm_json(sm)})
    }
    match st {
        None => json!({"st": "none"}),
        Some(SubmissionStatus::InProgress(x)) => {
            let mut b = base(x.id, &x.prefix, x.chunks_total, &x.metadata, &x.strategic_metadata);
            b["st"] = json!("P");
            b["dn"] = json!(u64::from(x.chunks_done));
            b["cs"] = json!(x.chunk_size.0);
            b["oc"] = json!(x.otel_trace_carrier);
            b
        }
        Some(SubmissionStatus::Completed(x)) => {
            let mut b = base(x.id, &x.prefix, x.chunks_total, &x.metadata, &x.strategic_metadata);
            b["st"] = json!("C");
            b["cs"] = json!(x.chunk_size.0);
            b["oc"] = json!(x.otel_trace_carrier);
            b["at"] = json!(x.completed_at.timestamp_millis());
            b
        }
        Some(SubmissionStatus::Failed(x, c)) => {
            let mut b = base(x.id, &x.prefix, x.chunks_total, &x.metadata, &x.strategic_metadata);
            b["st"] = json!("F");
            b["dn"] = json!(x.chunks_done.map(u64::from));
            b["cs"] = json!(x.chunk_size.0);
            b["oc"] = json!(x.otel_trace_carrier);
            b["fi"] = json!(u64::from(x.failed_chunk_id));
            b["fci"] = json!(u64::from(c.chunk_index));
            b["fsid"] = json!(u64::from(c.submission_id));
            b["fm"] = json!(c.failure);
            let (l, h) = sig(&c.input_content);
            b["fl"] = json!(l);
            b["fh"] = json!(h);
            b["at"] = json!(x.failed_at.timestamp_millis());
            b
        }
        Some(SubmissionStatus::Cancelled(x)) => {
            let mut b = base(x.id, &x.prefix, x.chunks_total, &x.metadata, &x.strategic_metadata);
            b["st"] = json!("X");
            b["dn"] = json!(u64::from(x.chunks_done));
            b["at"] = json!(x.cancelled_at.timestamp_millis());
            b
        }
    }
}
/// One HTTP/1.1 exchange on its own connection, without retries.
async fn http(method: &str, path: &str, hdrs: &str, body: &[u8]) -> Result<(u16, Vec<u8>), String> {
    http_at(addr(), method, path, hdrs, body).await
}
async fn http_at(at: &str, method: &str, path: &str, hdrs: &str, body: &[u8]) -> Result<(u16, Vec<u8>), String> {
    let mut c = tokio::net::TcpStream::connect(at).await.map_err(|e| format!("connect {e}"))?;
    let head = format!("{method} {path} HTTP/1.1\r\nHost: q\r\nConnection: close\r\nContent-Length: {}\r\n{hdrs}\r\n", body.len());
    c.write_all(head.as_bytes()).await.map_err(|e| format!("write {e}"))?;
    c.write_all(body).await.map_err(|e| format!("write {e}"))?;
    let mut r = vec![];
    c.read_to_end(&mut r).await.map_err(|e| format!("read {e}"))?;
    let pos = r.windows(4).position(|w| w == b"\r\n\r\n").ok_or("short reply")?;
    let head = String::from_utf8_lossy(&r[..pos]).to_ascii_lowercase();
    let code: u16 = head.split(' ').nth(1).and_then(|x| x.parse().ok()).ok_or("bad status line")?;
    let b = r[pos + 4..].to_vec();
    if let Some(l) = head.lines().find_map(|l| l.strip_prefix("content-length:")) {
        if b.len() != l.trim().parse::<usize>().map_err(|_| "bad length")? {
            return Err("truncated reply".into());
        }
    }
    Ok((code, b))
}
impl Prod {
    fn steps(self: Arc<Self>, v: Vec<Value>) -> futures::future::BoxFuture<'static, ()> {
        Box::pin(async move {
            let mut bg = vec![];
            for st in v {
                if st["bg"] == json!(true) {
                    let me = self.clone();
                    bg.push(tokio::spawn(async move { me.step(&st).await }));
                } else {
                    self.clone().step(&st).await;
                }
            }
            for b in bg {
                if let Err(e) = b.await {
                    ev(json!({"e": "agent_panic", "a": self.name, "msg": format!("{e}")}));
                }
            }
        })
    }
    fn sid(&self, st: &Value) -> Option<u64> {
        if let Some(i) = st["sid"].as_u64() {
            return Some(i);
        }
        get(&format!("sid:{}", s(st, "tag", ""))).and_then(|x| x.parse().ok())
    }
    async fn step(self: Arc<Self>, st: &Value) {
        if common_step(st).await {
            return;
        }
        let op = s(st, "op", "");
        match op {
            "up" => {
                // wait until the server answers
                let end = now_ms() + u(st, "max", 60_000);
                loop {
                    // without a limit, a server which loses its power now would be waited for forever
                    if let Ok(Ok((200, _))) = tokio::time::timeout(Duration::from_secs(2), http("GET", "/version", "", b"")).await {
                        break;
                    }
                    if now_ms() > end {
                        ev(json!({"e": "never_up"}));
                        break;
                    }
                    sleep_ms(20).await;
                }
            }
            "par" => {
                let mut js = vec![];
                for x in st["steps"].as_array().cloned().unwrap_or_default() {
                    let v = x.as_array().cloned().unwrap_or_else(|| vec![x.clone()]);
                    js.push(tokio::spawn(self.clone().steps(v)));
                }
                for j in js {
                    if let Err(e) = j.await {
                        ev(json!({"e": "agent_panic", "a": self.name, "msg": format!("{e}")}));
                    }
                }
            }
            "loop" => {
                let mut n = 0;
                while now_ms() < u(st, "until", u64::MAX) && n < u(st, "count", u64::MAX) && get(s(st, "unless", "-")).is_none() {
                    self.clone().steps(st["steps"].as_array().cloned().unwrap_or_default()).await;
                    sleep_ms(between(u(st, "gap", 10), u(st, "gap2", u(st, "gap", 10)))).await;
                    n += 1;
                }
            }
            "ins" => self.insert(st).await,
            "st" => {
                let Some(sid) = self.sid(st) else { return };
                self.status(sid, s(st, "tag", "")).await;
            }
            "poll" => {
                let Some(sid) = self.sid(st) else { return };
                loop {
                    let r = self.status(sid, s(st, "tag", "")).await;
                    if matches!(r.as_str(), "C" | "F" | "X") || now_ms() >= u(st, "until", 60_000) {
                        break;
                    }
                    sleep_ms(u(st, "every", 100)).await;
                }
            }
            "cancel" => {
                let Some(sid) = self.sid(st) else { return };
                self.cancel(sid, s(st, "tag", "")).await;
            }
            "count" | "countc" => {
                let path = if op == "count" { "/producer/submissions/count" } else { "/producer/submissions/count_completed" };
                let id = call(op, json!({}));
                let v = if self.raw || op == "countc" {
                    match http("GET", path, "", b"").await {
                        Ok((200, b)) => json!({"ok": true, "n": serde_json::from_slice::<u64>(&b).unwrap_or(u64::MAX)}),
                        Ok((c, _)) => json!({"ok": false, "code": c}),
                        Err(e) => json!({"ok": false, "err": e}),
                    }
                } else {
                    match self.client.count_submissions().await {
                        Ok(n) => json!({"ok": true, "n": n}),
                        Err(e) => json!({"ok": false, "err": format!("{e:?}")}),
                    }
                };
                ret(id, op, v);
            }
            "prefix" => {
                let p = s(st, "p", "");
                let id = call(op, json!({"p": p}));
                let v = match self.client.lookup_submission_id_by_prefix(p).await {
                    Ok(x) => json!({"ok": true, "sid": x.map(u64::from)}),
                    Err(e) => json!({"ok": false, "err": format!("{e:?}")}),
                };
                ret(id, op, v);
            }
            "meta" => {
                let id = call(op, json!({"sm": st["sm"]}));
                let v = match self.client.lookup_submission_ids_by_strategic_metadata(&smeta(&st["sm"])).await {
                    Ok(x) => json!({"ok": true, "sids": x.into_iter().map(u64::from).collect::<Vec<_>>()}),
                    Err(E::L(e)) => json!({"ok": true, "too_many": e.0}),
                    Err(E::R(e)) => json!({"ok": false, "err": format!("{e:?}")}),
                };
                ret(id, op, v);
            }
            "version" => {
                let id = call(op, json!({}));
                let v = match self.client.server_version().await {
                    Ok(x) => json!({"ok": true, "v": x}),
                    Err(e) => json!({"ok": false, "err": format!("{e:?}")}),
                };
                ret(id, op, v);
            }
            "ping" => {
                let id = call(op, json!({}));
                let v = match tokio::time::timeout(Duration::from_secs(5), http("GET", "/ping", "", b"")).await {
                    Ok(Ok((c, _))) => json!({"ok": true, "code": c}),
                    Ok(Err(e)) => json!({"ok": false, "err": e}),
                    Err(_) => json!({"ok": false, "err": "timeout"}),
                };
                ret(id, op, v);
            }
            "metrics" => {
                let id = call(op, json!({}));
                let v = match tokio::time::timeout(Duration::from_secs(5), http("GET", "/metrics", "", b"")).await {
                    Ok(Ok((200, b))) => {
                        let mut m = serde_json::Map::new();
                        for l in String::from_utf8_lossy(&b).lines() {
                            if l.starts_with('#') || l.contains('{') {
                                continue;
                            }
                            if let Some((k, x)) = l.split_once(' ') {
                                if let Ok(f) = x.trim().parse::<f64>() {
                                    m.insert(k.into(), json!(f));
                                }
                            }
                        }
                        json!({"ok": true, "m": m})
                    }
                    Ok(Ok((c, _))) => json!({"ok": false, "code": c}),
                    Ok(Err(e)) => json!({"ok": false, "err": e}),
                    Err(_) => json!({"ok": false, "err": "timeout"}),
                };
                ret(id, op, v);
            }
            "hang" => {
                // open a connection, send half a request, keep it open
                if let Ok(mut c) = tokio::net::TcpStream::connect(addr()).await {
                    let _ = c.write_all(b"POST /producer/submissions HTTP/1.1\r\nHost: q\r\nContent-Type: application/json\r\nContent-Length: 1000\r\n\r\n{\"chunk").await;
                    sleep_ms(u(st, "ms", 60_000)).await;
                }
            }
            o => panic!("unknown producer step {o}"),
        }
    }
    async fn insert(&self, st: &Value) {
        let (req, desc) = insert_req(st);
        let tag = s(st, "tag", "").to_string();
        let id = call("ins", desc);
        let mut carrier = opsqueue::tracing::CarrierMap::default();
        if let Some(tp) = st["tp"].as_str() {
            carrier.insert("traceparent".into(), tp.into());
        }
        let v = if self.raw {
            let body = serde_json::to_vec(&req).unwrap();
            let tp = st["tp"].as_str().map(|t| format!("traceparent: {t}\r\n")).unwrap_or_default();
            let hdrs = format!("Content-Type: application/json\r\n{tp}");
            let req = http("POST", "/producer/submissions", &hdrs, &body);
            // a producer that goes away before it hears the answer
            let us = u(st, "abort_us", u64::MAX / 1000);
            let r = tokio::time::timeout(Duration::from_micros(us), req).await.unwrap_or_else(|_| Err("gave up".into()));
            match r {
                Ok((200, b)) => match serde_json::from_slice::<SubmissionId>(&b) {
                    Ok(x) => json!({"ok": true, "sid": u64::from(x)}),
                    Err(e) => json!({"ok": false, "err": format!("decode {e}")}),
                },
                Ok((c, _)) => json!({"ok": false, "code": c}),
                Err(e) => json!({"ok": false, "err": e}),
            }
        } else {
            match self.client.insert_submission(&req, &carrier).await {
                Ok(x) => json!({"ok": true, "sid": u64::from(x)}),
                Err(e) => json!({"ok": false, "err": format!("{e:?}")}),
            }
        };
        let sid = v["sid"].as_u64();
        let mut v = v;
        v["tag"] = json!(tag);
        ret(id, "ins", v);
        if let Some(x) = sid {
            put(&format!("sid:{tag}"), &x.to_string());
        }
    }
    async fn status(&self, sid: u64, tag: &str) -> String {
        let id = call("st", json!({"sid": sid, "tag": tag}));
        let v = if self.raw {
            match http("GET", &format!("/producer/submissions/{sid}"), "", b"").await {
                Ok((200, b)) => match serde_json::from_slice::<Option<SubmissionStatus>>(&b) {
                    Ok(x) => {
                        let mut v = status_json(&x);
                        v["ok"] = json!(true);
                        v
                    }
                    Err(e) => json!({"ok": false, "err": format!("decode {e}")}),
                },
                Ok((c, b)) => json!({"ok": false, "code": c, "body": String::from_utf8_lossy(&b[..b.len().min(200)])}),
                Err(e) => json!({"ok": false, "err": e}),
            }
        } else {
            match self.client.get_submission(SubmissionId::try_from(sid).unwrap()).await {
                Ok(x) => {
                    let mut v = status_json(&x);
                    v["ok"] = json!(true);
                    v
                }
                Err(e) => json!({"ok": false, "err": format!("{e:?}")}),
            }
        };
        let r = v["st"].as_str().unwrap_or("").to_string();
        let mut v = v;
        v["q"] = json!(sid);
        v["tag"] = json!(tag);
        ret(id, "st", v);
        r
    }
    async fn cancel(&self, sid: u64, tag: &str) {
        use opsqueue::common::errors::SubmissionNotCancellable as N;
        let id = call("cancel", json!({"sid": sid, "tag": tag}));
        fn nc(n: N) -> Value {
            let st = match n {
                N::Completed(x) => SubmissionStatus::Completed(x),
                N::Failed(x, c) => SubmissionStatus::Failed(x, c),
                N::Cancelled(x) => SubmissionStatus::Cancelled(x),
            };
            let mut v = status_json(&Some(st));
            v["ok"] = json!(true);
            v["res"] = json!("conflict");
            v
        }
        let mut v = if self.raw {
            match http("POST", &format!("/producer/submissions/cancel/{sid}"), "", b"").await {
                Ok((200, _)) => json!({"ok": true, "res": "cancelled"}),
                Ok((404, _)) => json!({"ok": true, "res": "notfound"}),
                Ok((409, b)) => match serde_json::from_slice::<N>(&b) {
                    Ok(n) => nc(n),
                    Err(e) => json!({"ok": false, "err": format!("decode {e}")}),
                },
                Ok((c, _)) => json!({"ok": false, "code": c}),
                Err(e) => json!({"ok": false, "err": e}),
            }
        } else {
            match self.client.cancel_submission(SubmissionId::try_from(sid).unwrap()).await {
                Ok(()) => json!({"ok": true, "res": "cancelled"}),
                Err(E::L(_)) => json!({"ok": true, "res": "notfound"}),
                Err(E::R(E::L(n))) => nc(n),
                Err(E::R(E::R(e))) => json!({"ok": false, "err": format!("{e:?}")}),
            }
        };
        v["q"] = json!(sid);
        v["tag"] = json!(tag);
        ret(id, "cancel", v);
    }
}

// ---- consumers ------------------------------------------------------------------------
fn strategy(v: &Value) -> Strategy {
    match v {
        Value::Array(a) if a.len() == 2 => Strategy::PreferDistinct { meta_key: a[0].as_str().unwrap().into(), underlying: Box::new(strategy(&a[1])) },
        Value::String(x) if x == "newest" => Strategy::Newest,
        Value::String(x) if x == "random" => Strategy::Random,
        _ => Strategy::Oldest,
    }
}
fn grant_json(cs: &[(Chunk, Submission)]) -> Value {
    json!(cs.iter().map(|(c, x)| {
        let (l, h) = sig(&c.input_content);
        json!({"s": u64::from(c.submission_id), "i": u64::from(c.chunk_index), "r": c.retries, "l": l, "h": h,
               "sid": u64::from(x.id), "px": x.prefix, "tot": u64::from(x.chunks_total), "dn": u64::from(x.chunks_done), "cs": x.chunk_size.0,
               "md": x.metadata.as_ref().map(|m| hex(m)), "sm": sm_json(&x.strategic_metadata), "oc": x.otel_trace_carrier})
    }).collect::<Vec<_>>())
}
fn cid(sid: u64, idx: u64) -> ChunkId {
    ChunkId::from((SubmissionId::try_from(sid).unwrap(), ChunkIndex::new(idx).unwrap()))
}
/// The real consumer client, used the way consumers use it: reserve, work, report.
async fn cons(a: Value) {
    let name = s(&a, "name", "c").to_string();
    let client = Arc::new(OuterClient::new(addr()));
    let objs = a["obj"].is_object().then(|| obj_client(&a["obj"]).ok()).flatten();
    let mut js = vec![];
    if a["health"] == json!(true) {
        let c = client.clone();
        let n = name.clone();
        js.push(tokio::spawn(async move {
            let mut last = None;
            loop {
                let h = c.is_healthy();
                if last != Some(h) {
                    ev(json!({"e": "health", "a": n, "ok": h}));
                    last = Some(h);
                }
                sleep_ms(20).await;
            }
        }));
    }
    for t in 0..u(&a, "tasks", 1) {
        let a = a.clone();
        let client = client.clone();
        let objs = objs.clone();
        let name = format!("{name}.{t}");
        js.push(tokio::spawn(async move {
            let strat = strategy(&a["strat"]);
            let stop = u(&a, "stop", u64::MAX);
            while now_ms() < stop && get("stop").is_none() {
                let max = between(u(&a, "max", 1), u(&a, "max2", u(&a, "max", 1))) as usize;
                let id = call("res", json!({"c": name, "max": max, "strat": a["strat"]}));
                let fut = client.reserve_chunks(max, strat.clone());
                let r = if ppm(u(&a, "p_giveup", 0)) {
                    // the caller loses interest (drops the future) after a while
                    match tokio::time::timeout(Duration::from_millis(between(1, 400)), fut).await {
                        Ok(r) => r,
                        Err(_) => {
                            ret(id, "res", json!({"c": name, "ok": false, "err": "gave up"}));
                            continue;
                        }
                    }
                } else {
                    fut.await
                };
                match r {
                    Err(e) => {
                        ret(id, "res", json!({"c": name, "ok": false, "err": format!("{e:?}")}));
                        sleep_ms(u(&a, "errgap", 5)).await;
                    }
                    Ok(cs) => {
                        ret(id, "res", json!({"c": name, "ok": true, "ch": grant_json(&cs)}));
                        if cs.is_empty() {
                            sleep_ms(20).await;
                        }
                        for (c, sub) in cs {
                            let mut w = between(u(&a, "work", 1), u(&a, "work2", u(&a, "work", 1)));
                            if now_ms() > u(&a, "calm_after", u64::MAX) {
                                w = 3 * w + 1000;
                            }
                            if w > 0 {
                                sleep_ms(w).await;
                            }
                            if ppm(u(&a, "p_drop", 0)) {
                                continue;
                            }
                            let (si, ix) = (u64::from(c.submission_id), u64::from(c.chunk_index));
                            if let (Some(o), None, Some(px)) = (&objs, &c.input_content, &sub.prefix) {
                                // input and output are in the object store
                                let id = call("get1", json!({"px": px, "ty": "in", "i": ix, "c": name}));
                                let r = o.retrieve_chunk(px, c.chunk_index, ChunkType::Input).await;
                                ret(id, "get1", match &r {
                                    Ok(b) => json!({"ok": true, "l": b.len(), "h": fnv(b)}),
                                    Err(e) => json!({"ok": false, "err": format!("{e:?}")}),
                                });
                                let mut ok = r.is_ok();
                                if ok {
                                    let rev = 1 + below(1 << 30);
                                    let id = call("put1", json!({"px": px, "ty": "out", "i": ix, "rev": rev, "kind": "mix", "c": name}));
                                    let v = chunk(&format!("{px}@out~{rev}"), ix, "mix").unwrap_or_default();
                                    let r = o.store_chunk(px, c.chunk_index, ChunkType::Output, v).await;
                                    ok = r.is_ok();
                                    ret(id, "put1", json!({"ok": ok, "err": r.err().map(|e| format!("{e:?}"))}));
                                }
                                let op = if ok { "done" } else { "fail" };
                                let id = call(op, json!({"c": name, "s": si, "i": ix}));
                                let r = if ok { client.complete_chunk(cid(si, ix), None).await } else { client.fail_chunk(cid(si, ix), format!("f:{name}:{si}:{ix}:{id}")).await };
                                ret(id, op, json!({"c": name, "s": si, "i": ix, "ok": r.is_ok(), "err": r.err().map(|e| format!("{e:?}"))}));
                                continue;
                            }
                            let reps = if ppm(u(&a, "p_dup", 0)) { 2 } else { 1 };
                            for _ in 0..reps {
                                let fail = ppm(u(&a, "p_fail", 0));
                                let id = call(if fail { "fail" } else { "done" }, json!({"c": name, "s": si, "i": ix}));
                                let mut out = format!("out:{si}:{ix}").into_bytes();
                                out.resize(out.len() + u(&a, "outlen", 0) as usize, b'.');
                                let r = if fail {
                                    client.fail_chunk(cid(si, ix), format!("f:{name}:{si}:{ix}:{id}")).await
                                } else {
                                    client.complete_chunk(cid(si, ix), Some(out)).await
                                };
                                ret(id, if fail { "fail" } else { "done" }, json!({"c": name, "s": si, "i": ix, "ok": r.is_ok(), "err": r.err().map(|e| format!("{e:?}"))}));
                            }
                        }
                    }
                }
            }
        }));
    }
    for j in js {
        if let Err(e) = j.await {
            ev(json!({"e": "agent_panic", "a": name, "msg": format!("{e}")}));
        }
    }
}

// ---- raw WebSocket consumer --------------------------------------------------------------
type Ws = tokio_tungstenite::WebSocketStream<tokio::net::TcpStream>;
#[derive(Clone, Debug)]
struct Held {
    sid: u64,
    idx: u64,
    nonce: u64,
}
struct Conn {
    c: String,
    sink: Arc<tokio::sync::Mutex<futures::stream::SplitSink<Ws, Message>>>,
    lost: Arc<AtomicBool>,
    frozen: Arc<AtomicBool>,
    reader: tokio::task::JoinHandle<()>,
    replies: Arc<Mutex<BTreeMap<u64, Vec<Held>>>>,
    expired: Arc<Mutex<Vec<(u64, u64)>>>,
    nonce: u64,
}
impl Drop for Conn {
    fn drop(&mut self) {
        self.reader.abort();
    }
}
async fn ws_connect(c: String) -> Result<Conn, String> {
    let tcp = tokio::net::TcpStream::connect(addr()).await.map_err(|e| format!("{e}"))?;
    let port = tcp.local_addr().map(|a| a.port()).unwrap_or(0);
    let (ws, _) = tokio_tungstenite::client_async(format!("ws://{}/consumer", addr()), tcp).await.map_err(|e| format!("{e}"))?;
    let (sink, mut stream) = ws.split();
    let init = stream.next().await.ok_or("closed")?.map_err(|e| format!("{e}"))?;
    let init: ServerToClientMessage = init.try_into().map_err(|e| format!("{e}"))?;
    let ServerToClientMessage::Init(cfg) = init else { return Err("no init".into()) };
    ev(json!({"e": "conn", "c": c, "port": port, "hb": cfg.heartbeat_interval.as_millis() as u64, "miss": cfg.max_missable_heartbeats}));
    let lost = Arc::new(AtomicBool::new(false));
    let frozen = Arc::new(AtomicBool::new(false));
    let replies: Arc<Mutex<BTreeMap<u64, Vec<Held>>>> = Arc::default();
    let expired: Arc<Mutex<Vec<(u64, u64)>>> = Arc::default();
    let sink = Arc::new(tokio::sync::Mutex::new(sink));
    let reader = {
        let (lost, frozen, replies, expired, c, sink) = (lost.clone(), frozen.clone(), replies.clone(), expired.clone(), c.clone(), sink.clone());
        tokio::spawn(async move {
            loop {
                while frozen.load(Ordering::Relaxed) {
                    sleep_ms(1).await;
                }
                let m = tokio::select! {
                    m = stream.next() => m,
                    _ = async { while !frozen.load(Ordering::Relaxed) { sleep_ms(7).await } } => continue,
                };
                match m {
                    None => {
                        ev(json!({"e": "lost", "c": c, "why": "eof"}));
                        break;
                    }
                    Some(Err(e)) => {
                        ev(json!({"e": "lost", "c": c, "why": format!("{e}")}));
                        break;
                    }
                    Some(Ok(Message::Close(_))) => {
                        ev(json!({"e": "lost", "c": c, "why": "close"}));
                        break;
                    }
                    Some(Ok(Message::Ping(_))) => {
                        ev(json!({"e": "ping", "c": c}));
                        // flush the automatic pong (blocked writers must not block reading)
                        if let Ok(mut g) = sink.try_lock() {
                            let _ = tokio::time::timeout(Duration::from_millis(50), g.flush()).await;
                        }
                    }
                    Some(Ok(m @ Message::Binary(_))) => {
                        let m: Result<ServerToClientMessage, _> = m.try_into();
                        match m {
                            Err(e) => ev(json!({"e": "badframe", "c": c, "err": format!("{e}")})),
                            Ok(ServerToClientMessage::Init(_)) => ev(json!({"e": "badframe", "c": c, "err": "second init"})),
                            Ok(ServerToClientMessage::Async(AsyncServerToClientMessage::ChunkReservationExpired(id))) => {
                                let (sid, idx) = (u64::from(id.submission_id), u64::from(id.chunk_index));
                                ev(json!({"e": "exp", "c": c, "s": sid, "i": idx}));
                                expired.lock().unwrap().push((sid, idx));
                            }
                            Ok(ServerToClientMessage::Sync(Envelope { nonce, contents: SyncServerToClientResponse::ChunksReserved(r) })) => match r {
                                Ok(v) => {
                                    ev(json!({"e": "grant", "c": c, "n": nonce, "ch": grant_json(&v)}));
                                    let h = v.iter().map(|(k, _)| Held { sid: u64::from(k.submission_id), idx: u64::from(k.chunk_index), nonce: nonce as u64 }).collect();
                                    replies.lock().unwrap().insert(nonce as u64, h);
                                }
                                Err(_) => {
                                    ev(json!({"e": "refuse", "c": c, "n": nonce}));
                                    replies.lock().unwrap().insert(nonce as u64, vec![]);
                                }
                            },
                        }
                    }
                    Some(Ok(_)) => {}
                }
            }
            lost.store(true, Ordering::Relaxed);
        })
    };
    Ok(Conn { c, sink, lost, frozen, reader, replies, expired, nonce: 0 })
}
impl Conn {
    async fn send(&self, nonce: u64, m: ClientToServerMessage) -> bool {
        let msg: Message = Envelope { nonce: nonce as usize, contents: m }.into();
        let mut g = self.sink.lock().await;
        g.send(msg).await.is_ok()
    }
    async fn reserve(&mut self, max: u64, strat: &Value) -> u64 {
        let n = self.nonce;
        self.nonce += 1;
        ev(json!({"e": "req", "c": self.c, "n": n, "max": max, "strat": strat}));
        self.send(n, ClientToServerMessage::WantToReserveChunks { max: max as usize, strategy: strategy(strat) }).await;
        n
    }
    async fn report(&mut self, fail: bool, sid: u64, idx: u64, note: &str) -> bool {
        let n = self.nonce;
        self.nonce += 1;
        let msg = format!("f:{}:{sid}:{idx}:{n}{note}", self.c);
        ev(json!({"e": "rep", "k": if fail { "fail" } else { "done" }, "c": self.c, "n": n, "s": sid, "i": idx, "m": if fail { msg.as_str() } else { "" }}));
        let m = if fail {
            ClientToServerMessage::FailChunk { id: cid(sid, idx), failure: msg }
        } else {
            ClientToServerMessage::CompleteChunk { id: cid(sid, idx), output_content: Some(format!("out:{sid}:{idx}").into_bytes()) }
        };
        let ok = self.send(n, m).await;
        if !ok {
            ev(json!({"e": "repfail", "c": self.c, "n": n, "s": sid, "i": idx}));
        }
        ok
    }
    async fn reply(&self, n: u64, ms: u64) -> Option<Vec<Held>> {
        let end = now_ms().saturating_add(ms);
        loop {
            if let Some(v) = self.replies.lock().unwrap().remove(&n) {
                return Some(v);
            }
            if self.lost.load(Ordering::Relaxed) || now_ms() >= end {
                return None;
            }
            sleep_ms(1).await;
        }
    }
}
async fn raw(a: Value) {
    let name = s(&a, "name", "r").to_string();
    let mut k = 0;
    let mut conn: Option<Conn> = None;
    let mut held: Vec<Held> = vec![];
    let steps = a["steps"].as_array().cloned().unwrap_or_default();
    for st in steps {
        if common_step(&st).await {
            continue;
        }
        let op = s(&st, "op", "");
        match op {
            "conn" => {
                let end = now_ms() + u(&st, "max", 60_000);
                conn = None;
                loop {
                    match ws_connect(format!("{name}#{k}")).await {
                        Ok(c) => {
                            conn = Some(c);
                            break;
                        }
                        Err(_) if now_ms() < end => sleep_ms(20).await,
                        Err(e) => {
                            ev(json!({"e": "noconn", "c": name, "err": e}));
                            break;
                        }
                    }
                }
                k += 1;
            }
            "loop" => {
                raw_loop(&name, &mut k, &mut conn, &st).await;
            }
            "reuse" => {
                // report a chunk held by somebody else (published on the board) or an arbitrary id
            }
            _ => {
                let Some(c) = conn.as_mut() else {
                    ev(json!({"e": "nostep", "c": name, "op": op}));
                    continue;
                };
                match op {
                    "res" => {
                        let n = c.reserve(u(&st, "max", 1), &st["strat"]).await;
                        if let Some(w) = st["wait"].as_u64() {
                            match c.reply(n, w).await {
                                Some(v) => {
                                    if let Some(key) = st["put"].as_str() {
                                        for (j, h) in v.iter().enumerate() {
                                            put(&format!("{key}.{j}"), &format!("{}:{}", h.sid, h.idx));
                                        }
                                        put(key, &v.len().to_string());
                                    }
                                    held.extend(v);
                                }
                                None => ev(json!({"e": "noreply", "c": c.c, "n": n, "ms": w})),
                            }
                        }
                    }
                    "collect" => {
                        // pick up the replies of earlier requests without a wait
                        let m: Vec<(u64, Vec<Held>)> = std::mem::take(&mut *c.replies.lock().unwrap()).into_iter().collect();
                        for (_, v) in m {
                            held.extend(v);
                        }
                    }
                    "done" | "fail" => {
                        let fail = op == "fail";
                        let note = s(&st, "note", "");
                        let pick: Vec<Held> = match &st["which"] {
                            Value::String(x) if x == "all" => std::mem::take(&mut held),
                            Value::String(x) if x == "last" => held.pop().into_iter().collect(),
                            Value::String(x) if x == "keepall" => held.clone(),
                            Value::String(x) if x == "rand" => {
                                if held.is_empty() { vec![] } else { let i = below(held.len() as u64) as usize; vec![held.remove(i)] }
                            }
                            Value::Object(o) => {
                                // explicit chunk: by tag and index, or from the board
                                let f = |v: &str| -> Option<Held> {
                                    let (x, y) = v.split_once(':')?;
                                    Some(Held { sid: x.parse().ok()?, idx: y.parse().ok()?, nonce: 0 })
                                };
                                if let Some(b) = o.get("board").and_then(|b| b.as_str()) {
                                    get(b).and_then(|v| f(&v)).into_iter().collect()
                                } else {
                                    let sid = match o.get("sid").and_then(|x| x.as_u64()) {
                                        Some(x) => Some(x),
                                        None => get(&format!("sid:{}", o.get("tag").and_then(|t| t.as_str()).unwrap_or(""))).and_then(|x| x.parse().ok()),
                                    };
                                    sid.map(|sid| Held { sid, idx: o.get("i").and_then(|x| x.as_u64()).unwrap_or(0), nonce: 0 }).into_iter().collect()
                                }
                            }
                            _ => if held.is_empty() { vec![] } else { vec![held.remove(0)] },
                        };
                        for h in pick {
                            c.report(fail, h.sid, h.idx, note).await;
                            let g = u(&st, "gap", 0);
                            if g > 0 {
                                sleep_ms(g).await;
                            }
                        }
                    }
                    "autofail" => {
                        // what the real client does on an expiry notice
                        let v = std::mem::take(&mut *c.expired.lock().unwrap());
                        for (x, y) in v {
                            c.report(true, x, y, ":expired").await;
                        }
                    }
                    "forget" => held.clear(),
                    "freeze" => {
                        c.frozen.store(true, Ordering::Relaxed);
                        ev(json!({"e": "freeze", "c": c.c}));
                        sleep_ms(u(&st, "ms", 1000)).await;
                        c.frozen.store(false, Ordering::Relaxed);
                        ev(json!({"e": "thaw", "c": c.c}));
                    }
                    "close" => {
                        ev(json!({"e": "bye", "c": c.c, "how": "close"}));
                        let _ = c.sink.lock().await.close().await;
                        sleep_ms(u(&st, "ms", 20)).await;
                        conn = None;
                        held.clear();
                    }
                    "abort" => {
                        ev(json!({"e": "bye", "c": c.c, "how": "abort"}));
                        conn = None;
                        held.clear();
                    }
                    "text" => {
                        // a frame the server does not understand
                        let _ = c.sink.lock().await.send(Message::Text("hello".into())).await;
                    }
                    o => panic!("unknown raw step {o}"),
                }
            }
        }
    }
    // keep the connection (and its heartbeats) alive
    loop {
        sleep_ms(1_000_000).await;
        let _ = &conn;
    }
}
/// Randomised raw worker: reserve, work, report; reconnects when the connection is lost.
async fn raw_loop(name: &str, k: &mut u64, conn: &mut Option<Conn>, a: &Value) {
    let stop = u(a, "until", u64::MAX);
    let mut n = 0;
    while now_ms() < stop && n < u(a, "count", u64::MAX) && get("stop").is_none() {
        n += 1;
        if conn.as_ref().is_none_or(|c| c.lost.load(Ordering::Relaxed)) {
            *conn = None;
            match ws_connect(format!("{name}#{k}")).await {
                Ok(c) => *conn = Some(c),
                Err(_) => {
                    sleep_ms(between(10, 60)).await;
                    *k += 1;
                    continue;
                }
            }
            *k += 1;
        }
        let c = conn.as_mut().unwrap();
        if a["autofail"] == json!(true) {
            let v = std::mem::take(&mut *c.expired.lock().unwrap());
            for (x, y) in v {
                c.report(true, x, y, ":expired").await;
            }
        }
        let max = between(u(a, "max", 1), u(a, "max2", u(a, "max", 1)));
        let strats = a["strats"].as_array().cloned().unwrap_or_else(|| vec![a["strat"].clone()]);
        let strat = strats[below(strats.len() as u64) as usize].clone();
        let req = c.reserve(max, &strat).await;
        let Some(hs) = c.reply(req, u(a, "patience", 1_000_000)).await else {
            if !c.lost.load(Ordering::Relaxed) {
                // impatient: the request stays open on this connection; drop the connection
                ev(json!({"e": "bye", "c": c.c, "how": "abort"}));
                *conn = None;
            }
            continue;
        };
        if hs.is_empty() {
            sleep_ms(20).await;
        }
        let mut hs = hs;
        while !hs.is_empty() {
            let i = below(hs.len() as u64) as usize;
            let h = hs.remove(i);
            let w = between(u(a, "work", 0), u(a, "work2", u(a, "work", 0)));
            if w > 0 {
                sleep_ms(w).await;
            }
            if ppm(u(a, "p_long", 0)) {
                sleep_ms(u(a, "long", 0)).await;
            }
            if ppm(u(a, "p_bye", 0)) {
                ev(json!({"e": "bye", "c": conn.as_ref().unwrap().c, "how": "abort"}));
                *conn = None;
                break;
            }
            let c = conn.as_mut().unwrap();
            if ppm(u(a, "p_drop", 0)) {
                continue;
            }
            let fail = ppm(u(a, "p_fail", 0));
            c.report(fail, h.sid, h.idx, "").await;
            if ppm(u(a, "p_dup", 0)) {
                c.report(ppm(500_000), h.sid, h.idx, ":dup").await;
            }
            let _ = h.nonce;
        }
        let g = between(u(a, "gap", 0), u(a, "gap2", u(a, "gap", 0)));
        if g > 0 {
            sleep_ms(g).await;
        }
    }
}

// ---- object storage -----------------------------------------------------------------------
fn obj_client(a: &Value) -> Result<ObjectStoreClient, opsqueue::object_store::NewObjectStoreClientError> {
    let retry = opsqueue::object_store::RetryConfig { max_retries: u(a, "retries", 10) as usize, retry_timeout: Duration::from_secs(u(a, "retry_s", 60)), ..Default::default() };
    ObjectStoreClient::new_with_retry(s(a, "url", ""), vec![("allow_http".into(), "true".into()), ("timeout".into(), format!("{}s", u(a, "timeout_s", 5)))], retry)
}
async fn obj(a: Value) {
    let name = s(&a, "name", "o").to_string();
    let client = match obj_client(&a) {
        Ok(c) => c,
        Err(e) => {
            ev(json!({"e": "obj_init", "a": name, "err": format!("{e:?}")}));
            return;
        }
    };
    let mut js = vec![];
    for lane in a["lanes"].as_array().cloned().unwrap_or_default() {
        let client = client.clone();
        js.push(tokio::spawn(async move {
            for st in lane.as_array().cloned().unwrap_or_default() {
                if common_step(&st).await {
                    continue;
                }
                let op = s(&st, "op", "").to_string();
                let px = s(&st, "px", "").to_string();
                let kind = s(&st, "kind", "bin").to_string();
                let ty = if s(&st, "ty", "in") == "in" { ChunkType::Input } else { ChunkType::Output };
                let key = format!("{px}@{ty}");
                let n = u(&st, "n", 0);
                let i = u(&st, "i", 0);
                let rev = u(&st, "rev", 0);
                let val = |i: u64| chunk(&format!("{key}~{rev}"), i, &kind).unwrap_or_default();
                let mut again = u(&st, "again", 0);
                'again: loop {
                let id = call(&op, json!({"px": px, "ty": s(&st, "ty", "in"), "n": n, "i": i, "rev": rev, "kind": kind, "bad": st["bad"]}));
                let v = match op.as_str() {
                    "store" => {
                        let bad = st["bad"].as_u64();
                        let items: Vec<anyhow::Result<Vec<u8>>> = (0..n).map(|j| if bad == Some(j) { Err(anyhow::anyhow!("producer error")) } else { Ok(val(j)) }).collect();
                        match client.store_chunks(&px, ty, futures::stream::iter(items)).await {
                            Ok(c) => json!({"ok": true, "n": u64::from(c)}),
                            Err(e) => json!({"ok": false, "err": format!("{e:?}")}),
                        }
                    }
                    "put1" => match client.store_chunk(&px, ChunkIndex::new(i).unwrap(), ty, val(i)).await {
                        Ok(()) => json!({"ok": true}),
                        Err(e) => json!({"ok": false, "err": format!("{e:?}")}),
                    },
                    "get1" => match client.retrieve_chunk(&px, ChunkIndex::new(i).unwrap(), ty).await {
                        Ok(b) => json!({"ok": true, "l": b.len(), "h": fnv(&b)}),
                        Err(e) => json!({"ok": false, "err": format!("{e:?}")}),
                    },
                    "getall" => {
                        let mut out = vec![];
                        {
                            use futures::TryStreamExt;
                            let rs = client.retrieve_chunks(px.clone(), ux::u63::new(n), ty).into_stream();
                            futures::pin_mut!(rs);
                            loop {
                                match rs.next().await {
                                    None => break,
                                    Some(Ok(b)) => out.push(json!([b.len(), fnv(&b)])),
                                    Some(Err(e)) => {
                                        out.push(json!({"err": format!("{e:?}")}));
                                        if st["all"] != json!(true) {
                                            break;
                                        }
                                    }
                                }
                            }
                        }
                        let cut = out.last().is_some_and(|x| x["err"].is_string()) && (out.len() as u64) < n;
                        json!({"ok": true, "items": out, "cut": cut})
                    }
                    o => panic!("unknown obj step {o}"),
                };
                let ok = v["ok"] == json!(true);
                ret(id, &op, v);
                if ok || again == 0 {
                    break 'again;
                }
                again -= 1;
                sleep_ms(200).await;
                }
            }
        }));
    }
    for j in js {
        if let Err(e) = j.await {
            ev(json!({"e": "agent_panic", "a": name, "msg": format!("{e}")}));
        }
    }
}
/// A small HTTP object store with injected faults (the storage service is the stub here;
/// the code under test is the client).
async fn objsrv(a: Value) {
    let l = tokio::net::TcpListener::bind(("0.0.0.0", 8080)).await.expect("bind");
    let store: Arc<Mutex<BTreeMap<String, Vec<u8>>>> = Arc::default();
    put("objsrv", "1");
    loop {
        let Ok((c, _)) = l.accept().await else { continue };
        let store = store.clone();
        let a = a.clone();
        tokio::spawn(async move {
            let mut c = c;
            let mut buf: Vec<u8> = vec![];
            'conn: loop {
                let pos = loop {
                    if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                        break p;
                    }
                    let mut t = [0u8; 8192];
                    match c.read(&mut t).await {
                        Ok(0) | Err(_) => break 'conn,
                        Ok(n) => buf.extend_from_slice(&t[..n]),
                    }
                };
                let head = String::from_utf8_lossy(&buf[..pos]).into_owned();
                let len: usize = head.lines().find_map(|l| l.to_ascii_lowercase().strip_prefix("content-length:").map(|x| x.trim().parse().unwrap_or(0))).unwrap_or(0);
                buf.drain(..pos + 4);
                while buf.len() < len {
                    let mut t = [0u8; 8192];
                    match c.read(&mut t).await {
                        Ok(0) | Err(_) => break 'conn,
                        Ok(n) => buf.extend_from_slice(&t[..n]),
                    }
                }
                let body: Vec<u8> = buf.drain(..len).collect();
                let mut it = head.split(' ');
                let (method, path) = (it.next().unwrap_or("").to_string(), it.next().unwrap_or("").to_string());
                let bad = now_ms() < u(&a, "until", u64::MAX);
                let ppm = |x: u64| bad && ppm(x);
                if ppm(u(&a, "p_slow", 0)) {
                    sleep_ms(between(1, u(&a, "slow", 2000))).await;
                }
                if ppm(u(&a, "p_500", 0)) {
                    ev(json!({"e": "objfault", "k": "500", "m": method, "p": path}));
                    let _ = c.write_all(b"HTTP/1.1 500 Internal Server Error\r\nContent-Length: 4\r\n\r\noops").await;
                    continue;
                }
                if ppm(u(&a, "p_403", 0)) {
                    ev(json!({"e": "objfault", "k": "403", "m": method, "p": path}));
                    let _ = c.write_all(b"HTTP/1.1 403 Forbidden\r\nContent-Length: 4\r\n\r\noops").await;
                    continue;
                }
                if ppm(u(&a, "p_drop", 0)) {
                    ev(json!({"e": "objfault", "k": "drop", "m": method, "p": path}));
                    break;
                }
                let r = match method.as_str() {
                    "PUT" => {
                        store.lock().unwrap().insert(path.clone(), body);
                        if ppm(u(&a, "p_lostack", 0)) {
                            ev(json!({"e": "objfault", "k": "lostack", "m": method, "p": path}));
                            break;
                        }
                        c.write_all(b"HTTP/1.1 201 Created\r\nContent-Length: 0\r\n\r\n").await
                    }
                    "GET" => {
                        let v = store.lock().unwrap().get(&path).cloned();
                        match v {
                            None => c.write_all(b"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n").await,
                            Some(v) => {
                                let h = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\nLast-Modified: Tue, 01 Sep 2026 00:00:00 GMT\r\nETag: \"{}\"\r\n\r\n", v.len(), fnv(&v));
                                let _ = c.write_all(h.as_bytes()).await;
                                if v.len() > 1 && ppm(u(&a, "p_trunc", 0)) {
                                    ev(json!({"e": "objfault", "k": "trunc", "m": method, "p": path}));
                                    let m = below(v.len() as u64) as usize;
                                    let _ = c.write_all(&v[..m]).await;
                                    break;
                                }
                                c.write_all(&v).await
                            }
                        }
                    }
                    "DELETE" => {
                        store.lock().unwrap().remove(&path);
                        c.write_all(b"HTTP/1.1 204 No Content\r\n\r\n").await
                    }
                    _ => c.write_all(b"HTTP/1.1 405 Method Not Allowed\r\nContent-Length: 0\r\n\r\n").await,
                };
                if r.is_err() {
                    break;
                }
            }
        });
    }
}
