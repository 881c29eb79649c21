#![allow(dead_code, unused_imports, clippy::all)]
pub use futures::{SinkExt, StreamExt};
pub use opsqueue::common::StrategicMetadataMap;
pub use opsqueue::common::chunk::{Chunk, ChunkId, ChunkIndex, ChunkSize};
pub use opsqueue::common::errors::E;
pub use opsqueue::common::submission::{Submission, SubmissionId, SubmissionStatus, db as sdb};
pub use opsqueue::common::chunk::db as cdb;
pub use opsqueue::consumer::common::*;
pub use opsqueue::consumer::strategy::Strategy;
pub use opsqueue::db::DBPools;
pub use opsqueue::producer::client::Client;
pub use opsqueue::producer::{ChunkContents, InsertSubmission};
pub use std::sync::Arc;
pub use std::time::{Duration, Instant};
pub use tokio_tungstenite::tungstenite::Message;

pub fn dir() -> String {
    std::env::var("DEMO_DIR").unwrap()
}
pub fn run<F: std::future::Future<Output = bool>>(f: F) {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    let ok = rt.block_on(f);
    println!("{}", if ok { "the property held" } else { "the property is broken" });
    std::process::exit(if ok { 0 } else { 1 });
}
pub async fn pools(name: &str) -> DBPools {
    opsqueue::db::open_and_setup(&format!("{}/{name}.db", dir()), std::num::NonZero::new(16).unwrap()).await
}
pub fn md(v: &[(&str, i64)]) -> StrategicMetadataMap {
    v.iter().map(|(k, v)| (k.to_string(), *v)).collect()
}
pub fn cs(n: i64) -> ChunkSize {
    serde_json::from_value(serde_json::json!(n)).unwrap()
}
/// Inserts a submission straight into the database.
pub async fn insert(p: &DBPools, n: usize, m: &[(&str, i64)]) -> SubmissionId {
    let mut c = p.writer_conn().await.unwrap();
    let chunks = (0..n).map(|i| Some(format!("chunk {i}").into_bytes())).collect();
    sdb::insert_submission_from_chunks(None, chunks, None, md(m), cs(1), &mut c).await.unwrap()
}
pub fn cid(s: SubmissionId, i: u64) -> ChunkId {
    ChunkId::from((s, ChunkIndex::new(i).unwrap()))
}
pub async fn status(p: &DBPools, s: SubmissionId) -> Option<SubmissionStatus> {
    let mut c = p.reader_conn().await.unwrap();
    sdb::submission_status(s, &mut c).await.unwrap()
}
pub struct Server {
    pub addr: String,
    pub pools: DBPools,
    pub stop: tokio_util::sync::CancellationToken,
}
/// The real server, on a free port of the loopback network.
pub async fn server(name: &str, cfg: opsqueue::config::Config, expiry: Duration) -> Server {
    let pools = pools(name).await;
    let port = std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
    let addr = format!("127.0.0.1:{port}");
    let stop = tokio_util::sync::CancellationToken::new();
    let (p, a, s) = (pools.clone(), addr.clone(), stop.clone());
    let cfg: &'static _ = Box::leak(Box::new(cfg));
    tokio::spawn(async move {
        let flag = Arc::new(std::sync::atomic::AtomicBool::new(true));
        let prom = opsqueue::prometheus::setup_prometheus();
        opsqueue::server::serve_producer_and_consumer(cfg, &a, &p, expiry, &s, &flag, prom).await.unwrap();
    });
    for _ in 0..500 {
        if tokio::net::TcpStream::connect(&addr).await.is_ok() {
            break;
        }
        tokio::time::sleep(Duration::from_millis(10)).await;
    }
    Server { addr, pools, stop }
}
pub async fn send(addr: &str, n: usize, m: &[(&str, i64)]) -> SubmissionId {
    let chunks = (0..n).map(|i| Some(format!("chunk {i}").into_bytes())).collect();
    let s = InsertSubmission {
        chunk_contents: ChunkContents::Direct { contents: chunks },
        metadata: None,
        strategic_metadata: md(m),
        chunk_size: Some(cs(1)),
    };
    Client::new(addr).insert_submission(&s, &Default::default()).await.unwrap()
}
/// A consumer that speaks the protocol itself.
pub struct Raw {
    pub ws: tokio_tungstenite::WebSocketStream<tokio_tungstenite::MaybeTlsStream<tokio::net::TcpStream>>,
    nonce: usize,
    pub expired: Vec<ChunkId>,
}
pub type Got = Vec<(Chunk, Submission)>;
impl Raw {
    pub async fn new(addr: &str) -> Raw {
        let (ws, _) = tokio_tungstenite::connect_async(format!("ws://{addr}/consumer")).await.unwrap();
        let mut r = Raw { ws, nonce: 0, expired: vec![] };
        while !matches!(r.recv(Duration::from_secs(5)).await, Some(ServerToClientMessage::Init(_))) {}
        r
    }
    pub async fn recv(&mut self, max: Duration) -> Option<ServerToClientMessage> {
        let end = Instant::now() + max;
        loop {
            let left = end.saturating_duration_since(Instant::now());
            match tokio::time::timeout(left, self.ws.next()).await {
                Ok(Some(Ok(m @ Message::Binary(_)))) => {
                    let m: ServerToClientMessage = m.try_into().unwrap();
                    if let ServerToClientMessage::Async(AsyncServerToClientMessage::ChunkReservationExpired(c)) = &m {
                        self.expired.push(*c);
                    }
                    return Some(m);
                }
                Ok(Some(Ok(_))) => {}
                _ => return None,
            }
        }
    }
    pub async fn say(&mut self, m: ClientToServerMessage) {
        self.nonce += 1;
        let e = Envelope { nonce: self.nonce, contents: m };
        self.ws.send(e.into()).await.unwrap();
    }
    pub async fn ask(&mut self, max: usize, strategy: Strategy) {
        self.say(ClientToServerMessage::WantToReserveChunks { max, strategy }).await;
    }
    pub async fn got(&mut self, wait: Duration) -> Option<Got> {
        let end = Instant::now() + wait;
        loop {
            let m = self.recv(end.saturating_duration_since(Instant::now())).await?;
            if let ServerToClientMessage::Sync(e) = m {
                let SyncServerToClientResponse::ChunksReserved(r) = e.contents;
                return Some(r.unwrap());
            }
        }
    }
    pub async fn get(&mut self, max: usize, strategy: Strategy, wait: Duration) -> Option<Got> {
        self.ask(max, strategy).await;
        self.got(wait).await
    }
    pub async fn done(&mut self, id: ChunkId) {
        self.say(ClientToServerMessage::CompleteChunk { id, output_content: Some(b"result".to_vec()) }).await;
    }
    pub async fn fail(&mut self, id: ChunkId, why: &str) {
        self.say(ClientToServerMessage::FailChunk { id, failure: why.into() }).await;
    }
}
pub fn ids(g: &Got) -> Vec<ChunkId> {
    g.iter().map(|(c, _)| ChunkId::from((c.submission_id, c.chunk_index))).collect()
}
pub async fn ms(n: u64) {
    tokio::time::sleep(Duration::from_millis(n)).await;
}
