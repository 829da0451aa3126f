//! A small HTTP/2 (prior knowledge) client used next to the byte-level HTTP/1 one.
use crate::core::*;
use crate::http::{everyday, Resp, TIMEOUT};
use hyper::client::conn::SendRequest;
use hyper::Body;
use std::sync::OnceLock;
use tokio::runtime::Runtime;

pub fn crt() -> &'static Runtime {
    static R: OnceLock<Runtime> = OnceLock::new();
    R.get_or_init(|| {
        tokio::runtime::Builder::new_multi_thread()
            .worker_threads(2)
            .thread_name("cli")
            .enable_all()
            .build()
            .unwrap()
    })
}
/// Nothing is added to the requests (C20 sends its own).
pub static PLAIN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub struct H2 {
    pub tx: SendRequest<Body>,
    pub port: u16,
    pub driver: tokio::task::JoinHandle<()>,
}
impl Drop for H2 {
    fn drop(&mut self) {
        self.driver.abort();
    }
}
pub async fn open(port: u16) -> Result<H2, String> {
    let s = tokio::time::timeout(TIMEOUT, tokio::net::TcpStream::connect(("127.0.0.1", port)))
        .await
        .map_err(|_| "timeout".to_string())?
        .map_err(|e| e.to_string())?;
    s.set_nodelay(true).ok();
    let (tx, conn) = hyper::client::conn::Builder::new()
        .http2_only(true)
        .handshake::<_, Body>(s)
        .await
        .map_err(|e| e.to_string())?;
    let driver = tokio::spawn(async move {
        let _ = conn.await;
    });
    Ok(H2 { tx, port, driver })
}
pub type Req = (String, String, Vec<(String, Vec<u8>)>, Vec<u8>);
pub type Pending = tokio::task::JoinHandle<Result<Resp, String>>;
/// Sends a request (method, target, headers, body) and leaves reading the whole answer to a task of its own.
pub async fn start(tx: &mut SendRequest<Body>, port: u16, r: &Req, body: Option<Body>) -> Result<Pending, String> {
    start_within(tx, port, r, body, TIMEOUT).await
}
pub async fn start_within(tx: &mut SendRequest<Body>, port: u16, r: &Req, body: Option<Body>, patience: std::time::Duration) -> Result<Pending, String> {
    let mut b = hyper::Request::builder().method(r.0.as_str()).uri(format!("http://127.0.0.1:{port}{}", r.1));
    for (k, v) in &r.2 {
        b = b.header(k.as_str(), &v[..]);
    }
    if !PLAIN.load(std::sync::atomic::Ordering::Relaxed) {
        for (k, v) in everyday(hash_of(r), &|k| r.2.iter().any(|h| h.0.eq_ignore_ascii_case(k)), true) {
            b = b.header(k.as_str(), v.as_str());
        }
    }
    let rq = b
        .body(body.unwrap_or_else(|| if r.3.is_empty() { Body::empty() } else { Body::from(r.3.clone()) }))
        .map_err(|e| format!("own request: {e}"))?;
    match tokio::time::timeout(TIMEOUT, std::future::poll_fn(|cx| tx.poll_ready(cx))).await {
        Ok(r) => r.map_err(|e| e.to_string())?,
        Err(_) => return Err("timeout".into()),
    }
    let f = tx.send_request(rq);
    Ok(tokio::spawn(async move {
        let go = async {
            let resp = f.await.map_err(|e| e.to_string())?;
            let status = resp.status().as_u16();
            let headers = resp.headers().iter().map(|(k, v)| (k.as_str().to_string(), v.as_bytes().to_vec())).collect();
            let body = hyper::body::to_bytes(resp.into_body()).await.map_err(|e| format!("body: {e}"))?.to_vec();
            Ok(Resp { status, headers, body })
        };
        match tokio::time::timeout(patience, go).await {
            Ok(r) => r,
            Err(_) => Err("timeout".into()),
        }
    }))
}
pub async fn wait(p: Pending) -> Result<Resp, String> {
    p.await.unwrap_or_else(|e| Err(e.to_string()))
}
/// The answer in full.
pub async fn call(tx: &mut SendRequest<Body>, port: u16, r: &Req, body: Option<Body>) -> Result<Resp, String> {
    wait(start(tx, port, r, body).await?).await
}
/// All requests as concurrent streams of one connection.
pub fn all(port: u16, reqs: Vec<Req>) -> Vec<Result<Resp, String>> {
    crt().block_on(async {
        let mut h = match open(port).await {
            Ok(h) => h,
            Err(e) => return vec![Err(e)],
        };
        let mut hs = vec![];
        for r in &reqs {
            hs.push(start(&mut h.tx, port, r, None).await);
        }
        let mut out = vec![];
        for p in hs {
            out.push(match p {
                Ok(p) => wait(p).await,
                Err(e) => Err(e),
            });
        }
        out
    })
}
pub fn one(port: u16, r: &Req) -> Result<Resp, String> {
    crt().block_on(async {
        let mut h = open(port).await?;
        let port = h.port;
        call(&mut h.tx, port, r, None).await
    })
}
#[allow(dead_code)]
pub fn lost2<T>(what: &str, e: String, d: serde_json::Value) -> Result<T, Violation> {
    viol(format!("{what}: no complete response (h2)"), serde_json::json!({"client_saw": e, "case": d}))
}
