//! Slow requests: handlers, middleware, heads, bodies, answers and readers that take seconds. Whatever the
//! time they take, they are ordinary requests. Runs beside the other phases of a property.
use crate::core::*;
use crate::h2;
use crate::http::*;
use crate::p_resp::Own;
use async_trait::async_trait;
use obsidian::context::Context;
use obsidian::middleware::Middleware;
use obsidian::router::{Response, Router};
use obsidian::{App, Body, ContextResult, EndpointExecutor, ObsidianError};
use serde_json::json;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

type Runs = Arc<Mutex<HashMap<String, (u32, u32)>>>;
fn header(c: &Context, n: &str) -> String {
    c.headers().get(n).map(|v| String::from_utf8_lossy(v.as_bytes()).into_owned()).unwrap_or_default()
}
async fn nap(c: &Context, n: &str) {
    if let Ok(ms) = header(c, n).parse() {
        tokio::time::sleep(Duration::from_millis(ms)).await;
    }
}
struct SlowMw(Runs);
#[async_trait]
impl Middleware for SlowMw {
    async fn handle<'a>(&'a self, c: Context, ex: EndpointExecutor<'a>) -> ContextResult {
        self.0.lock().unwrap().entry(header(&c, "x-t")).or_default().0 += 1;
        nap(&c, "x-before").await;
        let after = header(&c, "x-after").parse().ok();
        let r = ex.next(c).await;
        if let Some(ms) = after {
            tokio::time::sleep(Duration::from_millis(ms)).await;
        }
        r
    }
}
const BIG: usize = 6_000_000;
fn big(t: &str) -> Vec<u8> {
    t.bytes().cycle().take(BIG).collect()
}
fn app(runs: &Runs, logger: bool) -> App {
    let mut a: App = if logger { App::default() } else { App::new() };
    let h = {
        let runs = runs.clone();
        move |mut c: Context| {
            let runs = runs.clone();
            async move {
                let t = header(&c, "x-t");
                runs.lock().unwrap().entry(t.clone()).or_default().1 += 1;
                nap(&c, "x-handler").await;
                let got = match header(&c, "x-read").as_str() {
                    "json" => c.json::<Vec<u32>>().await?.len(),
                    "form" => c.form::<HashMap<String, String>>().await?.len(),
                    _ => hyper::body::to_bytes(c.take_body()).await.map_err(|e| ObsidianError::GeneralError(e.to_string()))?.len(),
                };
                let text = format!("{t} {got}");
                match header(&c, "x-answer").as_str() {
                    "err" => Err(ObsidianError::GeneralError(text)),
                    "big" => c.build(Response::ok().set_body(Own(Body::from(big(&t))))).ok(),
                    "stream" => {
                        let ms = header(&c, "x-stream").parse().unwrap_or(0);
                        let (mut tx, b) = Body::channel();
                        tokio::spawn(async move {
                            let (x, y) = text.split_at(text.len() / 2);
                            let _ = tx.send_data(x.to_string().into()).await;
                            tokio::time::sleep(Duration::from_millis(ms)).await;
                            let _ = tx.send_data(y.to_string().into()).await;
                        });
                        c.build(Response::ok().set_body(Own(b))).ok()
                    }
                    _ => c.build(text).ok(),
                }
            }
        }
    };
    a.use_service_to("/r", SlowMw(runs.clone()));
    a.get("/r/:x", h.clone());
    a.post("/r/:x", h.clone());
    let mut r = Router::new();
    r.use_service(SlowMw(runs.clone()));
    r.get("/n/*", h.clone());
    r.post("/n/*", h);
    a.use_router("/nest", r);
    a
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Slow {
    Handler,
    Before,
    After,
    Body,
    Head,
    Stream,
    Reader,
    Error,
}
use Slow::*;
pub const ALL: [Slow; 8] = [Handler, Before, After, Body, Head, Stream, Reader, Error];

fn one(port: u16, what: Slow, ms: u64, logger: bool, over2: bool, mut r: Rng) -> Result<(String, u32), Violation> {
    let t = format!("{what:?}-{ms}-{over2}");
    let d = json!({"slow": format!("{what:?}"), "milliseconds": ms, "http2": over2, "logger": logger});
    let at = match what {
        Handler | Error => "x-handler",
        Before => "x-before",
        After => "x-after",
        Stream => "x-stream",
        _ => "x-none",
    };
    let answer = match what {
        Stream => "stream",
        Reader => "big",
        Error => "err",
        _ => "text",
    };
    let (read, body, n): (&str, Vec<u8>, usize) = match (what == Body) as usize * (1 + r.below(3)) {
        1 => ("json", b"[10,20,30,40]".to_vec(), 4),
        2 => ("form", b"aa=1&b=2&cc=3".to_vec(), 3),
        3 => ("raw", vec![b'q'; 3000], 3000),
        _ => ("raw", vec![], 0),
    };
    let path = if r.chance(1, 2) { "/r/1".to_string() } else { "/nest/n/a/b".to_string() };
    let m = if body.is_empty() { "GET" } else { "POST" };
    let mss = ms.to_string();
    let want = match what {
        Reader => (200, big(&t)),
        Error => (500, format!("{t} {n}").into_bytes()),
        _ => (200, format!("{t} {n}").into_bytes()),
    };
    let patience = Duration::from_millis(ms) + TIMEOUT;
    let a = if over2 {
        let q: h2::Req = (
            m.into(),
            path,
            [("x-t", t.as_str()), (at, &mss), ("x-read", read), ("x-answer", answer)].iter().map(|(k, v)| (k.to_string(), v.as_bytes().to_vec())).collect(),
            vec![],
        );
        let cut = if body.is_empty() { 0 } else { r.below(body.len()) };
        h2::crt().block_on(async {
            let mut h = h2::open(port).await?;
            let b = if body.is_empty() {
                None
            } else {
                let (mut tx, b) = hyper::Body::channel();
                let body = body.clone();
                tokio::spawn(async move {
                    let _ = tx.send_data(body[..cut].to_vec().into()).await;
                    tokio::time::sleep(Duration::from_millis(ms)).await;
                    let _ = tx.send_data(body[cut..].to_vec().into()).await;
                });
                Some(b)
            };
            h2::wait(h2::start_within(&mut h.tx, port, &q, b, patience).await?).await
        }).map_err(Ce::Io)
    } else {
        let mut c = Conn::open(port);
        let hs: Vec<(&str, &str)> = vec![("x-t", &t), (at, &mss), ("x-read", read), ("x-answer", answer)];
        let mut b = req(m, &path, &hs, &body);
        if !body.is_empty() && r.chance(1, 2) {
            b = format!("{m} {path} HTTP/1.1\r\nhost: t\r\nx-t: {t}\r\nx-read: {read}\r\nx-answer: {answer}\r\ntransfer-encoding: chunked\r\n\r\n").into_bytes();
            b.extend(chunked(&body, &[r.range(1, body.len())]));
        }
        let head = find(&b, b"\r\n\r\n").unwrap() + 4;
        let cut = match what {
            Head => r.range(1, head - 1),
            Body => r.range(head, b.len() - 1),
            _ => b.len(),
        };
        let go = |c: &mut Conn| {
            c.send(&b[..cut])?;
            if cut < b.len() {
                std::thread::sleep(Duration::from_millis(ms));
                c.send(&b[cut..])?;
            }
            if what == Reader {
                std::thread::sleep(Duration::from_millis(ms));
            }
            c.read_response_within(false, patience)
        };
        go(&mut c)
    };
    match a {
        Ok(a) if (a.status, &a.body) == (want.0, &want.1) => Ok((t, 1)),
        Ok(a) => viol("a slow request got another answer", json!({"case": d, "status": a.status, "body": show(&a.body[..a.body.len().min(200)]), "length": a.body.len()})),
        Err(e) => lost("a slow request", e, d),
    }
}
/// Starts slow requests of the given kinds; `finish` waits for them and judges.
pub struct Background(std::thread::JoinHandle<Result<(u64, u64), Violation>>);
pub fn start(cx: &Arc<Cx>, kinds: &'static [Slow], logger: bool) -> Background {
    let mut delays: Vec<u64> = vec![300, 1200];
    if cx.budget() > Duration::from_secs(60) {
        delays.extend([2600, 5300, 10_400, 15_500, 20_600, 31_000]);
    }
    if cx.thorough && cx.budget() > Duration::from_secs(200) {
        delays.extend([46_000, 61_500, 91_000, 122_000]);
    }
    let mut rng = Rng::new(hash_of(&(cx.seed, "slow")));
    Background(std::thread::spawn(move || {
        let runs = Runs::default();
        let srv = Server::start(|| app(&runs, logger))?;
        let mut hs = vec![];
        for &k in kinds {
            for &ms in &delays {
                for over2 in [false, true] {
                    if over2 && (k == Head || k == Reader) {
                        continue;
                    }
                    let r = rng.fork();
                    let port = srv.port;
                    hs.push(std::thread::spawn(move || one(port, k, ms, logger, over2, r)));
                }
            }
        }
        let mut n = 0;
        for h in hs {
            let (t, times) = h.join().expect("slow client")?;
            let got = runs.lock().unwrap().get(&t).copied().unwrap_or_default();
            if got != (times, times) {
                return viol("a slow request was not handled once", json!({"request": t, "middleware": got.0, "handler": got.1}));
            }
            n += 1;
        }
        Ok((n, *delays.last().unwrap()))
    }))
}
impl Background {
    pub fn finish(self, cx: &Arc<Cx>) {
        let h = Mutex::new(Some(self.0));
        cx.cases("slow", 1, 1, |_, _, rep| {
            let (n, max) = h.lock().unwrap().take().unwrap().join().expect("slow requests")?;
            for i in 0..n {
                rep.eval(Some(hash_of(&("slow", i))));
            }
            rep.count("slow_requests", n);
            rep.count("slowest_milliseconds", max);
            Ok(())
        });
        cx.need("slow_requests", 2);
    }
}
