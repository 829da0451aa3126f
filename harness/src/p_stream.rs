//! C27: bodies flow while they are made, in both directions.
use crate::core::*;
use crate::h2;
use crate::http::*;
use crate::p_conc::together;
use crate::p_resp::{rand_bytes, Own};
use async_trait::async_trait;
use hyper::body::{Bytes, HttpBody};
use hyper::Body;
use obsidian::context::Context;
use obsidian::middleware::logger::Logger;
use obsidian::middleware::Middleware;
use obsidian::router::{Response, Router};
use obsidian::{App, ContextResult, EndpointExecutor, StatusCode};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{ErrorKind, Read, Write};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};

// ---------------------------------------------------------------- what handler and client share
struct Ctl {
    kind: Kind,
    status: u16,
    /// pieces the client lets go
    give: Mutex<Option<UnboundedReceiver<Bytes>>>,
    /// bytes of the request body the handler has
    seen: Mutex<Vec<u8>>,
    more: Condvar,
    /// the handler may start reading
    open: tokio::sync::Semaphore,
    taken: AtomicU64,
    ended: AtomicBool,
}
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Kind {
    /// pieces of the response, one by one
    Down,
    /// pieces of the request, one by one
    Up,
    /// the request's body is the response's
    Mirror,
    /// pieces are passed on by the handler
    Pass,
    /// more than fits anywhere, and nobody reads
    Flood,
    /// more than fits anywhere, and the handler does not read yet
    Soak,
}
fn registry() -> &'static Mutex<HashMap<u64, Arc<Ctl>>> {
    static R: OnceLock<Mutex<HashMap<u64, Arc<Ctl>>>> = OnceLock::new();
    R.get_or_init(Default::default)
}
const BLOCK: usize = 256 << 10;
const BLOCKS: usize = 512;
fn block(k: usize) -> Bytes {
    static B: OnceLock<Vec<Bytes>> = OnceLock::new();
    B.get_or_init(|| (0..7u64).map(|i| Bytes::from((0..BLOCK as u64).map(|j| (j.wrapping_mul(2654435761) >> 7) as u8 ^ i as u8).collect::<Vec<u8>>())).collect())[k % 7].clone()
}
#[derive(Default)]
struct Sum(u64, u64);
impl Sum {
    fn add(&mut self, b: &[u8]) {
        // order matters, cuts do not
        for c in b {
            self.1 = (self.1 ^ *c as u64).wrapping_mul(0x100_0000_01b3).rotate_left(5);
        }
        self.0 += b.len() as u64;
    }
    fn text(&self) -> String {
        format!("{} {:x}", self.0, self.1)
    }
}
fn flood_sum() -> String {
    static S: OnceLock<String> = OnceLock::new();
    S.get_or_init(|| {
        let mut s = Sum::default();
        for k in 0..BLOCKS {
            s.add(&block(k));
        }
        s.text()
    })
    .clone()
}
async fn handler(mut c: Context) -> ContextResult {
    let rid: u64 = c.headers().get("x-rid").and_then(|v| v.to_str().ok()).and_then(|s| s.parse().ok()).unwrap_or(0);
    let Some(ctl) = registry().lock().unwrap().get(&rid).cloned() else {
        return c.build("plain").ok();
    };
    let status = StatusCode::from_u16(ctl.status).unwrap();
    match ctl.kind {
        Kind::Down => {
            let mut rx = ctl.give.lock().unwrap().take().unwrap();
            let (mut tx, b) = Body::channel();
            tokio::spawn(async move {
                while let Some(p) = rx.recv().await {
                    if tx.send_data(p).await.is_err() {
                        break;
                    }
                }
                ctl.ended.store(true, Ordering::SeqCst);
            });
            c.build(Response::new(Own(b))).with_status(status).ok()
        }
        Kind::Flood => {
            let (mut tx, b) = Body::channel();
            tokio::spawn(async move {
                for k in 0..BLOCKS {
                    if tx.send_data(block(k)).await.is_err() {
                        break;
                    }
                    ctl.taken.fetch_add(1, Ordering::SeqCst);
                }
                ctl.ended.store(true, Ordering::SeqCst);
            });
            c.build(Response::new(Own(b))).with_status(status).ok()
        }
        Kind::Up | Kind::Soak => {
            let _ = ctl.open.acquire().await.map(|p| p.forget());
            let mut b = c.take_body();
            let mut sum = Sum::default();
            while let Some(d) = b.data().await {
                match d {
                    Ok(d) => {
                        sum.add(&d);
                        ctl.taken.fetch_add(d.len() as u64, Ordering::SeqCst);
                        if ctl.kind == Kind::Up {
                            ctl.seen.lock().unwrap().extend_from_slice(&d);
                            ctl.more.notify_all();
                        }
                    }
                    Err(e) => return c.build(format!("broken: {e}")).with_status(StatusCode::IM_A_TEAPOT).ok(),
                }
            }
            c.build(sum.text()).with_status(status).ok()
        }
        Kind::Mirror => {
            let b = c.take_body();
            c.build(Response::new(Own(b))).with_status(status).ok()
        }
        Kind::Pass => {
            let mut b = c.take_body();
            let (mut tx, out) = Body::channel();
            tokio::spawn(async move {
                while let Some(Ok(d)) = b.data().await {
                    if tx.send_data(d).await.is_err() {
                        break;
                    }
                }
            });
            c.build(Response::new(Own(out))).with_status(status).ok()
        }
    }
}
/// Middleware that leaves the bodies alone in one way or another.
struct Around(u8);
#[async_trait]
impl Middleware for Around {
    async fn handle<'a>(&'a self, mut c: Context, ex: EndpointExecutor<'a>) -> ContextResult {
        if self.0 == 1 {
            // takes the body away and puts it back
            let b = c.take_body();
            c.add(Mutex::new(Some(b)));
            let back = c.get::<Mutex<Option<Body>>>().and_then(|m| m.lock().unwrap().take());
            let headers = c.headers().clone();
            *c.headers_mut() = headers;
            let mut inner = Context::new(obsidian::Request::new(back.unwrap_or_else(Body::empty)), Default::default());
            *inner.headers_mut() = c.headers().clone();
            // method and target do not matter to the handler
            return ex.next(inner).await;
        }
        let mut c = ex.next(c).await?;
        match self.0 {
            2 => {
                if let Some(r) = c.response_mut().take() {
                    let s = r.status();
                    // the same body in another response
                    *c.response_mut() = Some(Response::new(Own(r.body())).with_status(s));
                }
            }
            3 => {
                if let Some(r) = c.response_mut().take() {
                    *c.response_mut() = Some(r.set_header(obsidian::header::CACHE_CONTROL, "no-store").set_content_type("text/event-stream"));
                }
            }
            4 => {
                if let Some(r) = c.response_mut() {
                    *r.status_mut() = r.status();
                }
            }
            _ => {}
        }
        Ok(c)
    }
}

// ---------------------------------------------------------------- plans
#[derive(Clone, Debug, Hash)]
struct Plan {
    kind: Kind,
    two: bool,
    v10: bool,
    method: &'static str,
    path: String,
    status: u16,
    sizes: Vec<usize>,
    length_known: bool,
    wait_for_head: bool,
}
fn gen_plan(rng: &mut Rng, big: bool) -> Plan {
    let kind = if big { *rng.pick(&[Kind::Flood, Kind::Soak]) } else { *rng.pick(&[Kind::Down, Kind::Down, Kind::Down, Kind::Up, Kind::Up, Kind::Mirror, Kind::Pass]) };
    let sends = !matches!(kind, Kind::Down | Kind::Flood);
    let two = rng.chance(1, 3);
    let most = if rng.chance(1, 6) { 40 } else { 8 };
    Plan {
        kind,
        two,
        v10: !two && !sends && rng.chance(1, 6),
        method: if sends { *rng.pick(&["POST", "PUT", "PATCH"]) } else { *rng.pick(&["GET", "GET", "POST", "DELETE"]) },
        path: rng.pick(&["/s", "/s/", "/p/abc", "/w/a/b/c", "/n/s", "/n/deep/x/s", "/w"]).to_string(),
        status: *rng.pick(&[200, 200, 200, 201, 206, 404, 500, 299]),
        sizes: (0..rng.range(1, most))
            .map(|_| match rng.below(8) {
                0 => 1,
                1 => rng.range(8_000, 9_000),
                2 => rng.range(16_000, 17_000),
                3 => rng.range(60_000, 200_000),
                _ => rng.range(1, 300),
            })
            .collect(),
        length_known: rng.chance(1, 3),
        wait_for_head: rng.chance(1, 2),
    }
}
fn app(mws: &[(u8, u8)], logger: bool) -> App {
    let mut a: App = if logger { App::default() } else { App::new() };
    let mut n = Router::new();
    for (place, kind) in mws {
        let m = Around(*kind);
        match place {
            0 => a.use_service(m),
            1 => a.use_service_to("/p", m),
            2 => n.use_service(m),
            3 => a.use_service_to("/w/*", m),
            _ => n.use_service_to("/deep", m),
        }
    }
    if logger {
        n.use_service(Logger::new());
    }
    macro_rules! all {
        ($r:expr, $p:expr) => {
            $r.get($p, handler);
            $r.post($p, handler);
            $r.put($p, handler);
            $r.patch($p, handler);
            $r.delete($p, handler);
        };
    }
    all!(a, "/s");
    all!(a, "/p/:x");
    all!(a, "/w/*");
    all!(n, "/s");
    all!(n, "/deep/:y/s");
    a.use_router("/n", n);
    a
}

// ---------------------------------------------------------------- an incremental HTTP/1 reader
struct Inc {
    s: std::net::TcpStream,
    raw: Vec<u8>,
    pos: usize,
    head: Option<(u16, bool, Option<usize>)>,
    chunk_left: usize,
    got: usize,
    keep: bool,
    body: Vec<u8>,
    sum: Sum,
    ended: bool,
    eof: bool,
}
impl Inc {
    fn new(port: u16, keep: bool) -> Inc {
        let s = Conn::open(port).s;
        Inc { s, raw: vec![], pos: 0, head: None, chunk_left: 0, got: 0, keep, body: vec![], sum: Sum::default(), ended: false, eof: false }
    }
    fn take(&mut self, n: usize) {
        let (a, b) = (self.pos, self.pos + n);
        if self.keep {
            self.body.extend_from_slice(&self.raw[a..b]);
        } else {
            self.sum.add(&self.raw[a..b]);
        }
        self.got += n;
        self.pos = b;
    }
    /// Works through what has arrived.
    fn parse(&mut self) -> Result<(), String> {
        loop {
            if self.pos > 1 << 18 {
                self.raw.drain(..self.pos);
                self.pos = 0;
            }
            if self.ended {
                return Ok(());
            }
            let rest = &self.raw[self.pos..];
            match self.head {
                None => {
                    let Some(e) = find(rest, b"\r\n\r\n") else { return Ok(()) };
                    let head = String::from_utf8_lossy(&rest[..e]).to_ascii_lowercase();
                    let status: u16 = head.get(9..12).and_then(|s| s.parse().ok()).ok_or_else(|| format!("no status in {head}"))?;
                    self.pos += e + 4;
                    if status == 100 {
                        continue;
                    }
                    let chunked = head.contains("\r\ntransfer-encoding: chunked");
                    let len = head.split("\r\n").find_map(|l| l.strip_prefix("content-length:")).and_then(|v| v.trim().parse().ok());
                    self.head = Some((status, chunked, len));
                    if len == Some(0) {
                        self.ended = true;
                    }
                }
                Some((_, true, _)) => {
                    if self.chunk_left > 0 {
                        // what there is of it; the line end belongs to it
                        let n = rest.len().min(self.chunk_left - 2);
                        if self.chunk_left > 2 {
                            if n == 0 {
                                return Ok(());
                            }
                            self.chunk_left -= n;
                            self.take(n);
                        } else {
                            if rest.len() < 2 {
                                return Ok(());
                            }
                            if &rest[..2] != b"\r\n" {
                                return Err("chunk without an end".into());
                            }
                            self.pos += 2;
                            self.chunk_left = 0;
                        }
                        continue;
                    }
                    let Some(e) = find(rest, b"\r\n") else { return Ok(()) };
                    let n = std::str::from_utf8(&rest[..e]).ok().and_then(|s| usize::from_str_radix(s.trim(), 16).ok()).ok_or("chunk size")?;
                    if n == 0 {
                        if rest.len() < e + 4 {
                            return Ok(());
                        }
                        self.pos += e + 4;
                        self.ended = true;
                        return Ok(());
                    }
                    self.pos += e + 2;
                    self.chunk_left = n + 2;
                }
                Some((_, _, Some(len))) => {
                    let n = rest.len().min(len - self.got);
                    self.take(n);
                    if self.got == len {
                        self.ended = true;
                    }
                    return Ok(());
                }
                Some((_, _, None)) => {
                    let n = rest.len();
                    self.take(n);
                    self.ended = self.eof;
                    return Ok(());
                }
            }
        }
    }
    /// Reads until the condition holds.
    fn until(&mut self, ok: impl Fn(&Inc) -> bool) -> Result<(), String> {
        let t = Instant::now();
        let mut tmp = vec![0u8; 65536];
        loop {
            self.parse()?;
            if ok(self) {
                return Ok(());
            }
            if self.eof || self.ended {
                return Err("the answer ended".into());
            }
            if t.elapsed() > TIMEOUT {
                return Err("timeout".into());
            }
            match self.s.read(&mut tmp) {
                Ok(0) => self.eof = true,
                Ok(n) => self.raw.extend_from_slice(&tmp[..n]),
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => return Err("timeout".into()),
                Err(e) => return Err(e.to_string()),
            }
        }
    }
}
fn register(p: &Plan) -> (u64, Arc<Ctl>, UnboundedSender<Bytes>) {
    let (tx, rx) = unbounded_channel();
    let ctl = Arc::new(Ctl {
        kind: p.kind,
        status: p.status,
        give: Mutex::new(Some(rx)),
        seen: Default::default(),
        more: Condvar::new(),
        open: tokio::sync::Semaphore::new(if p.kind == Kind::Soak { 0 } else { 1 }),
        taken: AtomicU64::new(0),
        ended: AtomicBool::new(false),
    });
    let rid = crate::spec::next_rid();
    registry().lock().unwrap().insert(rid, ctl.clone());
    (rid, ctl, tx)
}
fn prefix_seen(ctl: &Ctl, want: &[u8]) -> Result<(), String> {
    let t = Instant::now();
    let mut g = ctl.seen.lock().unwrap();
    while g.len() < want.len() {
        if t.elapsed() > TIMEOUT {
            return Err(format!("the handler has {} of the {} bytes sent", g.len(), want.len()));
        }
        g = ctl.more.wait_timeout(g, Duration::from_millis(500)).unwrap().0;
    }
    if *g != want {
        return Err("the handler has other bytes".into());
    }
    Ok(())
}
/// Waits until a counter has not moved for a while.
fn settled(n: impl Fn() -> u64, enough: u64) -> u64 {
    let start = Instant::now();
    let (mut last, mut at) = (n(), Instant::now());
    loop {
        std::thread::sleep(Duration::from_millis(20));
        let v = n();
        if v != last {
            (last, at) = (v, Instant::now());
        }
        if v >= enough || (at.elapsed() > Duration::from_millis(700) && v > 0) || start.elapsed() > Duration::from_secs(40) {
            return v;
        }
    }
}
fn head_bytes(p: &Plan, rid: u64, len: Option<usize>, chunked: bool) -> Vec<u8> {
    let mut h = format!("{} {} HTTP/1.{}\r\nhost: t\r\nx-rid: {rid}\r\n", p.method, p.path, if p.v10 { 0 } else { 1 });
    h.push_str(&everyday_lines(hash_of(&(p, rid)), &["x-rid"]));
    if let Some(n) = len {
        h.push_str(&format!("content-length: {n}\r\n"));
    } else if chunked {
        h.push_str("transfer-encoding: chunked\r\n");
    }
    h.push_str("\r\n");
    h.into_bytes()
}
fn framed(b: &[u8], chunked: bool) -> Vec<u8> {
    if !chunked {
        return b.to_vec();
    }
    let mut v = format!("{:x}\r\n", b.len()).into_bytes();
    v.extend_from_slice(b);
    v.extend_from_slice(b"\r\n");
    v
}
const WITHHELD: &str = "a part of a response is held back until more of it follows";
const UNREAD: &str = "a part of a request body does not reach the handler until more of it follows";
const BUFFERED: &str = "a body is taken in whole though nobody reads it";
const WRONG: &str = "a streamed body arrives differently";

fn run1(p: &Plan, port: u16, rng: &mut Rng, rep: &Mutex<Rep>) -> Result<(), Violation> {
    let (rid, ctl, tx) = register(p);
    let d = json!({"plan": format!("{p:?}")});
    let fail = |what: &str, why: String| -> Result<(), Violation> { viol(what, json!({"case": d, "why": why})) };
    let pieces: Vec<Vec<u8>> = p.sizes.iter().map(|n| rand_bytes(rng, *n)).collect();
    let total: usize = p.sizes.iter().sum();
    let whole: Vec<u8> = pieces.concat();
    let mut c = Inc::new(port, !matches!(p.kind, Kind::Flood));
    let chunked = !p.length_known;
    let steps = AtomicU64::new(0);
    let sending = !matches!(p.kind, Kind::Down | Kind::Flood);
    let io = |r: std::io::Result<()>| r.map_err(|e| e.to_string());
    let res = (|| -> Result<(), (&str, String)> {
        let len = if p.kind == Kind::Soak { BLOCKS * BLOCK } else { total };
        let h = head_bytes(p, rid, (sending && p.length_known).then_some(len), sending);
        io(c.s.write_all(&h)).map_err(|e| (WRONG, e))?;
        match p.kind {
            Kind::Down => {
                if p.wait_for_head {
                    c.until(|c| c.head.is_some()).map_err(|e| (WITHHELD, format!("the head: {e}")))?;
                }
                let mut sent = 0;
                for x in &pieces {
                    sent += x.len();
                    let _ = tx.send(Bytes::from(x.clone()));
                    c.until(|c| c.got >= sent).map_err(|e| (WITHHELD, format!("{} of {sent} bytes: {e}", c.got)))?;
                    if c.got != sent || c.body != whole[..sent] {
                        return Err((WRONG, format!("{} of {sent} bytes", c.got)));
                    }
                    steps.fetch_add(1, Ordering::Relaxed);
                }
                drop(tx);
                c.until(|c| c.ended).map_err(|e| (WRONG, e))?;
            }
            Kind::Up => {
                for (i, x) in pieces.iter().enumerate() {
                    io(c.s.write_all(&framed(x, chunked))).map_err(|e| (WRONG, e))?;
                    let n: usize = p.sizes[..=i].iter().sum();
                    prefix_seen(&ctl, &whole[..n]).map_err(|e| (UNREAD, e))?;
                    steps.fetch_add(1, Ordering::Relaxed);
                }
                if chunked {
                    io(c.s.write_all(b"0\r\n\r\n")).map_err(|e| (WRONG, e))?;
                }
                c.until(|c| c.ended).map_err(|e| (WRONG, e))?;
                let mut s = Sum::default();
                s.add(&whole);
                if c.body != s.text().into_bytes() {
                    return Err((WRONG, format!("the handler counts {}", show(&c.body))));
                }
            }
            Kind::Mirror | Kind::Pass => {
                let mut sent = 0;
                for x in &pieces {
                    io(c.s.write_all(&framed(x, chunked))).map_err(|e| (WRONG, e))?;
                    sent += x.len();
                    c.until(|c| c.got >= sent).map_err(|e| (WITHHELD, format!("{} of {sent} bytes came back: {e}", c.got)))?;
                    if c.got != sent || c.body != whole[..sent] {
                        return Err((WRONG, format!("{} of {sent} bytes", c.got)));
                    }
                    steps.fetch_add(1, Ordering::Relaxed);
                }
                if chunked {
                    io(c.s.write_all(b"0\r\n\r\n")).map_err(|e| (WRONG, e))?;
                }
                c.until(|c| c.ended).map_err(|e| (WRONG, e))?;
            }
            Kind::Flood => {
                c.until(|c| c.head.is_some()).map_err(|e| (WITHHELD, format!("the head: {e}")))?;
                let n = settled(|| ctl.taken.load(Ordering::SeqCst), BLOCKS as u64);
                if n >= BLOCKS as u64 {
                    return Err((BUFFERED, format!("{} MB of a response", (BLOCKS * BLOCK) >> 20)));
                }
                rep.lock().unwrap().count("megabytes_taken_unread", n * BLOCK as u64 >> 20);
                c.until(|c| c.ended).map_err(|e| (WRONG, format!("after {} bytes: {e}", c.got)))?;
                if c.sum.text() != flood_sum() {
                    return Err((WRONG, format!("{} instead of {}", c.sum.text(), flood_sum())));
                }
                steps.fetch_add(1, Ordering::Relaxed);
            }
            Kind::Soak => {
                // as much as goes
                c.s.set_write_timeout(Some(Duration::from_millis(700))).unwrap();
                let mut k = 0;
                let mut off = 0;
                let mut pending = framed(&block(0), chunked);
                let mut stuck = false;
                while k < BLOCKS {
                    match c.s.write(&pending[off..]) {
                        Ok(n) => off += n,
                        Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => {
                            if stuck {
                                return Err((WRONG, "the rest of the body is not taken".into()));
                            }
                            stuck = true;
                            rep.lock().unwrap().count("megabytes_taken_unread", (k * BLOCK) as u64 >> 20);
                            ctl.open.add_permits(1);
                            c.s.set_write_timeout(Some(TIMEOUT)).unwrap();
                        }
                        Err(e) if e.kind() == ErrorKind::Interrupted => {}
                        Err(e) => return Err((WRONG, e.to_string())),
                    }
                    if off == pending.len() {
                        k += 1;
                        off = 0;
                        pending = framed(&block(k), chunked);
                    }
                }
                if !stuck {
                    return Err((BUFFERED, format!("{} MB of a request", (BLOCKS * BLOCK) >> 20)));
                }
                if chunked {
                    io(c.s.write_all(b"0\r\n\r\n")).map_err(|e| (WRONG, e))?;
                }
                c.until(|c| c.ended).map_err(|e| (WRONG, e))?;
                if c.body != flood_sum().into_bytes() {
                    return Err((WRONG, format!("the handler counts {} instead of {}", show(&c.body), flood_sum())));
                }
                steps.fetch_add(1, Ordering::Relaxed);
            }
        }
        let h = c.head.unwrap_or_default();
        if h.0 != p.status {
            return Err((WRONG, format!("status {}", h.0)));
        }
        Ok(())
    })();
    ctl.open.add_permits(1);
    registry().lock().unwrap().remove(&rid);
    if let Err((what, why)) = res {
        return fail(what, why);
    }
    done(p, &steps, rep);
    Ok(())
}
fn done(p: &Plan, steps: &AtomicU64, rep: &Mutex<Rep>) {
    let n = steps.load(Ordering::Relaxed);
    let mut r = rep.lock().unwrap();
    r.eval(Some(hash_of(p)));
    let k = match p.kind {
        Kind::Down => "pieces_down",
        Kind::Up => "pieces_up",
        Kind::Mirror | Kind::Pass => "pieces_there_and_back",
        Kind::Flood => "floods",
        Kind::Soak => "soaks",
    };
    r.count(k, n);
    r.count(if p.two { "streams_http2" } else { "streams_http1" }, 1);
    if r.sample.is_none() {
        r.sample = Some(json!(format!("{p:?}")));
    }
}
async fn within<T>(what: &'static str, f: impl std::future::Future<Output = T>) -> Result<T, (&'static str, String)> {
    tokio::time::timeout(TIMEOUT, f).await.map_err(|_| (what, "timeout".to_string()))
}
/// The body ends here (an empty frame that only ends it is nothing).
async fn nothing_more(b: &mut Body) -> Result<(), (&'static str, String)> {
    while let Some(x) = within(WRONG, b.data()).await? {
        match x {
            Ok(x) if x.is_empty() => {}
            Ok(x) => return Err((WRONG, format!("{} bytes more than were given", x.len()))),
            Err(e) => return Err((WRONG, e.to_string())),
        }
    }
    Ok(())
}
fn run2(p: &Plan, port: u16, rng: &mut Rng, rep: &Mutex<Rep>) -> Result<(), Violation> {
    let (rid, ctl, give) = register(p);
    let d: Value = json!({"plan": format!("{p:?}")});
    let pieces: Vec<Vec<u8>> = p.sizes.iter().map(|n| rand_bytes(rng, *n)).collect();
    let total: usize = p.sizes.iter().sum();
    let whole: Vec<u8> = pieces.concat();
    let steps = AtomicU64::new(0);
    let sending = !matches!(p.kind, Kind::Down | Kind::Flood);
    let res: Result<(), (&'static str, String)> = h2::crt().block_on(async {
        let mut h = h2::open(port).await.map_err(|e| (WRONG, e))?;
        let mut b = hyper::Request::builder().method(p.method).uri(format!("http://127.0.0.1:{port}{}", p.path)).header("x-rid", rid.to_string());
        for (k, v) in everyday(hash_of(&(p, rid)), &|k| k == "x-rid", true) {
            b = b.header(k.as_str(), v.as_str());
        }
        let len = if p.kind == Kind::Soak { BLOCKS * BLOCK } else { total };
        if sending && p.length_known {
            b = b.header("content-length", len);
        }
        let (mut up, body) = if sending {
            let (t, b) = Body::channel();
            (Some(t), b)
        } else {
            (None, Body::empty())
        };
        let f = h.tx.send_request(b.body(body).unwrap());
        let e2 = |e: hyper::Error| (WRONG, e.to_string());
        match p.kind {
            Kind::Down | Kind::Flood => {
                let first = if !p.wait_for_head && p.kind == Kind::Down {
                    let _ = give.send(Bytes::from(pieces[0].clone()));
                    1
                } else {
                    0
                };
                let r = within(WITHHELD, f).await?.map_err(e2)?;
                let st = r.status().as_u16();
                let mut body = r.into_body();
                if p.kind == Kind::Flood {
                    let n = tokio::task::block_in_place(|| settled(|| ctl.taken.load(Ordering::SeqCst), BLOCKS as u64));
                    if n >= BLOCKS as u64 {
                        return Err((BUFFERED, format!("{} MB of a response", (BLOCKS * BLOCK) >> 20)));
                    }
                    rep.lock().unwrap().count("megabytes_taken_unread", n * BLOCK as u64 >> 20);
                    let mut s = Sum::default();
                    while let Some(x) = within(WRONG, body.data()).await? {
                        s.add(&x.map_err(e2)?);
                    }
                    if s.text() != flood_sum() {
                        return Err((WRONG, format!("{} instead of {}", s.text(), flood_sum())));
                    }
                    steps.fetch_add(1, Ordering::Relaxed);
                } else {
                    let mut got: Vec<u8> = vec![];
                    let mut sent = 0;
                    for (i, x) in pieces.iter().enumerate() {
                        if i >= first {
                            let _ = give.send(Bytes::from(x.clone()));
                        }
                        sent += x.len();
                        while got.len() < sent {
                            match within(WITHHELD, body.data()).await? {
                                Some(x) => got.extend_from_slice(&x.map_err(e2)?),
                                None => return Err((WRONG, format!("ended after {} of {sent} bytes", got.len()))),
                            }
                        }
                        if got != whole[..sent] {
                            return Err((WRONG, format!("{} of {sent} bytes", got.len())));
                        }
                        steps.fetch_add(1, Ordering::Relaxed);
                    }
                    drop(give);
                    nothing_more(&mut body).await?;
                }
                if st != p.status {
                    return Err((WRONG, format!("status {st}")));
                }
            }
            Kind::Up | Kind::Soak => {
                let f = tokio::spawn(f);
                let t = up.as_mut().unwrap();
                if p.kind == Kind::Up {
                    for (i, x) in pieces.iter().enumerate() {
                        within(UNREAD, t.send_data(Bytes::from(x.clone()))).await?.map_err(e2)?;
                        let n: usize = p.sizes[..=i].iter().sum();
                        tokio::task::block_in_place(|| prefix_seen(&ctl, &whole[..n])).map_err(|e| (UNREAD, e))?;
                        steps.fetch_add(1, Ordering::Relaxed);
                    }
                } else {
                    let mut stuck = false;
                    for k in 0..BLOCKS {
                        if !stuck {
                            if let Ok(r) = tokio::time::timeout(Duration::from_millis(700), t.send_data(block(k))).await {
                                r.map_err(e2)?;
                                continue;
                            }
                            stuck = true;
                            rep.lock().unwrap().count("megabytes_taken_unread", (k * BLOCK) as u64 >> 20);
                            ctl.open.add_permits(1);
                        }
                        within(WRONG, t.send_data(block(k))).await?.map_err(e2)?;
                    }
                    if !stuck {
                        return Err((BUFFERED, format!("{} MB of a request", (BLOCKS * BLOCK) >> 20)));
                    }
                    steps.fetch_add(1, Ordering::Relaxed);
                }
                drop(up);
                let r = within(WRONG, f).await?.map_err(|e| (WRONG, e.to_string()))?.map_err(e2)?;
                let st = r.status().as_u16();
                let text = within(WRONG, hyper::body::to_bytes(r.into_body())).await?.map_err(e2)?;
                let want = if p.kind == Kind::Soak {
                    flood_sum()
                } else {
                    let mut s = Sum::default();
                    s.add(&whole);
                    s.text()
                };
                if text != want || st != p.status {
                    return Err((WRONG, format!("{st}: the handler counts {} instead of {want}", show(&text))));
                }
            }
            Kind::Mirror | Kind::Pass => {
                let f = tokio::spawn(f);
                let mut f = Some(f);
                let mut body: Option<Body> = None;
                let mut got: Vec<u8> = vec![];
                let mut sent = 0;
                let mut st = 0;
                for x in &pieces {
                    // more than the windows hold is sent while it is read
                    let mut t = up.take().unwrap();
                    let y = Bytes::from(x.clone());
                    let sender = tokio::spawn(async move {
                        let r = t.send_data(y).await;
                        (t, r)
                    });
                    sent += x.len();
                    if let Some(f) = f.take() {
                        let r = within(WITHHELD, f).await?.map_err(|e| (WRONG, e.to_string()))?.map_err(e2)?;
                        st = r.status().as_u16();
                        body = Some(r.into_body());
                    }
                    while got.len() < sent {
                        match within(WITHHELD, body.as_mut().unwrap().data()).await? {
                            Some(x) => got.extend_from_slice(&x.map_err(e2)?),
                            None => return Err((WRONG, format!("ended after {} of {sent} bytes", got.len()))),
                        }
                    }
                    if got != whole[..sent] {
                        return Err((WRONG, format!("{} of {sent} bytes", got.len())));
                    }
                    let (t, r) = within(WRONG, sender).await?.map_err(|e| (WRONG, e.to_string()))?;
                    r.map_err(e2)?;
                    up = Some(t);
                    steps.fetch_add(1, Ordering::Relaxed);
                }
                drop(up);
                nothing_more(body.as_mut().unwrap()).await?;
                if st != p.status {
                    return Err((WRONG, format!("status {st}")));
                }
            }
        }
        Ok(())
    });
    ctl.open.add_permits(1);
    registry().lock().unwrap().remove(&rid);
    if let Err((what, why)) = res {
        return viol(what, json!({"case": d, "why": why}));
    }
    done(p, &steps, rep);
    Ok(())
}
pub fn c27(cx: &Arc<Cx>) {
    cx.rule("handlers stream responses, read request bodies or pass them back, behind 0-6 middleware of different kinds and at different routes, over HTTP/1.0, 1.1 and 2; the next piece is only made after the other side has all of the earlier ones, so a piece that waits for more shows as a stop; and 128 MB are offered to a side that does not read, in either direction; an evaluation is one stream; distinct: plans");
    cx.assume("what is taken ahead of the reader is judged at 128 MB: sockets and hyper hold back a few of their own");
    cx.plan(2);
    for (phase, n, big, threads) in [("lockstep", cx.n(700), false, 8), ("unread", cx.n(24), true, 4)] {
        cx.cases(phase, n, threads, |rng, _, rep| {
            let mws: Vec<(u8, u8)> = (0..*rng.pick(&[0usize, 0, 1, 2, 3, 6])).map(|_| (rng.below(5) as u8, rng.below(5) as u8)).collect();
            let logger = rng.chance(1, 4);
            let srv = Server::start(|| app(&mws, logger))?;
            let streams = if big { 1 } else { *rng.pick(&[1usize, 1, 2, 4, 12]) };
            let out: Mutex<Rep> = Default::default();
            let mut jobs: Vec<Box<dyn FnOnce() -> Result<(), Violation> + Send + '_>> = vec![];
            for _ in 0..streams {
                let p = gen_plan(rng, big);
                let mut r = rng.fork();
                let (port, out) = (srv.port, &out);
                jobs.push(Box::new(move || if p.two { run2(&p, port, &mut r, out) } else { run1(&p, port, &mut r, out) }));
            }
            together(jobs)?;
            let o = out.into_inner().unwrap();
            rep.evals += o.evals;
            rep.distinct.extend(o.distinct);
            rep.sample = o.sample;
            for (k, v) in o.counters {
                rep.count(k, v);
            }
            Ok(())
        });
    }
    cx.need("pieces_down", 500);
    cx.need("pieces_up", 300);
    cx.need("pieces_there_and_back", 300);
    cx.need("floods", 2);
    cx.need("soaks", 2);
}
