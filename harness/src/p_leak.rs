//! C23: nothing stays behind for requests that are over.
use crate::alloc;
use crate::core::*;
use crate::h2;
use crate::http::*;
use crate::p_resp::Own;
use async_trait::async_trait;
use obsidian::context::Context;
use obsidian::middleware::Middleware;
use obsidian::router::{Response, Router};
use obsidian::{App, Body, ContextResult, EndpointExecutor, ObsidianError};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- what is alive
#[derive(Clone, Default)]
struct Live(Arc<[AtomicI64; 5]>, Arc<AtomicU64>);
const STATE: usize = 0;
const DATA: usize = 1;
const FUTURE: usize = 2;
const STREAM: usize = 3;
const REPLY: usize = 4;
const WHAT: [&str; 5] = ["copies of the application state", "data attached to a context", "handler and middleware futures", "response body streams", "response values"];
impl Live {
    fn up(&self, k: usize) -> Token {
        self.0[k].fetch_add(1, Ordering::SeqCst);
        self.1.fetch_add(1, Ordering::Relaxed);
        Token(self.clone(), k)
    }
    fn get(&self) -> [i64; 5] {
        std::array::from_fn(|k| self.0[k].load(Ordering::SeqCst))
    }
}
struct Token(Live, usize);
impl Drop for Token {
    fn drop(&mut self) {
        self.0 .0[self.1].fetch_sub(1, Ordering::SeqCst);
    }
}
impl Clone for Token {
    fn clone(&self) -> Self {
        self.0.up(self.1)
    }
}
/// Application state: every copy counts.
#[derive(Clone)]
struct State(#[allow(dead_code)] Token, #[allow(dead_code)] Vec<u8>);
/// Data of one request.
struct Data(#[allow(dead_code)] Token, #[allow(dead_code)] String);
struct Pieces {
    left: usize,
    size: usize,
    /// ends in an error instead of an end
    fails: bool,
    /// never ends
    hangs: bool,
    _t: Token,
}
impl futures_core::Stream for Pieces {
    type Item = Result<Vec<u8>, std::io::Error>;
    fn poll_next(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<Option<Self::Item>> {
        if self.left == 0 {
            if self.fails {
                self.fails = false;
                return std::task::Poll::Ready(Some(Err(std::io::Error::new(std::io::ErrorKind::Other, "on purpose"))));
            }
            return if self.hangs { std::task::Poll::Pending } else { std::task::Poll::Ready(None) };
        }
        self.left -= 1;
        std::task::Poll::Ready(Some(Ok(vec![b's'; self.size])))
    }
}
fn head1(c: &Context, n: &str) -> String {
    c.headers().get(n).map(|v| String::from_utf8_lossy(v.as_bytes()).into_owned()).unwrap_or_default()
}
struct Mw(Live, &'static str);
#[async_trait]
impl Middleware for Mw {
    async fn handle<'a>(&'a self, mut c: Context, ex: EndpointExecutor<'a>) -> ContextResult {
        let _f = self.0.up(FUTURE);
        if self.1 == "app" {
            let t = self.0.up(DATA);
            let p = c.uri().path().to_string();
            c.add(Data(t, p));
        }
        let m = head1(&c, "x-mw");
        if let Some(m) = m.strip_prefix(self.1).and_then(|m| m.strip_prefix('-')) {
            match m {
                "err" => return Err(ObsidianError::GeneralError("on purpose".into())),
                "panic" => panic!("{DELIBERATE} middleware"),
                "never" => std::future::pending::<()>().await,
                "early" => return c.build("early").ok(),
                "drop" => {
                    drop(c);
                    return Err(ObsidianError::NoneError);
                }
                "lose" => {
                    let mut c = ex.next(c).await?;
                    *c.response_mut() = None;
                    return Ok(c);
                }
                "after-panic" => {
                    let _c = ex.next(c).await;
                    panic!("{DELIBERATE} after the handler");
                }
                "again" => {
                    let mut c = ex.next(c).await?;
                    let t = self.0.up(REPLY);
                    let s = Pieces { left: 2, size: 10, fails: false, hangs: false, _t: t };
                    *c.response_mut() = Some(Response::new(Own(Body::wrap_stream(s))));
                    return Ok(c);
                }
                _ => {}
            }
        }
        ex.next(c).await
    }
}
fn app(live: &Live) -> App<State> {
    let mut a: App<State> = App::new();
    a.set_app_state(State(live.up(STATE), vec![1; 100]));
    a.use_service(Mw(live.clone(), "app"));
    let l = live.clone();
    let h = move |mut c: Context| {
        let l = l.clone();
        async move {
            let _f = l.up(FUTURE);
            let how = head1(&c, "x-do");
            let t = l.up(DATA);
            c.add(Data(t, how.clone()));
            match how.as_str() {
                "json" => {
                    let v: Value = c.json().await?;
                    return c.build_json(v).ok();
                }
                "form" => {
                    let v: HashMap<String, Vec<String>> = c.form().await?;
                    return c.build(format!("{}", v.len())).ok();
                }
                "query" => {
                    let v: HashMap<String, Vec<String>> = c.query_params()?;
                    return c.build(format!("{}", v.len())).ok();
                }
                "unread" => return c.build("unread").ok(),
                "err" => return Err(ObsidianError::GeneralError("on purpose".into())),
                "panic" => panic!("{DELIBERATE} handler"),
                "never" => {
                    std::future::pending::<()>().await;
                    unreachable!()
                }
                "sleep" => tokio::time::sleep(Duration::from_millis(30)).await,
                "reply" => {
                    let t = l.up(REPLY);
                    let s = Pieces { left: 2, size: 10, fails: false, hangs: false, _t: t };
                    return c.build(Response::new(Own(Body::wrap_stream(s)))).ok();
                }
                "stream" | "stream-fails" | "stream-hangs" | "stream-long" => {
                    let t = l.up(STREAM);
                    let s = Pieces { left: if how == "stream-long" { 4000 } else { 5 }, size: if how == "stream-long" { 10_000 } else { 100 }, fails: how == "stream-fails", hangs: how == "stream-hangs", _t: t };
                    return c.build(Response::new(Own(Body::wrap_stream(s)))).ok();
                }
                "file" => return c.build_file("leak-files/f1.txt").await.ok(),
                "spawn" => {
                    // the context moves to a task of the application's own
                    let j = tokio::spawn(async move {
                        tokio::task::yield_now().await;
                        c
                    });
                    let c = j.await.map_err(|e| ObsidianError::GeneralError(e.to_string()))?;
                    return c.build("moved").ok();
                }
                _ => {}
            }
            let n = hyper::body::to_bytes(c.take_body()).await.map_err(|e| ObsidianError::GeneralError(e.to_string()))?.len();
            c.build(format!("done {n}")).with_header_str("x-l", "v").ok()
        }
    };
    a.get("/r/:id", h.clone());
    a.post("/r/:id", h.clone());
    a.get("/w/*", h.clone());
    a.post("/w/*", h.clone());
    let mut n = Router::new();
    n.use_service(Mw(live.clone(), "nested"));
    n.get("/:id", h.clone());
    n.post("/:id", h);
    a.use_router("/n", n);
    a.use_static_to("/st", "leak-files");
    a
}
// ---------------------------------------------------------------- traffic
const KINDS: [&str; 31] = [
    "ok", "post", "json", "json-bad", "form", "query", "err", "panic", "mw-err", "mw-panic", "mw-early", "mw-drop", "mw-lose", "mw-again", "after-panic", "404", "static", "static-404", "file", "stream", "stream-fails",
    "stream-cut", "unread", "never-left", "body-cut", "sleep-left", "noise", "h2", "h2-reset", "spawn", "connections",
];
fn wire(kind: &str, id: u64, rng: &mut Rng) -> (Vec<u8>, bool) {
    let path = match rng.below(3) {
        0 => format!("/r/id{id}"),
        1 => format!("/w/a{id}/b{}", id % 7),
        _ => format!("/n/id{id}"),
    };
    let ip = format!("10.{}.{}.{}", id >> 16 & 255, id >> 8 & 255, id & 255);
    let ua = format!("agent/{id}");
    let cookie = format!("session=s{id}");
    let base: Vec<(&str, &str)> = vec![("x-forwarded-for", &ip), ("user-agent", &ua), ("cookie", &cookie)];
    let with = |x: &[(&'static str, &'static str)]| {
        let mut v = base.clone();
        v.extend_from_slice(x);
        v
    };
    let nested = format!("/n/id{id}");
    let m = match kind {
        "ok" => req("GET", &path, &with(&[]), b""),
        "post" => req("POST", &path, &with(&[]), &vec![b'x'; rng.size(3000)]),
        "json" => req("POST", &path, &with(&[("x-do", "json")]), json!({"k": id, "list": [1, 2, id]}).to_string().as_bytes()),
        "json-bad" => req("POST", &path, &with(&[("x-do", "json")]), format!("{{\"k{id}\":").as_bytes()),
        "form" => req("POST", &path, &with(&[("x-do", "form")]), format!("k{id}=1&b={id}").as_bytes()),
        "query" => req("GET", &format!("{path}?q{id}={id}&z=1&z=2"), &with(&[("x-do", "query")]), b""),
        "err" => req("GET", &path, &with(&[("x-do", "err")]), b""),
        "panic" => req("GET", &path, &with(&[("x-do", "panic")]), b""),
        "mw-err" => req("GET", &nested, &with(&[("x-mw", "nested-err")]), b""),
        "mw-panic" => req("GET", &path, &with(&[("x-mw", "app-panic")]), b""),
        "mw-early" => req("GET", &nested, &with(&[("x-mw", "nested-early")]), b""),
        "mw-drop" => req("GET", &path, &with(&[("x-mw", "app-drop")]), b""),
        "mw-lose" => req("GET", &path, &with(&[("x-mw", "app-lose"), ("x-do", "reply")]), b""),
        "mw-again" => req("GET", &path, &with(&[("x-mw", "app-again"), ("x-do", "reply")]), b""),
        "after-panic" => req("GET", &path, &with(&[("x-mw", "app-after-panic"), ("x-do", "reply")]), b""),
        "404" => req("GET", &format!("/no/{id}/x"), &with(&[]), b""),
        "static" => req("GET", &format!("/st/f{}.txt", id % 3), &with(&[]), b""),
        "static-404" => req("GET", &format!("/st/none{id}.txt"), &with(&[]), b""),
        "file" => req("GET", &path, &with(&[("x-do", "file")]), b""),
        "stream" => req("GET", &path, &with(&[("x-do", "stream")]), b""),
        "stream-fails" => req("GET", &path, &with(&[("x-do", "stream-fails")]), b""),
        "stream-cut" => req("GET", &path, &with(&[("x-do", if id % 2 == 0 { "stream-long" } else { "stream-hangs" })]), b""),
        "unread" => req("POST", &path, &with(&[("x-do", "unread")]), &vec![b'u'; rng.size(500)]),
        "never-left" => req("GET", &if id % 2 == 0 { path } else { nested }, &with(&[if id % 2 == 0 { ("x-do", "never") } else { ("x-mw", "nested-never") }]), b""),
        "sleep-left" => req("GET", &path, &with(&[("x-do", "sleep")]), b""),
        "body-cut" => req("POST", &path, &with(&[("x-do", *rng.pick(&["json", "form", ""]))]), &[b'1'; 400]),
        "spawn" => req("GET", &path, &with(&[("x-do", "spawn")]), b""),
        _ => req("GET", &path, &with(&[]), b""),
    };
    // these end their connection one way or another
    (m, ["panic", "mw-panic", "after-panic", "stream-fails", "unread"].contains(&kind))
}
fn as_h2(kind: &str, id: u64) -> h2::Req {
    let v = match kind {
        "h2-reset" => vec![("x-do".to_string(), if id % 2 == 0 { b"never".to_vec() } else { b"stream-hangs".to_vec() })],
        _ => vec![("x-do".to_string(), ["", "json", "stream", "err", "reply", "query", "panic", "file"][(id % 8) as usize].as_bytes().to_vec())],
    };
    ("POST".into(), format!("/r/id{id}?q{id}=1"), v, json!({"k": id}).to_string().into_bytes())
}
/// One round of `n` requests of a kind over a few clients; every connection is gone at its end.
fn round(srv: &Server, kind: &'static str, n: u64, from: u64, rng: &mut Rng, idle: &Live) -> Result<u64, Violation> {
    let answered = AtomicU64::new(0);
    if kind == "h2" || kind == "h2-reset" {
        let per = 50;
        for k in 0..n / per {
            let ids: Vec<u64> = (0..per).map(|j| from + k * per + j).collect();
            if kind == "h2" {
                let a = h2::all(srv.port, ids.iter().map(|&i| as_h2(kind, i)).collect());
                answered.fetch_add(a.iter().filter(|a| a.is_ok()).count() as u64, Ordering::Relaxed);
            } else {
                h2::crt().block_on(async {
                    let Ok(mut h) = h2::open(srv.port).await else { return };
                    let mut ps = vec![];
                    for &i in &ids {
                        if let Ok(p) = h2::start(&mut h.tx, srv.port, &as_h2(kind, i), None).await {
                            ps.push(p);
                        }
                    }
                    // until they are in their handlers
                    let t = Instant::now();
                    while idle.get()[FUTURE] == 0 && t.elapsed() < Duration::from_millis(500) {
                        tokio::time::sleep(Duration::from_millis(1)).await;
                    }
                    answered.fetch_add(ps.len() as u64, Ordering::Relaxed);
                    for (j, p) in ps.iter().enumerate() {
                        if k % 2 == 0 || j % 2 == 0 {
                            p.abort();
                        }
                    }
                    if k % 2 == 0 {
                        tokio::time::sleep(Duration::from_millis(2)).await;
                    }
                    for p in ps {
                        p.abort();
                        let _ = p.await;
                    }
                });
            }
        }
        return Ok(answered.into_inner());
    }
    let clients = 6;
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..clients {
            let mut r = rng.fork();
            let (next, answered) = (&next, &answered);
            s.spawn(move || {
                let mut conn: Option<Conn> = None;
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n {
                        break;
                    }
                    let id = from + i;
                    let (w, ends) = wire(kind, id, &mut r);
                    if kind == "connections" {
                        let mut c = Conn::open(srv.port);
                        if id % 3 != 0 && c.roundtrip(&w).is_ok() {
                            answered.fetch_add(1, Ordering::Relaxed);
                        }
                        if id % 2 == 0 {
                            c.abort();
                        }
                        continue;
                    }
                    let mut c = conn.take().unwrap_or_else(|| Conn::open(srv.port));
                    match kind {
                        "never-left" | "sleep-left" | "body-cut" | "stream-cut" | "noise" => {
                            let mut fresh = if c.has_buffered() { Conn::open(srv.port) } else { c };
                            let cut = match kind {
                                "body-cut" => find(&w, b"\r\n\r\n").unwrap() + 4 + r.below(399),
                                _ => w.len(),
                            };
                            let mut b = w[..cut].to_vec();
                            if kind == "noise" {
                                for _ in 0..3 {
                                    let k = r.below(b.len());
                                    b[k] = r.below(256) as u8;
                                }
                            }
                            let _ = fresh.send(&b);
                            if kind == "stream-cut" {
                                let _ = fresh.s.set_read_timeout(Some(Duration::from_millis(200)));
                                use std::io::Read;
                                let _ = fresh.s.read(&mut [0u8; 500]);
                            } else if r.chance(1, 2) {
                                std::thread::sleep(Duration::from_micros(r.range(0, 1500) as u64));
                            }
                            if r.chance(1, 2) {
                                fresh.abort();
                            }
                            answered.fetch_add(1, Ordering::Relaxed);
                        }
                        _ => {
                            let ok = c.roundtrip(&w);
                            if ok.is_ok() {
                                answered.fetch_add(1, Ordering::Relaxed);
                            }
                            if let (Ok(a), false) = (ok, ends) {
                                if !a.will_close() && !r.chance(1, 40) {
                                    conn = Some(c);
                                }
                            }
                        }
                    }
                }
            });
        }
    });
    Ok(answered.into_inner())
}
fn fds() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}
fn threads() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}
/// Waits until everything counted is back where it was at the idle server.
fn settle(live: &Live, idle: &[i64; 5], idle_fds: usize) -> Result<(), (String, Value)> {
    let t = Instant::now();
    loop {
        let now = live.get();
        let f = fds();
        if &now == idle && f <= idle_fds {
            return Ok(());
        }
        if t.elapsed() > Duration::from_secs(25) {
            for k in 0..5 {
                if now[k] != idle[k] {
                    let what = if now[k] > idle[k] { "were not released" } else { "were released more than once" };
                    return Err((format!("{} {what} after all requests were over", WHAT[k]), json!({"idle": idle[k], "now": now[k]})));
                }
            }
            return Err(("descriptors stay open after all connections are closed".into(), json!({"idle": idle_fds, "now": f})));
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}
/// Live bytes once they stop falling.
fn settled_bytes() -> i64 {
    let mut best = i64::MAX;
    let t = Instant::now();
    let mut since = Instant::now();
    while since.elapsed() < Duration::from_millis(60) && t.elapsed() < Duration::from_secs(3) {
        let b = alloc::live();
        if b < best {
            best = b;
            since = Instant::now();
        }
        std::thread::sleep(Duration::from_millis(3));
    }
    best
}

pub fn c23(cx: &Arc<Cx>) {
    cx.rule("rounds of requests of one kind (answered, failed, panicked, refused, abandoned at every stage, cut bodies and responses, noise, HTTP/2 streams reset, plain connections; every request with its own path, query, header values) against one server; after each round all connections are closed and counters of live state copies, context data, futures, response streams and values, descriptors, threads and allocated bytes are read; counters of live objects must return to the idle level exactly, bytes must not grow by 4 or more per request over all rounds and again over twice as many further rounds; an evaluation is one request; non-trivial: distinct (kind, round)");
    cx.assume("memory is judged by growth per round (bounded caches and pools that stop growing are not held against the library); 4 bytes per request is the smallest lasting growth reported");
    std::env::set_current_dir(scratch()).expect("scratch");
    std::fs::create_dir_all("leak-files").unwrap();
    for f in 0..3 {
        std::fs::write(format!("leak-files/f{f}.txt"), vec![b'0' + f as u8; 3000 * (f + 1)]).unwrap();
    }
    alloc::enable();
    cx.plan(1);
    // one case at a time: descriptors and bytes belong to the process
    let reps = if cx.thorough { 6 } else { 1 };
    let mixed = if cx.thorough { 60 } else { 4 };
    cx.cases("rounds", KINDS.len() as u64 * reps + mixed, 1, |rng, i, rep| {
        let single = (i < KINDS.len() as u64 * reps).then(|| KINDS[(i % KINDS.len() as u64) as usize]);
        let n: u64 = match single {
            Some("h2-reset") => 500,
            Some("stream-cut") | Some("never-left") | Some("sleep-left") => 500,
            Some("connections") => 800,
            Some("panic") | Some("mw-panic") | Some("after-panic") => 500,
            _ => 1000,
        } * if cx.thorough { 3 } else { 1 };
        let live = Live::default();
        let base_fds = fds();
        let srv = Server::start(|| app(&live))?;
        let mut id = 1_000_000;
        let go = |rng: &mut Rng, id: &mut u64| -> Result<(u64, u64), Violation> {
            let mut sent = 0;
            let mut ans = 0;
            match single {
                Some(k) => {
                    ans += round(&srv, k, n, *id, rng, &live)?;
                    sent += n;
                    *id += n;
                }
                None => {
                    let mut ks = KINDS.to_vec();
                    rng.shuffle(&mut ks);
                    for k in &ks[..8] {
                        let m = (rng.range(2, 6) * 50) as u64;
                        ans += round(&srv, k, m, *id, rng, &live)?;
                        sent += m;
                        *id += m;
                    }
                }
            }
            Ok((sent, ans))
        };
        // lazily created things come to be first
        let d0 = json!({"kind": single.unwrap_or("mixed"), "requests_per_round": n});
        std::thread::sleep(Duration::from_millis(20));
        let t = Instant::now();
        // the connection that found the server listening is gone
        while fds() > base_fds + 1 && t.elapsed() < Duration::from_secs(5) {
            std::thread::sleep(Duration::from_millis(1));
        }
        let idle = live.get();
        if idle[STATE] < 1 || idle[1..] != [0; 4] {
            return viol("an idle server holds data of requests", json!({"live": idle}));
        }
        let warm = go(rng, &mut id)?;
        rep.evals += warm.0;
        // runtime and pools may keep a few descriptors for good: judged by growth, like bytes
        let t = Instant::now();
        while live.get() != idle && t.elapsed() < Duration::from_secs(25) {
            std::thread::sleep(Duration::from_millis(2));
        }
        std::thread::sleep(Duration::from_millis(20));
        let idle_fds = fds().min(base_fds + 1 + 30);
        let mut bytes = vec![settled_bytes()];
        let mut ths = vec![threads()];
        let mut ans = warm.1;
        let fail = |(what, x): (String, Value), r: usize| viol(what, json!({"round": r, "counts": x, "case": d0}));
        if let Err(e) = settle(&live, &idle, idle_fds) {
            return fail(e, 0);
        }
        let mut per = vec![];
        for r in 1..=4 {
            let (s, a) = go(rng, &mut id)?;
            ans += a;
            rep.evals += s;
            if let Err(e) = settle(&live, &idle, idle_fds) {
                return fail(e, r);
            }
            bytes.push(settled_bytes());
            ths.push(threads());
            per.push(s as i64);
            rep.distinct.push(hash_of(&(i, r)));
            rep.count("rounds", 1);
        }
        let grows: Vec<i64> = bytes.windows(2).map(|w| w[1] - w[0]).collect();
        let (g, p) = (bytes[bytes.len() - 1] - bytes[0], per.iter().sum::<i64>());
        cx.extra
            .lock()
            .unwrap()
            .entry("lasting_growth_bytes".into())
            .or_insert_with(|| json!({}))[format!("{}/{i}", single.unwrap_or("mixed"))] = json!({"bytes": g, "requests": p});
        if g >= 4 * p {
            // pools and bounded tables have stopped growing by now
            let before = bytes[bytes.len() - 1];
            let mut more = 0;
            for _ in 0..8 {
                let (s, _) = go(rng, &mut id)?;
                rep.evals += s;
                more += s as i64;
                if let Err(e) = settle(&live, &idle, idle_fds) {
                    return fail(e, 5);
                }
                bytes.push(settled_bytes());
            }
            if bytes[bytes.len() - 1] - before >= 4 * more {
                return viol("memory grows with every request served", json!({"live_bytes_after_each_round": bytes, "requests_per_round": per[0], "case": d0}));
            }
        }
        if ths.windows(2).all(|w| w[1] >= w[0] + (per[0] as usize) / 4) {
            return viol("threads pile up with the requests served", json!({"threads": ths, "case": d0}));
        }
        rep.count("answered_or_abandoned", ans);
        rep.count("objects_tracked", live.1.load(Ordering::Relaxed));
        rep.count("live_at_idle_bytes_growth_sum", grows.iter().sum::<i64>().max(0) as u64);
        // the server's own things go with it
        drop(srv);
        let t = Instant::now();
        while live.get() != [0; 5] && t.elapsed() < Duration::from_secs(20) {
            std::thread::sleep(Duration::from_millis(2));
        }
        if live.get() != [0; 5] {
            return viol("the application's state outlives its server", json!({"live": live.get(), "case": d0}));
        }
        rep.sample = Some(json!({"case": d0, "live_bytes_after_each_round": bytes, "descriptors": idle_fds, "idle": idle, "tracked": live.1.load(Ordering::Relaxed)}));
        Ok(())
    });
    cx.need("rounds", 4 * (KINDS.len() as u64));
    cx.need("objects_tracked", 50_000);
    cx.need("answered_or_abandoned", 50_000);
}
