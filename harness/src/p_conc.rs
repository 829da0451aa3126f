//! Concurrency: C13 isolation of requests, C14 application state, C17 exactly once and in order,
//! C19 failures stay with their request, C24 waiting requests hold nobody up.
use crate::core::*;
use crate::p_slow::Slow;
use crate::h2;
use crate::http::*;
use crate::p_resp::{intern, Own};
use async_trait::async_trait;
use obsidian::context::Context;
use obsidian::middleware::Middleware;
use obsidian::router::{Response, Router};
use obsidian::{App, Body, ContextResult, EndpointExecutor, ObsidianError, StatusCode};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Waits in a way that depends on the request only.
async fn pause(seed: u64) {
    match seed % 8 {
        0 | 1 => {}
        2 | 3 => {
            for _ in 0..seed / 8 % 5 {
                tokio::task::yield_now().await;
            }
        }
        4 | 5 => tokio::time::sleep(Duration::from_micros(seed / 8 % 900)).await,
        6 => tokio::time::sleep(Duration::from_micros(seed / 8 % 4000)).await,
        _ => {
            let _ = tokio::task::spawn_blocking(|| std::thread::yield_now()).await;
        }
    }
}
/// What happened when, to see how much really overlapped.
#[derive(Clone, Default)]
struct Clock(Arc<Mutex<(Vec<(u32, bool)>, usize, usize)>>);
impl Clock {
    fn mark(&self, who: u32, start: bool) {
        let mut g = self.0.lock().unwrap();
        g.0.push((who, start));
        if start {
            g.1 += 1;
            g.2 = g.2.max(g.1);
        } else {
            g.1 -= 1;
        }
    }
    /// (hash of the order of events, events overlapping another request, most at once)
    fn summary(&self) -> (u64, u64, usize) {
        let g = self.0.lock().unwrap();
        let (mut live, mut over) = (0, 0);
        for e in &g.0 {
            if e.1 {
                if live > 0 {
                    over += 1;
                }
                live += 1;
            } else {
                live -= 1;
            }
        }
        (hash_of(&g.0), over, g.2)
    }
}
struct InFlight(Clock, u32);
impl InFlight {
    fn new(c: &Clock, who: u32) -> Self {
        c.mark(who, true);
        InFlight(c.clone(), who)
    }
}
impl Drop for InFlight {
    fn drop(&mut self) {
        self.0.mark(self.1, false)
    }
}
fn one_header(c: &Context, n: &str) -> String {
    c.headers().get_all(n).iter().map(|v| String::from_utf8_lossy(v.as_bytes()).into_owned()).collect::<Vec<_>>().join(",")
}

// ---------------------------------------------------------------- C13
/// Data a middleware attaches to its request.
#[derive(Clone)]
struct Tok(String);
struct Tok2(String, Vec<u8>);
struct Outer(Clock);
#[async_trait]
impl Middleware for Outer {
    async fn handle<'a>(&'a self, mut c: Context, ex: EndpointExecutor<'a>) -> ContextResult {
        let t = one_header(&c, "x-t");
        let h = hash_of(&t);
        let _f = InFlight::new(&self.0, t.rsplit('-').next().and_then(|x| x.parse().ok()).unwrap_or(0));
        if c.get::<Tok>().is_some() || c.get::<Tok2>().is_some() {
            let x = c.get::<Tok>().map(|t| t.0.clone()).unwrap_or_default();
            return c.build(format!("LEAK: data of another request: {x}")).ok();
        }
        if c.response().is_some() {
            return c.build("LEAK: a response is there before the request was handled").ok();
        }
        c.add(Tok(t.clone()));
        pause(h / 3).await;
        if c.get::<Tok>().map(|x| x.0.as_str()) != Some(t.as_str()) || one_header(&c, "x-t") != t {
            let x = c.get::<Tok>().map(|t| t.0.clone());
            return c.build(format!("LEAK: attached data changed from {t} to {x:?}")).ok();
        }
        let mut r = ex.next(c).await;
        pause(h / 5).await;
        if let Ok(c) = &mut r {
            if c.get::<Tok>().map(|x| x.0.as_str()) != Some(t.as_str()) {
                let mut c = r.unwrap();
                *c.response_mut() = None;
                return c.build("LEAK: attached data changed around the handler").ok();
            }
        }
        r
    }
}
struct Inner;
#[async_trait]
impl Middleware for Inner {
    async fn handle<'a>(&'a self, mut c: Context, ex: EndpointExecutor<'a>) -> ContextResult {
        let t = c.get::<Tok>().map(|t| t.0.clone()).unwrap_or("none".into());
        c.add(Tok2(t.clone(), t.clone().into_bytes()));
        c.headers_mut().append("x-mid", t.parse().unwrap());
        pause(hash_of(&t) / 7).await;
        ex.next(c).await
    }
}
fn snapshot(c: &mut Context) -> Value {
    let q: Result<BTreeMap<String, Vec<String>>, _> = c.query_params();
    json!({
        "method": c.method().as_str(), "path": c.uri().path(), "query": c.uri().query(), "q": q.ok(),
        "a": c.param::<String>("a").ok(), "b": c.param::<String>("b").ok(), "rest": c.param::<String>("*").ok(),
        "t": one_header(c, "x-t"), "mid": one_header(c, "x-mid"), "cookie": one_header(c, "cookie"),
        "tok": c.get::<Tok>().map(|t| t.0.clone()), "tok2": c.get::<Tok2>().map(|t| format!("{} {}", t.0, t.1.len())),
    })
}
async fn report(mut c: Context) -> ContextResult {
    let h = hash_of(&one_header(&c, "x-t"));
    let before = snapshot(&mut c);
    pause(h / 11).await;
    let kind = one_header(&c, "x-kind");
    let body = match kind.as_str() {
        "json" => match c.json::<Value>().await {
            Ok(v) => json!({"json": v}),
            Err(e) => json!({"error": e.to_string()}),
        },
        "form" => match c.form::<BTreeMap<String, Vec<String>>>().await {
            Ok(v) => json!({"form": v}),
            Err(e) => json!({"error": e.to_string()}),
        },
        _ => match hyper::body::to_bytes(c.take_body()).await {
            Ok(b) => json!({"raw": [b.len(), hash_of(&b[..])]}),
            Err(e) => json!({"error": e.to_string()}),
        },
    };
    pause(h / 13).await;
    let after = snapshot(&mut c);
    let t = one_header(&c, "x-t");
    let out = json!({"before": before, "after_same": before == after, "body": body});
    if kind == "err" {
        return Err(ObsidianError::GeneralError(out.to_string()));
    }
    let st = 200 + (h % 90) as u16;
    let st = if st == 204 || st == 205 { 200 } else { st };
    c.build(out.to_string()).with_status(StatusCode::from_u16(st).unwrap()).with_header_str("x-rt", rt_header(&t)).ok()
}
fn rt_header(t: &str) -> &'static str {
    // as many values as tokens would leak in the harness; a pool of them tells requests apart
    static POOL: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    let p = POOL.get_or_init(|| (0..997).map(|i| intern(&format!("rt{i}"))).collect());
    p[(hash_of(t) % 997) as usize]
}
fn app13(clock: &Clock) -> App {
    let mut a: App = App::new();
    a.use_service(Outer(clock.clone()));
    let mut n = Router::new();
    n.use_service(Inner);
    macro_rules! all {
        ($r:ident, $p:expr) => {
            $r.get($p, report);
            $r.post($p, report);
            $r.put($p, report);
            $r.patch($p, report);
            $r.delete($p, report);
        };
    }
    all!(a, "/e/:a/:b");
    all!(a, "/w/*");
    all!(a, "/one/:a");
    all!(n, "/e/:a/:b");
    all!(n, "/x/:a/w/*");
    all!(n, "/");
    a.use_router("/n", n);
    a.use_static_to("/st", "conc-files");
    a
}
#[derive(Clone, Debug)]
struct Sent13 {
    method: &'static str,
    target: String,
    token: String,
    kind: &'static str,
    cookie: Option<String>,
    body: Vec<u8>,
    /// None: the file's content; otherwise what the handler reports
    want: Option<Value>,
    file: Option<usize>,
}
fn gen13(rng: &mut Rng, who: &str, i: usize) -> Sent13 {
    let token = format!("tok-{who}-{:x}-{i}", rng.next());
    if rng.chance(1, 10) {
        let f = rng.below(16);
        return Sent13 { method: "GET", target: format!("/st/f{f}.txt"), token, kind: "", cookie: None, body: vec![], want: None, file: Some(f) };
    }
    let (mut a, mut b, mut rest, mut mid) = (None, None, None, false);
    let path = match rng.below(6) {
        0 => {
            a = Some(format!("a-{token}"));
            b = Some(format!("b-{token}"));
            format!("/e/a-{token}/b-{token}")
        }
        1 => {
            let r = (0..rng.below(5)).map(|k| format!("r{k}-{token}")).collect::<Vec<_>>().join("/");
            rest = Some(if r.is_empty() { None } else { Some(r.clone()) });
            if r.is_empty() {
                "/w".into()
            } else {
                format!("/w/{r}")
            }
        }
        2 => {
            a = Some(token.clone());
            format!("/one/{token}")
        }
        3 => {
            mid = true;
            a = Some(format!("a-{token}"));
            b = Some(format!("b-{token}"));
            format!("/n/e/a-{token}/b-{token}")
        }
        4 => {
            mid = true;
            a = Some(format!("a-{token}"));
            rest = Some(Some(format!("x/{token}")));
            format!("/n/x/a-{token}/w/x/{token}")
        }
        _ => {
            mid = true;
            "/n".to_string()
        }
    };
    let query = rng.chance(2, 3).then(|| format!("t={token}&u={}&t=2", rng.below(100)));
    let kind = *rng.pick(&["raw", "raw", "json", "form", "err"]);
    let n = rng.size(6000);
    let body = match kind {
        "json" => json!({"t": token, "pad": "p".repeat(n)}).to_string().into_bytes(),
        "form" => format!("t={token}&pad={}", "q".repeat(n.max(1))).into_bytes(),
        _ if rng.chance(1, 3) => vec![],
        _ => token.bytes().cycle().take(n).collect(),
    };
    let bw = match kind {
        "json" => json!({"json": serde_json::from_slice::<Value>(&body).unwrap()}),
        "form" => json!({"form": {"t": [token], "pad": ["q".repeat(n.max(1))]}}),
        _ => json!({"raw": [body.len(), hash_of(&body[..])]}),
    };
    let q: Value = match &query {
        None => json!({}),
        Some(q) => {
            let u = q.split('&').nth(1).unwrap().split('=').nth(1).unwrap();
            json!({"t": [token, "2"], "u": [u]})
        }
    };
    let method = *rng.pick(&["GET", "POST", "PUT", "PATCH", "DELETE"]);
    let cookie = rng.chance(1, 2).then(|| format!("session={token}"));
    // the pattern with a wildcard gives the rest under "*"; the bare prefix gives nothing or an empty one: not judged
    let rest_v = match &rest {
        None => Value::Null,
        Some(None) => json!("ANY"),
        Some(Some(r)) => json!(r),
    };
    let want = json!({"before": {
        "method": method, "path": path, "query": query, "q": q, "a": a, "b": b, "rest": rest_v,
        "t": token, "mid": if mid { token.clone() } else { String::new() }, "cookie": cookie.clone().unwrap_or_default(),
        "tok": token, "tok2": if mid { Some(format!("{} {}", token, token.len())) } else { None },
    }, "after_same": true, "body": bw});
    let target = match &query {
        Some(q) => format!("{path}?{q}"),
        None => path,
    };
    Sent13 { method, target, token, kind, cookie, body, want: Some(want), file: None }
}
fn wire13(s: &Sent13, rng: &mut Rng) -> Vec<u8> {
    let mut v = format!("{} {} HTTP/1.1\r\nhost: t\r\nx-t: {}\r\nx-kind: {}\r\n", s.method, s.target, s.token, s.kind).into_bytes();
    if let Some(c) = &s.cookie {
        v.extend_from_slice(format!("cookie: {c}\r\n").as_bytes());
    }
    v.extend_from_slice(everyday_lines(rng.next(), &["cookie"]).as_bytes());
    if rng.chance(1, 3) && !s.body.is_empty() {
        v.extend_from_slice(b"transfer-encoding: chunked\r\n\r\n");
        let k = rng.range(1, 4);
        let cs: Vec<usize> = (0..k).map(|_| rng.range(1, s.body.len())).collect();
        v.extend_from_slice(&chunked(&s.body, &cs));
    } else {
        v.extend_from_slice(format!("content-length: {}\r\n\r\n", s.body.len()).as_bytes());
        v.extend_from_slice(&s.body);
    }
    v
}
fn check13(s: &Sent13, r: &Resp) -> Result<(), Violation> {
    let d = |x: &str| json!({"problem": x, "request": show(format!("{} {} {}", s.method, s.target, s.token).as_bytes()), "kind": s.kind, "status": r.status, "observed": show(&r.body[..r.body.len().min(1500)]), "expected": s.want.as_ref().map(|w| show(w["before"].to_string().as_bytes()))});
    if let Some(f) = s.file {
        if r.status != 200 || r.body != file13(f) {
            return viol("a concurrent request for a file got something else", d("file"));
        }
        return Ok(());
    }
    let Ok(mut got) = serde_json::from_slice::<Value>(&r.body) else {
        return viol("a concurrent request was not answered from its own data", d("not the handler's report"));
    };
    let want = s.want.as_ref().unwrap();
    if want["before"]["rest"] == "ANY" {
        got["before"]["rest"] = json!("ANY");
    }
    if &got != want {
        return viol("a handler saw something its own request does not determine", d("report"));
    }
    let h = hash_of(&s.token);
    let mut st = 200 + (h % 90) as u16;
    if st == 204 || st == 205 {
        st = 200;
    }
    if s.kind == "err" {
        if r.status != 500 {
            return viol("a concurrent request got another status", d("status"));
        }
    } else if r.status != st || r.all("x-rt") != vec![rt_header(&s.token).as_bytes()] {
        return viol("a concurrent request got another status or header", d("status or header"));
    }
    Ok(())
}
fn file13(f: usize) -> Vec<u8> {
    format!("file {f};").into_bytes().repeat(1 + f * f * 40)
}
fn files13() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        std::env::set_current_dir(scratch()).expect("scratch");
        std::fs::create_dir_all("conc-files").unwrap();
        for f in 0..16 {
            std::fs::write(format!("conc-files/f{f}.txt"), file13(f)).unwrap();
        }
    });
}
/// Runs the clients of a case at once; the first complaint counts.
pub fn together(jobs: Vec<Box<dyn FnOnce() -> Result<(), Violation> + Send + '_>>) -> Result<(), Violation> {
    let first: Mutex<Option<Violation>> = Mutex::new(None);
    let failed: Mutex<Option<Box<dyn std::any::Any + Send>>> = Mutex::new(None);
    std::thread::scope(|s| {
        for j in jobs {
            let (first, failed) = (&first, &failed);
            s.spawn(move || match std::panic::catch_unwind(std::panic::AssertUnwindSafe(j)) {
                Ok(Ok(())) => {}
                Ok(Err(v)) => {
                    first.lock().unwrap().get_or_insert(v);
                }
                Err(p) => {
                    failed.lock().unwrap().get_or_insert(p);
                }
            });
        }
    });
    if let Some(v) = first.into_inner().unwrap() {
        return Err(v);
    }
    if let Some(p) = failed.into_inner().unwrap() {
        std::panic::resume_unwind(p);
    }
    Ok(())
}

pub fn c13(cx: &Arc<Cx>) {
    cx.rule("3-8 clients at once (HTTP/1.1 with pipelining, HTTP/2 with concurrent streams) against one application; every value of a request (path, parameters, query, headers, body, attached data) carries the request's token, handlers wait at random points and report all they see twice; reports, statuses, headers and files are compared with the request; an evaluation is one answered request, an interleaving is the order of all starts and ends in a case; non-trivial: distinct interleavings in which requests overlapped");
    files13();
    cx.plan(1);
    cx.cases("mixed", cx.n(160), 4, |rng, _, rep| {
        let clock = Clock::default();
        let srv = Server::start(|| app13(&clock))?;
        let n1 = rng.range(2, 6);
        let n2 = rng.range(1, 2);
        let per = rng.range(8, 30);
        let done = AtomicU64::new(0);
        let mut jobs: Vec<Box<dyn FnOnce() -> Result<(), Violation> + Send + '_>> = vec![];
        for k in 0..n1 {
            let mut r = rng.fork();
            let (srv, done) = (&srv, &done);
            jobs.push(Box::new(move || {
                let mut c = srv.connect();
                let mut i = 0;
                while i < per {
                    let m = (*r.pick(&[1, 1, 2, 5])).min(per - i);
                    let batch: Vec<Sent13> = (0..m).map(|j| gen13(&mut r, &format!("h1c{k}"), k * 1000 + i + j)).collect();
                    i += m;
                    let mut bytes = vec![];
                    for s in &batch {
                        bytes.extend(wire13(s, &mut r));
                    }
                    if let Err(e) = c.send(&bytes) {
                        return lost("concurrent requests", e, json!(batch[0].target));
                    }
                    for s in &batch {
                        match c.read_response(false) {
                            Ok(resp) => check13(s, &resp)?,
                            Err(e) => return lost("a concurrent request", e, json!({"target": s.target, "method": s.method})),
                        }
                        done.fetch_add(1, Ordering::Relaxed);
                    }
                    if r.chance(1, 12) {
                        c = srv.connect();
                    }
                }
                Ok(())
            }));
        }
        for k in 0..n2 {
            let mut r = rng.fork();
            let (srv, done) = (&srv, &done);
            jobs.push(Box::new(move || {
                let reqs: Vec<Sent13> = (0..per * 2).map(|j| gen13(&mut r, &format!("h2c{k}"), 50_000 + k * 1000 + j)).collect();
                let answers = h2::all(
                    srv.port,
                    reqs.iter()
                        .map(|s| {
                            let mut hd = vec![("x-t".to_string(), s.token.clone().into_bytes()), ("x-kind".to_string(), s.kind.as_bytes().to_vec())];
                            if let Some(c) = &s.cookie {
                                hd.push(("cookie".into(), c.clone().into_bytes()));
                            }
                            (s.method.into(), s.target.clone(), hd, s.body.clone())
                        })
                        .collect(),
                );
                for (s, a) in reqs.iter().zip(answers) {
                    match a {
                        Ok(resp) => check13(s, &resp)?,
                        Err(e) => return h2::lost2("a concurrent request", e, json!({"target": s.target, "method": s.method})),
                    }
                    done.fetch_add(1, Ordering::Relaxed);
                }
                Ok(())
            }));
        }
        together(jobs)?;
        let (order, over, most) = clock.summary();
        rep.evals += done.load(Ordering::Relaxed);
        if over > 0 {
            rep.distinct.push(order);
        }
        rep.count("answers", done.load(Ordering::Relaxed));
        rep.count("overlapping_requests", over);
        rep.count("interleavings", 1);
        rep.sample = Some(json!({"http1_clients": n1, "http2_clients": n2, "most_at_once": most, "overlapping": over}));
        Ok(())
    });
    cx.need("answers", 3000);
    cx.need("overlapping_requests", 500);
}

// ---------------------------------------------------------------- C14
/// A state whose clones are its requests' own.
#[derive(Clone)]
struct St {
    id: u64,
    text: String,
    own: Vec<u32>,
    shared: Arc<Shared>,
}
#[derive(Default)]
struct Shared {
    sum: AtomicU64,
    seen: Mutex<Vec<u64>>,
}
/// What one place of a request found.
#[derive(Debug, Clone, PartialEq)]
struct Found {
    at: u32,
    state: Option<(u64, String, Vec<u32>, usize)>,
}
type Finds = Arc<Mutex<HashMap<u64, Vec<Found>>>>;
fn look14(c: &mut Context, at: u32, finds: &Finds) {
    let rid: u64 = one_header(c, "x-rid").parse().unwrap_or(0);
    let f = Found {
        at,
        state: c.get::<St>().map(|s| (s.id, s.text.clone(), s.own.clone(), Arc::as_ptr(&s.shared) as usize)),
    };
    finds.lock().unwrap().entry(rid).or_default().push(f);
    if let Some(s) = c.get_mut::<St>() {
        // its own copy, and the shared part
        s.own.push(at);
        if rid % 3 == 0 {
            s.id = s.id.wrapping_add(1);
            s.text.push('!');
        }
        s.shared.sum.fetch_add(rid, Ordering::SeqCst);
        if at == 0 {
            s.shared.seen.lock().unwrap().push(rid);
        }
    }
}
struct StMw(u32, Finds);
#[async_trait]
impl Middleware for StMw {
    async fn handle<'a>(&'a self, mut c: Context, ex: EndpointExecutor<'a>) -> ContextResult {
        look14(&mut c, self.0, &self.1);
        pause(hash_of(&(self.0, one_header(&c, "x-rid")))).await;
        if one_header(&c, "x-stop") == self.0.to_string() {
            return Err(ObsidianError::GeneralError("stopped".into()));
        }
        ex.next(c).await
    }
}
/// A chain of places: middleware of the application, of paths and of nested routers, handler 0.
struct Plan14 {
    root: usize,
    path: usize,
    nested: usize,
    sets: usize,
    at_end: bool,
}
fn app14(p: &Plan14, finds: &Finds, shared: &Arc<Shared>) -> App<St> {
    let mut a: App<St> = App::new();
    let set = |a: &mut App<St>, k: usize| {
        a.set_app_state(St {
            id: 1000 * (k as u64 + 1),
            text: format!("state {k}"),
            own: vec![],
            // earlier states share something else
            shared: if k + 1 == p.sets { shared.clone() } else { Default::default() },
        })
    };
    let late = if p.at_end { 0 } else { p.sets / 2 + p.sets % 2 };
    for k in 0..late {
        set(&mut a, k);
    }
    let mut id = 0;
    let mut mw = || {
        id += 1;
        StMw(id, finds.clone())
    };
    for _ in 0..p.root {
        a.use_service(mw());
    }
    for _ in 0..p.path {
        a.use_service_to("/n", mw());
    }
    let mut r = Router::new();
    for _ in 0..p.nested {
        r.use_service(mw());
    }
    let f = finds.clone();
    let h = move |mut c: Context| {
        let f = f.clone();
        async move {
            look14(&mut c, 0, &f);
            pause(hash_of(&one_header(&c, "x-rid"))).await;
            match one_header(&c, "x-end").as_str() {
                "err" => Err(ObsidianError::NoneError),
                "panic" => panic!("{DELIBERATE} in a handler"),
                _ => c.build("ok").ok(),
            }
        }
    };
    r.get("/x/:id", h.clone());
    r.post("/x/:id", h.clone());
    a.get("/plain", h.clone());
    a.get("/wild/*", h);
    if p.path > 0 {
        // below a path with middleware of its own: mounting would be refused
        a.use_router("/n/r", r);
    } else {
        a.use_router("/n", r);
    }
    for k in late..p.sets {
        set(&mut a, k);
    }
    a
}
pub fn c14(cx: &Arc<Cx>) {
    cx.rule("applications with a state set 0-3 times before and after registrations, 0-6 middleware (application, path, nested router); concurrent requests over HTTP/1.1 and 2 on shared and own connections record and change the state they see at every place and add to its shared part; records, the last state set and the shared sum are compared; plus states of other types; an evaluation is one request; non-trivial: distinct (plan, route, place of stop) with a state");
    cx.plan(2);
    cx.cases("state", cx.n(500), 4, |rng, _, rep| {
        let p = Plan14 {
            root: rng.below(3),
            path: rng.below(3),
            nested: rng.below(3),
            sets: *rng.pick(&[0, 1, 1, 2, 3]),
            at_end: rng.chance(1, 3),
        };
        let finds: Finds = Default::default();
        let shared: Arc<Shared> = Default::default();
        let srv = Server::start(|| app14(&p, &finds, &shared))?;
        let clients = rng.range(1, 5);
        let per = rng.range(4, 20);
        let base = crate::spec::next_rid() * 10_000;
        let jobs_done: Mutex<Vec<(u64, u8, u32, bool)>> = Default::default();
        let mut jobs: Vec<Box<dyn FnOnce() -> Result<(), Violation> + Send + '_>> = vec![];
        for k in 0..clients {
            let mut r = rng.fork();
            let (srv, jobs_done, p) = (&srv, &jobs_done, &p);
            let total = (p.root + p.path + p.nested) as u32;
            jobs.push(Box::new(move || {
                let mut c = srv.connect();
                let mut h: Option<h2::H2> = None;
                for i in 0..per {
                    let rid = base + (k * 1000 + i) as u64 + 1;
                    let route = r.below(3) as u8;
                    let stop = if total > 0 && r.chance(1, 6) { r.range(1, total as usize) as u32 } else { 0 };
                    let end = match r.below(8) {
                        0 => "err",
                        1 if r.chance(1, 2) => "panic",
                        _ => "ok",
                    };
                    let path = match route {
                        0 => "/plain".to_string(),
                        1 => format!("/wild/{rid}"),
                        _ if p.path > 0 => format!("/n/r/x/{rid}"),
                        _ => format!("/n/x/{rid}"),
                    };
                    let (rs, ss) = (rid.to_string(), stop.to_string());
                    let d = json!({"path": path, "stop_at": stop, "end": end});
                    let panics;
                    if r.chance(1, 4) {
                        let rq = ("GET".to_string(), path, vec![("x-rid".into(), rs.into_bytes()), ("x-stop".into(), ss.into_bytes()), ("x-end".into(), end.as_bytes().to_vec())], vec![]);
                        let a = h2::crt().block_on(async {
                            if h.is_none() {
                                h = Some(h2::open(srv.port).await?);
                            }
                            h2::call(&mut h.as_mut().unwrap().tx, srv.port, &rq, None).await
                        });
                        panics = a.is_err();
                        if let Err(e) = a {
                            h = None;
                            if end != "panic" {
                                return h2::lost2("a request of an application with a state", e, d);
                            }
                        }
                    } else {
                        let a = c.roundtrip(&req("GET", &path, &[("x-rid", &rs), ("x-stop", &ss), ("x-end", end)], b""));
                        panics = a.is_err();
                        if let Err(e) = a {
                            c = srv.connect();
                            if end != "panic" {
                                return lost("a request of an application with a state", e, d);
                            }
                        }
                    }
                    let _ = panics;
                    jobs_done.lock().unwrap().push((rid, route, stop, true));
                }
                Ok(())
            }));
        }
        together(jobs)?;
        let last = p.sets;
        let mut sum = 0u64;
        let g = finds.lock().unwrap();
        for (rid, route, stop, _) in jobs_done.lock().unwrap().iter() {
            // places on the way, in order
            let mut places: Vec<u32> = (1..=p.root as u32).collect();
            if *route == 2 {
                places.extend(p.root as u32 + 1..=(p.root + p.path + p.nested) as u32);
            }
            let stopped = places.iter().position(|x| x == stop);
            if let Some(k) = stopped {
                places.truncate(k + 1);
            } else {
                places.push(0);
            }
            let mut own = vec![];
            let (mut id, mut text) = (1000 * last as u64, format!("state {}", last.wrapping_sub(1)));
            let mut want = vec![];
            for at in &places {
                want.push(Found {
                    at: *at,
                    state: (last > 0).then(|| (id, text.clone(), own.clone(), Arc::as_ptr(&shared) as usize)),
                });
                own.push(*at);
                if rid % 3 == 0 {
                    id += 1;
                    text.push('!');
                }
                if last > 0 {
                    sum += rid;
                }
            }
            let got = g.get(rid).cloned().unwrap_or_default();
            rep.eval(if last > 0 { Some(hash_of(&(p.root, p.path, p.nested, p.sets, p.at_end, route, stop, places.len(), rid % 3 == 0))) } else { None });
            rep.count("places_checked", places.len() as u64);
            if last == 0 {
                rep.count("places_without_state", places.len() as u64);
            }
            if got != want {
                return viol(
                    "a request did not find the configured state (or its own changes only)",
                    json!({"expected": format!("{want:?}"), "observed": format!("{got:?}"), "times_set": p.sets, "route": route, "middleware": [p.root, p.path, p.nested]}),
                );
            }
        }
        if shared.sum.load(Ordering::SeqCst) != sum {
            return viol("updates made through the shared state were lost or repeated", json!({"expected": sum, "observed": shared.sum.load(Ordering::SeqCst)}));
        }
        rep.count("shared_updates", if last > 0 { g.values().map(|v| v.len() as u64).sum() } else { 0 });
        rep.sample = Some(json!({"times_set": p.sets, "middleware": [p.root, p.path, p.nested], "clients": clients}));
        Ok(())
    });
    // other types of state
    cx.cases("types", cx.n(24), 4, |rng, i, rep| {
        fn app<T: Clone + Send + Sync + 'static + std::fmt::Debug>(v: Vec<T>) -> App<T> {
            let mut a: App<T> = App::default();
            for x in v {
                a.set_app_state(x);
            }
            a.get("/", |c: Context| async move {
                let s = format!("{:?}", c.get::<T>());
                c.build(s).ok()
            });
            a
        }
        let n = rng.range(1, 3);
        let (srv, want) = match i % 6 {
            0 => (Server::start(|| app::<String>((0..n).map(|k| format!("s{k}")).collect()))?, format!("{:?}", Some(format!("s{}", n - 1)))),
            1 => (Server::start(|| app::<()>(vec![(); n]))?, "Some(())".into()),
            2 => (Server::start(|| app::<u64>((0..n as u64).collect()))?, format!("{:?}", Some(n as u64 - 1))),
            3 => (Server::start(|| app::<Option<u8>>(vec![Some(1), None]))?, "Some(None)".into()),
            4 => (Server::start(|| app::<Arc<Mutex<Vec<u8>>>>(vec![Arc::new(Mutex::new(vec![7; n]))]))?, format!("{:?}", Some(Mutex::new(vec![7u8; n])))),
            _ => (Server::start(|| app::<Vec<String>>(vec![]))?, "None".into()),
        };
        let mut c = srv.connect();
        for _ in 0..5 {
            match c.roundtrip(&req("GET", "/", &[], b"")) {
                Ok(r) if r.text() == want => rep.eval(Some(hash_of(&want))),
                Ok(r) => return viol("a request did not find the configured state (or its own changes only)", json!({"expected": want, "observed": r.text()})),
                Err(e) => return lost("a request of an application with a state", e, json!(want)),
            }
        }
        Ok(())
    });
    cx.need("places_checked", 3000);
    cx.need("places_without_state", 200);
}

// ---------------------------------------------------------------- C17
async fn pause_for(tok: &str, place: u8) {
    if !tok.starts_with("quiet") {
        pause(hash_of(&(tok, place)) / 3).await
    }
}
/// token -> times handled (by middleware, by handler)
#[derive(Clone, Default)]
struct Tally(Arc<Mutex<HashMap<String, (u32, u32)>>>);
struct CountMw(Tally);
#[async_trait]
impl Middleware for CountMw {
    async fn handle<'a>(&'a self, c: Context, ex: EndpointExecutor<'a>) -> ContextResult {
        let t = one_header(&c, "x-t");
        self.0 .0.lock().unwrap().entry(t.clone()).or_default().0 += 1;
        pause_for(&t, 1).await;
        ex.next(c).await
    }
}
/// An error of any kind, and its text.
fn some_error(tok: &str, text: String) -> (ObsidianError, String) {
    let e = match hash_of(&(tok, "error")) % 5 {
        0 => ObsidianError::GeneralError(text),
        1 => ObsidianError::ParamError(text),
        2 => ObsidianError::FormError(obsidian::router::FormError::Message(text)),
        3 => ObsidianError::JsonError(serde_json::from_str::<u8>(&text.replace(|c: char| c.is_ascii_digit(), "x")).unwrap_err()),
        _ => ObsidianError::NoneError,
    };
    let t = e.to_string();
    (e, t)
}
fn app17(t: &Tally, clock: &Clock) -> App {
    let mut a: App = App::new();
    a.use_service(CountMw(t.clone()));
    let (t, clock) = (t.clone(), clock.clone());
    let h = move |mut c: Context| {
        let (t, clock) = (t.clone(), clock.clone());
        async move {
            let tok = one_header(&c, "x-t");
            t.0.lock().unwrap().entry(tok.clone()).or_default().1 += 1;
            let _f = InFlight::new(&clock, tok.rsplit('-').next().and_then(|x| x.parse().ok()).unwrap_or(0));
            pause_for(&tok, 2).await;
            let b = hyper::body::to_bytes(c.take_body()).await.map_err(|e| ObsidianError::GeneralError(e.to_string()))?;
            pause_for(&tok, 3).await;
            match one_header(&c, "x-kind").as_str() {
                "err" => Err(some_error(&tok, format!("{tok} {}", b.len())).0),
                "param" => c.param::<String>("undeclared").map(|_| unreachable!()),
                "none" => Ok(c),
                "stream" => {
                    let (mut tx, body) = Body::channel();
                    let s = format!("{tok} {}", b.len());
                    tokio::spawn(async move {
                        for p in s.as_bytes().chunks(5) {
                            if tx.send_data(p.to_vec().into()).await.is_err() {
                                return;
                            }
                            tokio::task::yield_now().await;
                        }
                    });
                    c.build(Response::ok().set_body(Own(body))).ok()
                }
                "big" => {
                    let s = format!("{tok} {}", b.len());
                    c.build(s.repeat(2000)).ok()
                }
                _ => c.build(format!("{tok} {}", b.len())).ok(),
            }
        }
    };
    a.get("/t/:k", h.clone());
    a.post("/t/:k", h.clone());
    a.delete("/d/*", h.clone());
    a.put("/deep/a/b/c", h);
    a.use_static_to("/st", "conc-files");
    a
}
#[derive(Clone, Debug)]
struct Sent17 {
    token: String,
    bytes: Vec<u8>,
    h2: h2::Req,
    handled: bool,
    want: (u16, Vec<u8>),
    file: bool,
}
fn gen17(rng: &mut Rng, who: &str, i: usize) -> Sent17 {
    let token = format!("{who}-{:x}-{i}", rng.next());
    let n = if rng.chance(1, 2) { 0 } else { rng.size(3000) };
    let body: Vec<u8> = token.bytes().cycle().take(n).collect();
    let kind = *rng.pick(&["plain", "plain", "plain", "err", "err", "param", "none", "stream", "big"]);
    let text = format!("{token} {n}");
    let (m, p, handled, want, file) = match rng.below(12) {
        0 => ("GET", format!("/none/{token}"), false, (404, b"404 Not Found".to_vec()), false),
        1 => ("PATCH", format!("/t/{token}"), false, (404, b"404 Not Found".to_vec()), false),
        2 => {
            let f = rng.below(16);
            ("GET", format!("/st/f{f}.txt"), false, (200, file13(f)), true)
        }
        k => {
            let (m, p) = match k % 4 {
                0 => ("GET", format!("/t/{token}")),
                1 => ("POST", format!("/t/{token}")),
                2 => ("DELETE", format!("/d/x/{token}")),
                _ => ("PUT", "/deep/a/b/c".to_string()),
            };
            let w = match kind {
                "err" => (500, some_error(&token, text.clone()).1.into_bytes()),
                "param" => (500, ObsidianError::NoneError.to_string().into_bytes()),
                "none" => (200, vec![]),
                "big" => (200, text.repeat(2000).into_bytes()),
                _ => (200, text.clone().into_bytes()),
            };
            (m, p, true, w, false)
        }
    };
    let body = if handled { body } else { vec![] };
    let mut bytes = format!("{m} {p} HTTP/1.1\r\nhost: t\r\nx-t: {token}\r\nx-kind: {kind}\r\n{}", everyday_lines(hash_of(&token), &[])).into_bytes();
    if !body.is_empty() && rng.chance(1, 2) {
        bytes.extend_from_slice(b"transfer-encoding: chunked\r\n\r\n");
        let cs: Vec<usize> = (0..rng.below(4)).map(|_| rng.range(1, body.len())).collect();
        bytes.extend_from_slice(&chunked(&body, &cs));
    } else {
        bytes.extend_from_slice(format!("content-length: {}\r\n\r\n", body.len()).as_bytes());
        bytes.extend_from_slice(&body);
    }
    let h2 = (m.to_string(), p, vec![("x-t".into(), token.clone().into_bytes()), ("x-kind".into(), kind.as_bytes().to_vec())], body);
    Sent17 { token, bytes, h2, handled, want, file }
}
/// The nth token for which the handlers of `app17` wait nowhere.
fn quiet(k: u64, n: u64) -> String {
    format!("quiet{k}-{n}")
}
pub fn c17(cx: &Arc<Cx>) {
    cx.rule("2-7 clients at once: pipelines of 1-60 requests cut into random network segments with pauses, HTTP/2 streams, and clients that vanish (FIN or RST) in the middle of a request, a body or an answer; a log of every run of middleware and handler by token and the answers read are checked: exactly one run and one answer in order for complete requests, at most one for abandoned ones, none for what was never completely sent; beside that, requests that take up to 31 s (thorough: 122 s) in every such place; an evaluation is one request; non-trivial: distinct orders of starts and ends per case");
    files13();
    cx.plan(3);
    let slow = crate::p_slow::start(cx, &[Slow::Handler, Slow::Before, Slow::After, Slow::Head, Slow::Body, Slow::Error], false);
    cx.cases("log", cx.n(400), 4, |rng, _, rep| {
        let tally = Tally::default();
        let clock = Clock::default();
        let srv = Server::start(|| app17(&tally, &clock))?;
        // (token, at least, at most)
        let bounds: Mutex<Vec<(String, u32, u32, &'static str)>> = Default::default();
        let counts = [AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0)];
        // the very same request from several clients, several times: each of them counts
        let twin = gen17(rng, "twin", 0);
        let twins = AtomicUsize::new(0);
        let mut jobs: Vec<Box<dyn FnOnce() -> Result<(), Violation> + Send + '_>> = vec![];
        for k in 0..rng.range(2, 7) {
            let mut r = rng.fork();
            let (srv, bounds, counts, twin, twins) = (&srv, &bounds, &counts, &twin, &twins);
            let kind = r.below(5);
            jobs.push(Box::new(move || {
                let n = *r.pick(&[1usize, 3, 10, 25, 60]);
                let same = *r.pick(&[0, 0, 1, 9]);
                let reqs: Vec<Sent17> = (0..n)
                    .map(|i| match r.below(10) < same {
                        true => {
                            twins.fetch_add(1, Ordering::Relaxed);
                            twin.clone()
                        }
                        false => gen17(&mut r, &format!("c{k}"), k * 1000 + i),
                    })
                    .collect();
                match kind {
                    // complete pipelines
                    0 | 1 => {
                        let mut c = srv.connect();
                        let all: Vec<u8> = reqs.iter().flat_map(|q| q.bytes.clone()).collect();
                        let mut cuts: Vec<usize> = (0..r.size(40)).map(|_| r.below(all.len() + 1)).collect();
                        cuts.push(0);
                        cuts.push(all.len());
                        cuts.sort();
                        let mut w = c.s.try_clone().unwrap();
                        let slow = r.chance(1, 3);
                        let mut r2 = r.fork();
                        let sender = std::thread::spawn(move || {
                            use std::io::Write;
                            for p in cuts.windows(2) {
                                if w.write_all(&all[p[0]..p[1]]).is_err() {
                                    return;
                                }
                                if slow && r2.chance(1, 2) {
                                    std::thread::sleep(Duration::from_micros(r2.below(1200) as u64));
                                }
                            }
                        });
                        for (i, q) in reqs.iter().enumerate() {
                            let d = json!({"request": i, "of": n, "target": q.h2.1, "method": q.h2.0});
                            match c.read_response(false) {
                                Ok(a) if (a.status, &a.body) == (q.want.0, &q.want.1) => {}
                                Ok(a) => {
                                    return viol(
                                        "answers on one connection do not follow the requests",
                                        json!({"case": d, "status": a.status, "body": show(&a.body[..a.body.len().min(200)]), "expected": [json!(q.want.0), json!(show(&q.want.1[..q.want.1.len().min(200)]))]}),
                                    )
                                }
                                Err(e) => return lost("a pipelined request", e, d),
                            }
                        }
                        let _ = sender.join();
                        // nothing more comes
                        c.shutdown_write();
                        match c.drain() {
                            Ok(x) if x.is_empty() => {}
                            Ok(x) => return viol("an answer nobody asked for", json!({"bytes": show(&x[..x.len().min(300)])})),
                            Err(_) => {}
                        }
                        counts[0].fetch_add(n, Ordering::Relaxed);
                        let mut b = bounds.lock().unwrap();
                        for q in &reqs {
                            let x = q.handled as u32;
                            b.push((q.token.clone(), x, x, "complete (HTTP/1.1)"));
                        }
                    }
                    // concurrent streams
                    2 => {
                        let answers = h2::all(srv.port, reqs.iter().map(|q| q.h2.clone()).collect());
                        for (q, a) in reqs.iter().zip(answers) {
                            let d = json!({"target": q.h2.1, "method": q.h2.0});
                            match a {
                                Ok(a) if (a.status, &a.body) == (q.want.0, &q.want.1) => {}
                                Ok(a) => return viol("a stream got another answer", json!({"case": d, "status": a.status, "body": show(&a.body[..a.body.len().min(200)])})),
                                Err(e) => return h2::lost2("a stream", e, d),
                            }
                        }
                        counts[1].fetch_add(n, Ordering::Relaxed);
                        let mut b = bounds.lock().unwrap();
                        for q in &reqs {
                            let x = q.handled as u32;
                            b.push((q.token.clone(), x, x, "complete (HTTP/2)"));
                        }
                    }
                    // vanish: after some whole requests, within a head or within a body
                    _ => {
                        let mut c = srv.connect();
                        let whole = r.below(n + 1);
                        let mut bytes: Vec<u8> = reqs[..whole].iter().flat_map(|q| q.bytes.clone()).collect();
                        let mut b = vec![];
                        for q in &reqs[..whole] {
                            b.push((q.token.clone(), 0, q.handled as u32, "abandoned"));
                        }
                        if whole < n {
                            let q = &reqs[whole];
                            let head = find(&q.bytes, b"\r\n\r\n").unwrap() + 4;
                            let cut = r.below(q.bytes.len());
                            bytes.extend_from_slice(&q.bytes[..cut]);
                            b.push((q.token.clone(), 0, if cut >= head { q.handled as u32 } else { 0 }, if cut >= head { "cut in its body" } else { "cut in its head" }));
                            for q in &reqs[whole + 1..] {
                                b.push((q.token.clone(), 0, 0, "never sent"));
                            }
                        }
                        // how many answers are read before leaving
                        let read = if r.chance(1, 2) { 0 } else { r.below(whole + 1) };
                        let _ = c.send(&bytes);
                        for q in &reqs[..read] {
                            match c.read_response(false) {
                                Ok(a) if (a.status, &a.body) == (q.want.0, &q.want.1) => {}
                                Ok(a) => return viol("answers on one connection do not follow the requests", json!({"status": a.status, "body": show(&a.body[..a.body.len().min(200)]), "target": q.h2.1})),
                                Err(e) => return lost("a pipelined request", e, json!({"target": q.h2.1})),
                            }
                        }
                        for x in b.iter_mut().take(read) {
                            // answered: handled exactly once
                            x.1 = x.2;
                        }
                        if r.chance(1, 2) {
                            std::thread::sleep(Duration::from_micros(r.below(2500) as u64));
                        }
                        counts[2].fetch_add(b.len(), Ordering::Relaxed);
                        bounds.lock().unwrap().extend(b);
                        if r.chance(1, 2) {
                            c.abort();
                        }
                    }
                }
                Ok(())
            }));
        }
        together(jobs)?;
        // let abandoned work end, then judge the log
        let t = Instant::now();
        let mut c = srv.connect();
        while clock.0.lock().unwrap().1 > 0 && t.elapsed() < Duration::from_secs(20) {
            std::thread::sleep(Duration::from_millis(1));
        }
        std::thread::sleep(Duration::from_millis(2));
        let _ = c.roundtrip(&req("GET", "/nothing", &[], b""));
        let g = tally.0.lock().unwrap().clone();
        let mut known: HashMap<&str, ()> = HashMap::new();
        // token -> (at least, at most, sent, completely sent, how)
        let mut sums: BTreeMap<String, (u32, u32, u32, u32, &'static str)> = Default::default();
        for (t, lo, hi, how) in bounds.lock().unwrap().iter() {
            let e = sums.entry(t.clone()).or_insert((0, 0, 0, 0, how));
            e.0 += lo;
            e.1 += hi;
            e.2 += 1;
            e.3 += (*how != "cut in its head" && *how != "never sent") as u32;
        }
        for (t, (lo, hi, sent, whole, how)) in &sums {
            let n = g.get(t).copied().unwrap_or((0, 0));
            rep.evals += *sent as u64;
            if n.1 < *lo || n.1 > *hi {
                return viol("a request was not handled the right number of times", json!({"how": how, "sent": sent, "handled": n.1, "at_least": lo, "at_most": hi}));
            }
            let file = n.1 == 0 && n.0 > 0;
            if n.0 < n.1 || n.0 > *whole || (*hi == 0 && n.0 > 0 && !file) {
                return viol("a request's middleware did not run once", json!({"how": how, "sent": sent, "middleware": n.0, "handler": n.1}));
            }
            if *whole == 0 {
                rep.count("never_complete", 1);
                if n.0 + n.1 > 0 {
                    return viol("something was handled that no client sent", json!({"how": how}));
                }
            }
        }
        rep.count("identical_requests", twins.load(Ordering::Relaxed) as u64);
        let b = bounds.lock().unwrap();
        for (t, ..) in b.iter() {
            known.insert(t, ());
        }
        for t in g.keys() {
            if !known.contains_key(t.as_str()) && !t.is_empty() {
                return viol("something was handled that no client sent", json!({"token": t}));
            }
        }
        let (order, over, most) = clock.summary();
        if over > 0 {
            rep.distinct.push(order);
        }
        rep.count("pipelined", counts[0].load(Ordering::Relaxed) as u64);
        rep.count("streams", counts[1].load(Ordering::Relaxed) as u64);
        rep.count("abandoned", counts[2].load(Ordering::Relaxed) as u64);
        rep.count("overlapping_requests", over);
        rep.count("handler_runs", g.values().map(|x| x.1 as u64).sum());
        rep.sample = Some(json!({"requests": b.len(), "most_at_once": most}));
        Ok(())
    });
    // one server, connections that live long: more requests than 16 bits count
    let per = if cx.thorough { 300_000u64 } else { 70_000 };
    let per = if cx.budget() < Duration::from_secs(60) { 5_000 } else { per };
    cx.cases("long", 1, 1, |rng, _, rep| {
        let tally = Tally::default();
        let clock = Clock::default();
        let srv = Server::start(|| app17(&tally, &clock))?;
        let mut jobs: Vec<Box<dyn FnOnce() -> Result<(), Violation> + Send + '_>> = vec![];
        for k in 0..2 {
            let srv = &srv;
            jobs.push(Box::new(move || {
                let mut c = srv.connect();
                let mut w = c.s.try_clone().unwrap();
                let sender = std::thread::spawn(move || {
                    use std::io::Write;
                    let mut b = vec![];
                    for i in 0..per {
                        // every fourth is refused, every fourth has a body
                        let t = quiet(k, i);
                        match i % 4 {
                            0 => b.extend_from_slice(format!("GET /none/{t} HTTP/1.1\r\nhost: t\r\n\r\n").as_bytes()),
                            1 => b.extend_from_slice(format!("POST /t/x HTTP/1.1\r\nhost: t\r\nx-t: {t}\r\ncontent-length: 3\r\n\r\nabc").as_bytes()),
                            _ => b.extend_from_slice(format!("GET /t/x HTTP/1.1\r\nhost: t\r\nx-t: {t}\r\n\r\n").as_bytes()),
                        }
                        if b.len() > 30_000 || i + 1 == per {
                            if w.write_all(&b).is_err() {
                                return;
                            }
                            b.clear();
                        }
                    }
                });
                for i in 0..per {
                    let t = quiet(k, i);
                    let want = match i % 4 {
                        0 => (404, "404 Not Found".to_string()),
                        1 => (200, format!("{t} 3")),
                        _ => (200, format!("{t} 0")),
                    };
                    match c.read_response(false) {
                        Ok(a) if (a.status, a.text()) == want => {}
                        Ok(a) => return viol("answers on one connection do not follow the requests", json!({"request": i, "status": a.status, "body": show(&a.body[..a.body.len().min(200)]), "expected": want.1})),
                        Err(e) => return lost("a request on a long-lived connection", e, json!({"request": i})),
                    }
                }
                let _ = sender.join();
                Ok(())
            }));
        }
        // the same over HTTP/2, and over connections of their own
        let n2 = per / 4;
        {
            let port = srv.port;
            jobs.push(Box::new(move || {
                h2::crt().block_on(async {
                    let mut h = h2::open(port).await?;
                    let mut i = 0;
                    while i < n2 {
                        let mut ps = vec![];
                        for j in i..(i + 64).min(n2) {
                            let q: h2::Req = ("GET".into(), "/t/x".into(), vec![("x-t".into(), quiet(7, j).into_bytes())], vec![]);
                            ps.push(h2::start(&mut h.tx, port, &q, None).await?);
                        }
                        for p in ps {
                            let a = h2::wait(p).await?;
                            if (a.status, a.text()) != (200, format!("{} 0", quiet(7, i))) {
                                return Err(format!("stream {i}: {} {}", a.status, a.text()));
                            }
                            i += 1;
                        }
                    }
                    Ok(())
                })
                .or_else(|e: String| viol("a stream of a long-lived connection got another answer", json!({"client_saw": e})))
            }));
        }
        {
            let srv = &srv;
            jobs.push(Box::new(move || {
                for i in 0..n2 {
                    let t = quiet(9, i);
                    match srv.connect().roundtrip(&req("GET", "/t/x", &[("x-t", &t)], b"")) {
                        Ok(a) if (a.status, a.text()) == (200, format!("{t} 0")) => {}
                        Ok(a) => return viol("a connection's only request got another answer", json!({"connection": i, "status": a.status, "body": a.text()})),
                        Err(e) => return lost("a request on a new connection", e, json!({"connection": i})),
                    }
                }
                Ok(())
            }));
        }
        together(jobs)?;
        let g = tally.0.lock().unwrap();
        let all = (0..2).flat_map(|k| (0..per).filter(|i| i % 4 != 0).map(move |i| quiet(k, i))).chain((0..n2).flat_map(|i| [quiet(7, i), quiet(9, i)]));
        let mut n = 0;
        for t in all {
            n += 1;
            let x = g.get(&t).copied().unwrap_or_default();
            if x != (1, 1) {
                return viol("a request was not handled the right number of times", json!({"how": "long-lived connection", "request": t, "middleware": x.0, "handler": x.1}));
            }
        }
        if g.len() as u64 != n {
            return viol("something was handled that no client sent", json!({"handled": g.len(), "sent": n}));
        }
        rep.evals += 2 * per + 2 * n2;
        rep.distinct.push(rng.next());
        rep.count("requests_to_one_server", 2 * per + 2 * n2);
        Ok(())
    });
    cx.need("requests_to_one_server", 5000);
    slow.finish(cx);
    cx.need("pipelined", 1000);
    cx.need("streams", 500);
    cx.need("abandoned", 500);
    cx.need("never_complete", 100);
    cx.need("identical_requests", 300);
}

// ---------------------------------------------------------------- C19
/// Modes of failing, wherever the mode is asked for.
const MODES: [&str; 6] = ["err", "panic", "never", "panic-late", "err-late", "body-err"];
async fn misbehave(mode: &str) -> Result<(), ObsidianError> {
    match mode {
        "err" => Err(ObsidianError::GeneralError("failed".into())),
        "err-late" => {
            tokio::time::sleep(Duration::from_millis(1)).await;
            Err(ObsidianError::ParamError("failed late".into()))
        }
        "panic" => panic!("{DELIBERATE}"),
        "panic-late" => {
            tokio::time::sleep(Duration::from_millis(1)).await;
            panic!("{DELIBERATE} late")
        }
        "never" => std::future::pending().await,
        _ => Ok(()),
    }
}
struct FailMw(&'static str, Arc<AtomicUsize>);
#[async_trait]
impl Middleware for FailMw {
    async fn handle<'a>(&'a self, c: Context, ex: EndpointExecutor<'a>) -> ContextResult {
        let m = one_header(&c, self.0);
        self.1.fetch_add(1, Ordering::Relaxed);
        if let Some(m) = m.strip_prefix("before:") {
            misbehave(m).await?;
        }
        let r = ex.next(c).await;
        if let Some(m) = m.strip_prefix("after:") {
            misbehave(m).await?;
        }
        r
    }
}
struct BadBody(u8);
impl hyper::body::HttpBody for BadBody {
    type Data = hyper::body::Bytes;
    type Error = std::io::Error;
    fn poll_data(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<Option<Result<Self::Data, Self::Error>>> {
        self.0 += 1;
        std::task::Poll::Ready(match self.0 {
            1 => Some(Ok("part".into())),
            _ => Some(Err(std::io::Error::new(std::io::ErrorKind::Other, "broken"))),
        })
    }
    fn poll_trailers(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<Result<Option<hyper::HeaderMap>, Self::Error>> {
        std::task::Poll::Ready(Ok(None))
    }
}
fn app19(n: &Arc<AtomicUsize>) -> App<Arc<AtomicU64>> {
    let mut a: App<Arc<AtomicU64>> = App::new();
    a.set_app_state(Default::default());
    a.use_service(FailMw("x-app", n.clone()));
    a.use_service_to("/same", FailMw("x-path", n.clone()));
    async fn h(mut c: Context) -> ContextResult {
        let t: String = c.param("t")?;
        let b = hyper::body::to_bytes(c.take_body()).await.map_err(|e| ObsidianError::GeneralError(e.to_string()))?;
        let m = one_header(&c, "x-handler");
        misbehave(&m).await?;
        if m == "body-err" {
            let mut b = BadBody(0);
            let s = futures_poll(move |_| {
                use hyper::body::HttpBody;
                std::pin::Pin::new(&mut b).poll_data(&mut std::task::Context::from_waker(&noop()))
            });
            return c.build(Response::ok().set_body(Own(Body::wrap_stream(s)))).ok();
        }
        if let Some(s) = c.get::<Arc<AtomicU64>>() {
            s.fetch_add(1, Ordering::SeqCst);
        }
        c.build(format!("fine {t} {}", b.len())).ok()
    }
    for p in ["/same/:t", "/else/:t"] {
        a.get(p, h);
        a.post(p, h);
    }
    let mut r = Router::new();
    r.use_service(FailMw("x-nested", n.clone()));
    r.get("/n/:t", h);
    a.use_router("/nest", r);
    a.use_static_to("/st", "conc-files");
    a
}
fn noop() -> std::task::Waker {
    struct N;
    impl std::task::Wake for N {
        fn wake(self: Arc<Self>) {}
    }
    Arc::new(N).into()
}
struct PollFn<F>(F);
fn futures_poll<F: FnMut(()) -> std::task::Poll<Option<Result<hyper::body::Bytes, std::io::Error>>> + Unpin>(f: F) -> PollFn<F> {
    PollFn(f)
}
impl<F: FnMut(()) -> std::task::Poll<Option<Result<hyper::body::Bytes, std::io::Error>>> + Unpin> futures_core::Stream for PollFn<F> {
    type Item = Result<hyper::body::Bytes, std::io::Error>;
    fn poll_next(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<Option<Self::Item>> {
        (self.0)(())
    }
}
/// A request that is fine, and its answer.
fn fine(r: &mut Rng, t: &str) -> (h2::Req, (u16, Vec<u8>)) {
    let n = if r.chance(1, 3) { r.size(4000) } else { 0 };
    let f = r.below(16);
    match r.below(7) {
        0 | 1 => (("POST".into(), format!("/same/{t}"), vec![], vec![b'b'; n]), (200, format!("fine {t} {n}").into_bytes())),
        2 | 3 => (("GET".into(), format!("/same/{t}"), vec![], vec![]), (200, format!("fine {t} 0").into_bytes())),
        4 => (("GET".into(), format!("/nest/n/{t}"), vec![], vec![]), (200, format!("fine {t} 0").into_bytes())),
        5 => (("GET".into(), format!("/st/f{f}.txt"), vec![], vec![]), (200, file13(f))),
        _ => (("GET".into(), format!("/nowhere/{t}"), vec![], vec![]), (404, b"404 Not Found".to_vec())),
    }
}
fn as_h1(q: &h2::Req) -> Vec<u8> {
    let h: Vec<(&str, &str)> = q.2.iter().map(|h| (h.0.as_str(), std::str::from_utf8(&h.1).unwrap())).collect();
    req(&q.0, &q.1, &h, &q.3)
}
fn check_fine(what: &str, q: &h2::Req, w: &(u16, Vec<u8>), a: Result<Resp, Ce>) -> Result<(), Violation> {
    match a {
        Ok(a) if (a.status, &a.body) == (w.0, &w.1) => Ok(()),
        Ok(a) => viol(format!("{what}: another answer"), json!({"target": q.1, "method": q.0, "status": a.status, "body": show(&a.body[..a.body.len().min(200)])})),
        Err(e) => lost(what, e, json!({"target": q.1, "method": q.0})),
    }
}
pub fn c19(cx: &Arc<Cx>) {
    cx.rule("errors, panics, never-ending futures and breaking bodies injected in handlers and in middleware of the application, a path and a nested router (before and after the rest of the chain), 1-300 of them, while 3 clients make ordinary requests to the same and other routes; every ordinary answer is checked during and after, and the connection of each request that failed by an error return is used again; an evaluation is one ordinary request; non-trivial: made while or after failures of a distinct mix");
    files13();
    cx.plan(1);
    cx.cases("mix", cx.n(450), 4, |rng, i, rep| {
        let n = Arc::new(AtomicUsize::new(0));
        let srv = Server::start(|| app19(&n))?;
        // a few times more failures than any plausible limit on requests in progress
        let many = i % 450 < 60 && i % 10 == 5 && fd_limit() >= 16_000;
        let total = match i % 8 {
            _ if many => rng.range(1100, 2600),
            0 => rng.range(100, 300),
            1 => 1,
            _ => rng.range(2, 40),
        };
        let only: Option<&str> = if many { Some(MODES[(i / 10) as usize % MODES.len()]) } else { rng.chance(1, 2).then(|| *rng.pick(&MODES)) };
        let stop = AtomicUsize::new(0);
        let counts = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];
        let mix = rng.next();
        // failing requests
        let held: Mutex<Vec<Conn>> = Default::default();
        let mut jobs: Vec<Box<dyn FnOnce() -> Result<(), Violation> + Send + '_>> = vec![];
        for k in 0..2 {
            let mut r = rng.fork();
            let (srv, held, counts, stop) = (&srv, &held, &counts, &stop);
            jobs.push(Box::new(move || {
                let mut go = || -> Result<(), Violation> {
                    let mut c: Option<Conn> = None;
                    for j in 0..(total + 1) / 2 {
                        let mode = only.unwrap_or_else(|| *r.pick(&MODES));
                        let route = *r.pick(&["/same/x", "/same/x", "/else/x", "/nest/n/x"]);
                        let at = match route {
                            "/same/x" => *r.pick(&["x-app", "x-path", "x-handler"]),
                            "/else/x" => *r.pick(&["x-app", "x-handler"]),
                            _ => *r.pick(&["x-app", "x-nested", "x-handler"]),
                        };
                        let val = if at == "x-handler" || mode == "body-err" {
                            mode.to_string()
                        } else {
                            format!("{}{mode}", *r.pick(&["before:", "after:"]))
                        };
                        let at = if mode == "body-err" { "x-handler" } else { at };
                        let bytes = req("GET", route, &[(at, &val)], b"");
                        counts[0].fetch_add(1, Ordering::Relaxed);
                        let mut conn = match c.take() {
                            Some(c) => c,
                            None => srv.connect(),
                        };
                        if let Err(e) = conn.send(&bytes) {
                            return lost("a request after a failed one", e, json!({"mode": mode}));
                        }
                        match mode {
                            "err" | "err-late" => {
                                let d = json!({"mode": mode, "at": at, "nth": j});
                                match conn.read_response(false) {
                                    Ok(a) if a.status == 500 && a.text().starts_with("failed") => {}
                                    Ok(a) => return viol("a failing request is not answered with its error", json!({"status": a.status, "body": show(&a.body), "case": d})),
                                    Err(e) => return lost("a failing request", e, d),
                                }
                                let (q, w) = fine(&mut r, &format!("again{k}x{j}"));
                                check_fine("the connection of a request that failed", &q, &w, conn.roundtrip(&as_h1(&q)))?;
                                counts[1].fetch_add(1, Ordering::Relaxed);
                                c = Some(conn);
                            }
                            "never" => held.lock().unwrap().push(conn),
                            _ => {
                                if r.chance(1, 2) {
                                    let _ = conn.read_response(false);
                                } else {
                                    held.lock().unwrap().push(conn);
                                }
                            }
                        }
                    }
                    Ok(())
                };
                let r = go();
                stop.fetch_add(1, Ordering::SeqCst);
                r
            }));
        }
        // failures over HTTP/2 as well, on a connection of their own
        let mut h2r = rng.fork();
        let port = srv.port;
        let h2fail = h2::crt().spawn(async move {
            let Ok(mut h) = h2::open(port).await else { return };
            let mut hs = vec![];
            for _ in 0..total.min(30) {
                let mode = only.unwrap_or_else(|| *h2r.pick(&MODES));
                let rq: h2::Req = ("GET".into(), "/same/y".into(), vec![("x-handler".into(), mode.as_bytes().to_vec())], vec![]);
                hs.push(h2::start(&mut h.tx, port, &rq, None).await);
            }
            // held until this task is aborted
            std::future::pending::<()>().await
        });
        for k in 0..3 {
            let mut r = rng.fork();
            let (srv, counts, stop) = (&srv, &counts, &stop);
            jobs.push(Box::new(move || {
                let mut c = srv.connect();
                let mut h: Option<h2::H2> = None;
                let mut j = 0;
                while stop.load(Ordering::SeqCst) < 2 || j < 12 {
                    j += 1;
                    let (q, w) = fine(&mut r, &format!("f{k}x{j}"));
                    if k == 2 {
                        let a = h2::crt().block_on(async {
                            if h.is_none() {
                                h = Some(h2::open(srv.port).await?);
                            }
                            h2::call(&mut h.as_mut().unwrap().tx, srv.port, &q, None).await
                        });
                        check_fine("an ordinary request beside failing ones (HTTP/2)", &q, &w, a.map_err(Ce::Io))?;
                    } else {
                        check_fine("an ordinary request beside failing ones", &q, &w, c.roundtrip(&as_h1(&q)))?;
                        if r.chance(1, 5) {
                            c = srv.connect();
                        }
                    }
                    counts[2].fetch_add(1, Ordering::Relaxed);
                    if j > 4000 {
                        break;
                    }
                }
                Ok(())
            }));
        }
        let res = together(jobs);
        let waiting = held.lock().unwrap().len();
        // afterwards, with the never-ending ones still there
        let res = res.and_then(|_| {
            let mut r = rng.fork();
            for j in 0..10 {
                let mut c = srv.connect();
                let (q, w) = fine(&mut r, &format!("later{j}"));
                check_fine("an ordinary request after failed ones", &q, &w, c.roundtrip(&as_h1(&q)))?;
                counts[2].fetch_add(1, Ordering::Relaxed);
            }
            if !srv.is_running() {
                return viol("the server ended", json!({}));
            }
            Ok(())
        });
        h2fail.abort();
        res?;
        let f = counts[2].load(Ordering::Relaxed);
        rep.evals += f;
        rep.distinct.push(hash_of(&(mix, total, only)));
        rep.count("failures_injected", counts[0].load(Ordering::Relaxed));
        rep.count("ordinary_answers", f);
        rep.count("connections_used_again", counts[1].load(Ordering::Relaxed));
        rep.count("held_open", waiting as u64);
        rep.sample = Some(json!({"failures": total, "only": only, "ordinary": f, "held": waiting}));
        Ok(())
    });
    cx.need("failures_injected", 1000);
    cx.need("ordinary_answers", 2000);
    cx.need("connections_used_again", 200);
}

// ---------------------------------------------------------------- C24
/// Requests wait here until the case lets them go.
#[derive(Clone)]
struct Gates(Arc<tokio::sync::Semaphore>, Arc<AtomicUsize>);
impl Gates {
    async fn wait(&self) {
        self.1.fetch_add(1, Ordering::SeqCst);
        let p = self.0.acquire().await;
        drop(p);
    }
}
struct GateMw(&'static str, Gates);
#[async_trait]
impl Middleware for GateMw {
    async fn handle<'a>(&'a self, c: Context, ex: EndpointExecutor<'a>) -> ContextResult {
        let m = one_header(&c, "x-wait");
        if m == format!("{}-before", self.0) {
            self.1.wait().await;
        }
        let r = ex.next(c).await;
        if m == format!("{}-after", self.0) {
            self.1.wait().await;
        }
        r
    }
}
fn app24(g: &Gates) -> App<u8> {
    let mut a: App<u8> = App::new();
    a.set_app_state(3);
    a.use_service(GateMw("app", g.clone()));
    a.use_service_to("/r", GateMw("path", g.clone()));
    let g2 = g.clone();
    let h = move |mut c: Context| {
        let g = g2.clone();
        async move {
            let m = one_header(&c, "x-wait");
            if m == "handler" {
                g.wait().await;
            }
            let t: String = c.param("t").unwrap_or_default();
            let b = match one_header(&c, "x-read").as_str() {
                "json" => c.json::<Value>().await?.to_string().len(),
                "form" => c.form::<HashMap<String, String>>().await?.len(),
                _ => hyper::body::to_bytes(c.take_body()).await.map_err(|e| ObsidianError::GeneralError(e.to_string()))?.len(),
            };
            c.build(format!("done {t} {b}")).ok()
        }
    };
    a.get("/r/:t", h.clone());
    a.post("/r/:t", h.clone());
    a.get("/other/:t", h.clone());
    a.post("/other/:t", h.clone());
    let mut n = Router::new();
    n.use_service(GateMw("nested", g.clone()));
    n.get("/:t", h.clone());
    n.post("/:t", h);
    a.use_router("/nest", n);
    a.use_static_to("/st", "conc-files");
    a.use_static_to("/slow", "conc-slow");
    a
}
pub fn c24(cx: &Arc<Cx>) {
    cx.rule("1-400 requests made to wait in handlers, middleware (application, path, nested router; before and after the chain), for the rest of a body they read as JSON, form or bytes, within an incomplete head, or in a file that does not answer (a pipe), over HTTP/1.1 and 2; while all of them wait, requests on other connections to the same and other routes and static files must complete; then the waiting ones are released and must complete too; an evaluation is one request answered while others waited; non-trivial: distinct mixes of waiters");
    files13();
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        std::fs::create_dir_all(format!("{}/conc-slow", scratch())).unwrap();
    });
    cx.plan(1);
    let cx2 = cx.clone();
    cx.cases("gates", cx.n(280), 4, |rng, i, rep| {
        let g = Gates(Arc::new(tokio::sync::Semaphore::new(0)), Default::default());
        let srv = Server::start(|| app24(&g))?;
        // a few times more of them than any plausible limit on requests in progress
        let many = i % 280 < 40 && i % 8 == 3 && fd_limit() >= 16_000;
        let total = match i % 6 {
            _ if many => if cx2.thorough { rng.range(1100, 2000) } else { rng.range(1100, 1500) },
            0 => rng.range(100, 400),
            1 => 1,
            _ => rng.range(2, 30),
        };
        let only: Option<usize> = if many { Some(*rng.pick(&[0, 1, 2, 5, 6])) } else { rng.chance(1, 2).then(|| rng.below(8)) };
        // how each waiter can be let go: bytes still to send, and what it must answer
        let mut waiters: Vec<(Conn, Vec<u8>, (u16, String), &'static str)> = vec![];
        let mut h2w: Vec<h2::Pending> = vec![];
        let mut h2c: Option<h2::H2> = None;
        let mut h2old: Vec<h2::H2> = vec![];
        let mut gated = 0;
        let mut kinds = std::collections::BTreeSet::new();
        // pipes: more of them than the server has threads
        let pipes = if only == Some(7) || (only.is_none() && rng.chance(1, 4)) { rng.range(WORKERS + 1, WORKERS * 3) } else { 0 };
        let mut fifo: Vec<(Conn, String, String)> = vec![];
        for k in 0..pipes {
            let name = format!("p{}-{k}", crate::spec::next_rid());
            let path = format!("{}/conc-slow/{name}", scratch());
            let cp = std::ffi::CString::new(path.clone()).unwrap();
            assert_eq!(unsafe { libc::mkfifo(cp.as_ptr(), 0o600) }, 0, "pipe");
            let mut c = srv.connect();
            if let Err(e) = c.send(&req("GET", &format!("/slow/{name}"), &[], b"")) {
                return lost("a waiting request", e, json!("pipe"));
            }
            kinds.insert("file");
            fifo.push((c, path, name));
        }
        for k in 0..if only == Some(7) { 0 } else { total } {
            let kind = only.unwrap_or_else(|| rng.below(7));
            let t = format!("w{k}");
            let route = *rng.pick(&["/r/", "/r/", "/other/", "/nest/"]);
            let path = format!("{route}{t}");
            let mut c = srv.connect();
            match kind {
                0 | 1 | 6 => {
                    let w = match (kind, route) {
                        (0, _) => "handler".to_string(),
                        (_, "/r/") => format!("{}-{}", *rng.pick(&["app", "path"]), *rng.pick(&["before", "after"])),
                        (_, "/nest/") => format!("{}-{}", *rng.pick(&["app", "nested"]), *rng.pick(&["before", "after"])),
                        _ => format!("app-{}", *rng.pick(&["before", "after"])),
                    };
                    gated += 1;
                    if kind == 6 {
                        kinds.insert("gate over http2");
                        let port = srv.port;
                        if h2c.is_none() || rng.chance(1, 10) {
                            match h2::crt().block_on(h2::open(port)) {
                                Ok(h) => {
                                    // streams of the former one still wait: keep it alive
                                    h2old.extend(h2c.replace(h));
                                }
                                Err(e) => return h2::lost2("a waiting request", e, json!({})),
                            }
                        }
                        let rq: h2::Req = ("GET".into(), path, vec![("x-wait".into(), w.into_bytes())], vec![]);
                        match h2::crt().block_on(h2::start(&mut h2c.as_mut().unwrap().tx, port, &rq, None)) {
                            Ok(p) => h2w.push(p),
                            Err(e) => return h2::lost2("a waiting request", e, json!({})),
                        }
                        continue;
                    }
                    kinds.insert(if kind == 0 { "handler" } else { "middleware" });
                    if let Err(e) = c.send(&req("GET", &path, &[("x-wait", &w)], b"")) {
                        return lost("a waiting request", e, json!(w));
                    }
                    waiters.push((c, vec![], (200, format!("done {t} 0")), "gate"));
                }
                2 | 3 | 4 => {
                    // a body that stops arriving
                    let (ct, body, n): (&str, Vec<u8>, usize) = match kind {
                        2 => ("raw", vec![b'x'; 500], 500),
                        3 => ("json", br#"{"a":[1,2,3]}"#.to_vec(), 13),
                        _ => ("form", b"a=1&b=2".to_vec(), 2),
                    };
                    kinds.insert("body");
                    let b = req("POST", &path, &[("x-read", ct)], &body);
                    let head = find(&b, b"\r\n\r\n").unwrap() + 4;
                    let cut = rng.range(head, b.len() - 1);
                    if let Err(e) = c.send(&b[..cut]) {
                        return lost("a waiting request", e, json!(ct));
                    }
                    waiters.push((c, b[cut..].to_vec(), (200, format!("done {t} {n}")), "body"));
                }
                _ => {
                    kinds.insert("head");
                    let b = req("GET", &path, &[], b"");
                    let cut = rng.below(b.len());
                    if let Err(e) = c.send(&b[..cut]) {
                        return lost("a waiting request", e, json!("head"));
                    }
                    waiters.push((c, b[cut..].to_vec(), (200, format!("done {t} 0")), "head"));
                }
            }
        }
        // all gates reached (HTTP/2 limits nothing below its stream limit)
        let t = Instant::now();
        while g.1.load(Ordering::SeqCst) < gated {
            if t.elapsed() > Duration::from_secs(30) {
                return viol("requests do not reach their handlers while others wait", json!({"waiting": g.1.load(Ordering::SeqCst), "sent": gated, "mix": kinds}));
            }
            std::thread::sleep(Duration::from_millis(1));
        }
        if pipes > 0 {
            std::thread::sleep(Duration::from_millis(5));
        }
        // others pass
        let jobs_n = AtomicU64::new(0);
        let mix = json!({"waiting": waiters.len() + h2w.len() + fifo.len(), "mix": kinds});
        let mut jobs: Vec<Box<dyn FnOnce() -> Result<(), Violation> + Send + '_>> = vec![];
        for k in 0..3 {
            let mut r = rng.fork();
            let (srv, jobs_n, mix) = (&srv, &jobs_n, &mix);
            jobs.push(Box::new(move || {
                for j in 0..8 {
                    let f = r.below(16);
                    let t = format!("o{k}x{j}");
                    let (q, w): (h2::Req, (u16, Vec<u8>)) = match r.below(6) {
                        0 => (("GET".into(), format!("/st/f{f}.txt"), vec![], vec![]), (200, file13(f))),
                        1 => (("POST".into(), format!("/r/{t}"), vec![("x-read".into(), b"json".to_vec())], b"[1]".to_vec()), (200, format!("done {t} 3").into_bytes())),
                        2 => (("GET".into(), format!("/nest/{t}"), vec![], vec![]), (200, format!("done {t} 0").into_bytes())),
                        3 => (("GET".into(), "/nowhere".into(), vec![], vec![]), (404, b"404 Not Found".to_vec())),
                        4 => (("POST".into(), format!("/other/{t}"), vec![], vec![7; 2000]), (200, format!("done {t} 2000").into_bytes())),
                        _ => (("GET".into(), format!("/r/{t}"), vec![], vec![]), (200, format!("done {t} 0").into_bytes())),
                    };
                    let e = |e: String| viol("a request was held up by waiting ones", json!({"target": q.1, "client_saw": e, "case": mix}));
                    let a = if k == 2 {
                        match h2::one(srv.port, &q) {
                            Ok(a) => a,
                            Err(x) => return e(x),
                        }
                    } else {
                        let mut c = srv.connect();
                        if let Err(x) = c.send(&as_h1(&q)) {
                            return e(format!("{x:?}"));
                        }
                        match c.read_response_within(false, Duration::from_secs(30)) {
                            Ok(a) => a,
                            Err(x) => return e(format!("{x:?}")),
                        }
                    };
                    if (a.status, &a.body) != (w.0, &w.1) {
                        return viol("a request beside waiting ones got another answer", json!({"target": q.1, "status": a.status, "body": show(&a.body[..a.body.len().min(200)]), "case": mix}));
                    }
                    jobs_n.fetch_add(1, Ordering::Relaxed);
                }
                Ok(())
            }));
        }
        let passed = together(jobs);
        // let everyone go, whatever happened (pipes block threads of this process)
        g.0.add_permits(10_000);
        for (_, path, name) in &fifo {
            let f = std::fs::OpenOptions::new().read(true).write(true).open(path);
            if let Ok(mut f) = f {
                use std::io::Write;
                let _ = f.write_all(name.as_bytes());
            }
        }
        passed?;
        let mut released = 0;
        for (c, rest, want, how) in &mut waiters {
            let a = c.send(rest).and_then(|_| c.read_response(false));
            match a {
                Ok(a) if a.status == want.0 && a.text() == want.1 => released += 1,
                Ok(a) => return viol("a request that waited got another answer", json!({"how": how, "status": a.status, "body": show(&a.body), "expected": want.1})),
                Err(e) => return lost("a request that waited", e, json!({"how": how})),
            }
        }
        for (mut c, path, _) in fifo {
            // opened for reading after its writer is gone it would wait again: keep both ends open shortly
            let t = Instant::now();
            loop {
                match c.read_response_within(false, Duration::from_millis(50)) {
                    Ok(_) => {
                        released += 1;
                        break;
                    }
                    Err(Ce::Timeout) if t.elapsed() < Duration::from_secs(30) => {
                        use std::io::Write;
                        use std::os::unix::fs::OpenOptionsExt;
                        if let Ok(mut f) = std::fs::OpenOptions::new().write(true).custom_flags(libc::O_NONBLOCK).open(&path) {
                            let _ = f.write_all(b"x");
                        }
                    }
                    Err(Ce::Timeout) => return viol("a request that waited got no answer", json!({"how": "file"})),
                    Err(_) => break,
                }
            }
            let _ = std::fs::remove_file(&path);
        }
        for h in h2w {
            match h2::crt().block_on(h2::wait(h)) {
                Ok(a) if a.status == 200 => released += 1,
                Ok(a) => return viol("a request that waited got another answer", json!({"how": "http2", "status": a.status})),
                Err(e) => return h2::lost2("a request that waited", e, json!({"how": "http2"})),
            }
        }
        drop(h2old);
        let n = jobs_n.load(Ordering::Relaxed);
        rep.evals += n;
        rep.distinct.push(hash_of(&(format!("{kinds:?}"), total, only)));
        rep.count("answered_while_others_waited", n);
        rep.count("waiting_requests", released as u64);
        if pipes > 0 {
            rep.count("waiting_in_files", pipes as u64);
        }
        rep.sample = Some(mix);
        Ok(())
    });
    cx.need("answered_while_others_waited", 1500);
    cx.need("waiting_requests", 1000);
    cx.need("waiting_in_files", 20);
}
