//! C21: an application with the logger somewhere behaves as the same application without it.
use crate::core::*;
use crate::h2;
use crate::http::*;
use crate::p_chain::{self, CEv, Case};
use crate::p_resp::{intern, rand_bytes, Own};
use crate::spec::next_rid;
use async_trait::async_trait;
use obsidian::context::Context;
use obsidian::middleware::logger::Logger;
use obsidian::middleware::Middleware;
use obsidian::router::{Response, Router};
use obsidian::{App, Body, ContextResult, EndpointExecutor, ObsidianError, StatusCode};
use serde_json::json;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

fn with_loggers(c: &Case, rng: &mut Rng) -> Case {
    let mut l = vec![];
    for _ in 0..rng.range(1, 4) {
        let k = rng.below(c.levels.len());
        l.push((k, rng.below(c.levels[k].len() + 1)));
    }
    Case {
        levels: c.levels.clone(),
        path: c.path.clone(),
        mount: c.mount.clone(),
        out: c.out.clone(),
        loggers: l,
    }
}
fn run_chain(r: &Router, sink: &p_chain::Sink, path: &str, body: &str, hdr: &[u8]) -> (Vec<CEv>, String) {
    let rid = next_rid();
    let rq = obsidian::Request::builder()
        .method("POST")
        .uri(path)
        .header("x-rid", rid)
        .header("x-odd", hdr)
        .body(Body::from(body.to_string()))
        .unwrap();
    let Some(v) = r.search_route(path) else { return (vec![], "not found".into()) };
    let Some(route) = v.get_route(&obsidian::Method::POST) else { return (vec![], "no method".into()) };
    let got = block_on(EndpointExecutor::new(&route.handler, v.get_middlewares()).next(Context::new(rq, v.get_params())));
    let ev = sink.lock().unwrap().remove(&rid).unwrap_or_default();
    let out = match got {
        Ok(c) => match c.take_response() {
            None => "none".to_string(),
            Some(r) => {
                let head = format!("{} {:?}", r.status(), r.headers());
                let b = block_on(hyper::body::to_bytes(r.body())).map(|b| show(&b)).unwrap_or("broken body".into());
                format!("{head} {b}")
            }
        },
        Err(e) => format!("error {e:?}"),
    };
    (ev, out)
}

// ---------------------------------------------------------------- a varied application
type Log = Arc<Mutex<HashMap<String, Vec<String>>>>;
fn note(log: &Log, c: &Context, s: &str) {
    let k = c.headers().get("x-rid").and_then(|v| v.to_str().ok()).unwrap_or("?").to_string();
    log.lock().unwrap().entry(k).or_default().push(s.to_string());
}
struct Gate(Log, &'static str);
#[async_trait]
impl Middleware for Gate {
    async fn handle<'a>(&'a self, mut c: Context, ex: EndpointExecutor<'a>) -> ContextResult {
        note(&self.0, &c, self.1);
        if c.headers().get("x-stop").map_or(false, |v| v.as_bytes() == self.1.as_bytes()) {
            return c.build("stopped").with_status(StatusCode::FORBIDDEN).ok();
        }
        if c.headers().get("x-fail").map_or(false, |v| v.as_bytes() == self.1.as_bytes()) {
            return Err(ObsidianError::GeneralError(format!("failed at {}", self.1)));
        }
        c.add(self.1);
        ex.next(c).await
    }
}
fn routes(r: &mut dyn FnMut(&'static str, Box<dyn Fn(Context, Log) -> std::pin::Pin<Box<dyn std::future::Future<Output = ContextResult> + Send>> + Send + Sync>)) {
    macro_rules! add {
        ($p:literal, |$c:ident, $l:ident| $b:expr) => {
            r($p, Box::new(|mut $c: Context, $l: Log| Box::pin(async move { let _ = &mut $c; note(&$l, &$c, $p); $b })))
        };
    }
    add!("text/:a", |c, l| {
        let a: String = c.param("a")?;
        note(&l, &c, &format!("{a} {:?} {:?}", c.get::<&str>(), c.uri().path_and_query()));
        c.build(a).with_header_str("x-one", "1").with_header_str("x-one", "2").ok()
    });
    add!("echo", |c, l| {
        let b = hyper::body::to_bytes(c.take_body()).await.map_err(|e| ObsidianError::GeneralError(e.to_string()))?;
        note(&l, &c, &format!("{} {}", b.len(), hash_of(&b[..])));
        c.build(Response::ok().set_body(Own(Body::from(b)))).ok()
    });
    add!("json", |c, _l| {
        let v: serde_json::Value = c.json().await?;
        c.build_json(v).ok()
    });
    add!("form", |c, _l| {
        let v: HashMap<String, Vec<String>> = c.form().await?;
        let v: std::collections::BTreeMap<_, _> = v.into_iter().collect();
        c.build_json(v).ok()
    });
    add!("query", |c, _l| {
        let v: HashMap<String, Vec<String>> = c.query_params()?;
        let v: std::collections::BTreeMap<_, _> = v.into_iter().collect();
        c.build_json(v).ok()
    });
    add!("none", |c, _l| Ok(c));
    add!("unread", |c, _l| c.build("unread").ok());
    add!("fail", |c, _l| {
        let _ = c;
        Err(ObsidianError::GeneralError("failed\r\nbadly".into()))
    });
    add!("fail2", |c, _l| {
        let _ = c;
        Err(ObsidianError::NoneError)
    });
    add!("status/:s", |c, _l| {
        let s: u16 = c.param("s")?;
        c.build("with status").with_status(StatusCode::from_u16(s).map_err(|e| ObsidianError::GeneralError(e.to_string()))?).ok()
    });
    add!("stream", |c, _l| {
        let (mut tx, b) = Body::channel();
        tokio::spawn(async move {
            for i in 0..20u32 {
                if tx.send_data(format!("part {i};").into()).await.is_err() {
                    return;
                }
                if i % 7 == 0 {
                    tokio::time::sleep(Duration::from_micros(200)).await;
                }
            }
        });
        c.build(Response::ok().set_body(Own(b))).ok()
    });
    add!("broken", |c, _l| {
        let (mut tx, b) = Body::channel();
        tokio::spawn(async move {
            let _ = tx.send_data("part".into()).await;
            tx.abort();
        });
        c.build(Response::ok().set_body(Own(b))).ok()
    });
    add!("badheader", |c, _l| c.build("x").with_header_str("x-bad", "a\nb").ok());
    add!("big", |c, _l| c.build("0123456789abcdef".repeat(20_000)).ok());
    add!("panic", |c, _l| {
        if c.headers().get("x-go").is_none() {
            panic!("{DELIBERATE} in a handler");
        }
        c.build("went").ok()
    });
    add!("slow", |c, _l| {
        tokio::time::sleep(Duration::from_millis(3)).await;
        c.build("slow").with_status(StatusCode::ACCEPTED).ok()
    });
    add!("file", |c, _l| {
        let f = format!("{}/logger-files/a.bin", scratch().trim_start_matches('/'));
        let _ = f;
        Ok(c.build_file("logger-files/b.txt").await.ok()?)
    });
}
/// where: which loggers the application gets
fn varied(log: &Log, loggers: usize) -> App {
    let mut a: App = if loggers & 1 != 0 { App::default() } else { App::new() };
    a.use_service(Gate(log.clone(), "app"));
    if loggers & 2 != 0 {
        a.use_service(Logger::new());
    }
    if loggers & 4 != 0 {
        a.use_service_to("/in", Logger::new());
    }
    a.use_service_to("/in", Gate(log.clone(), "in"));
    let mut nested = Router::new();
    if loggers & 8 != 0 {
        nested.use_service(Logger::new());
    }
    nested.use_service(Gate(log.clone(), "nested"));
    routes(&mut |p, f| {
        let f = Arc::new(f);
        for base in ["", "/in"] {
            let (f, l) = (f.clone(), log.clone());
            let h = move |c: Context| f(c, l.clone());
            a.post(&format!("{base}/{p}"), h.clone());
            a.get(&format!("{base}/{p}"), h);
        }
        let l = log.clone();
        let h = move |c: Context| f(c, l.clone());
        nested.post(p, h.clone());
        nested.get(p, h);
    });
    if loggers & 16 != 0 {
        nested.use_service(Logger::new());
    }
    nested.use_static_to("/static", "logger-files");
    a.use_router("/nested", nested);
    a.use_static_to("/static", "logger-files");
    a
}
fn files() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        std::env::set_current_dir(scratch()).expect("scratch");
        std::fs::create_dir_all("logger-files").unwrap();
        std::fs::write("logger-files/a.bin", (0..=255u8).collect::<Vec<_>>()).unwrap();
        std::fs::write("logger-files/b.txt", "text").unwrap();
    });
}
fn gen_req(rng: &mut Rng) -> (String, String, Vec<(String, Vec<u8>)>, Vec<u8>) {
    let base = *rng.pick(&["", "/in", "/nested"]);
    let b = match rng.below(6) {
        0 | 1 => vec![],
        2 => b"{\"a\":[1,2,{\"b\":null}]}".to_vec(),
        3 => b"a=1&a=2&b=%41+%42".to_vec(),
        _ => {
            let n = rng.size(100_000);
            rand_bytes(rng, n)
        }
    };
    let p = match rng.below(22) {
        0 => format!("/text/{}", *rng.pick(&["x", "%C3%A9", "{}", "%s%n", "a b".replace(' ', "+").as_str(), "{:?}", "..."])),
        1 | 2 => "/echo".into(),
        3 => "/json".into(),
        4 => "/form".into(),
        5 => format!("/query?{}", *rng.pick(&["a=1&b=2&a=3", "", "%zz", "{}", "x=%F0%9F"])),
        6 => "/none".into(),
        7 => "/unread".into(),
        8 => "/fail".into(),
        9 => "/fail2".into(),
        10 | 11 => format!("/status/{}", rng.pick(&[200, 201, 204, 205, 301, 304, 400, 401, 404, 418, 451, 499, 500, 503, 599, 700, 999])),
        12 => "/stream".into(),
        13 => "/broken".into(),
        14 => "/badheader".into(),
        15 => "/big".into(),
        16 => "/panic".into(),
        17 => "/slow".into(),
        18 => "/file".into(),
        19 => format!("/static/{}", *rng.pick(&["a.bin", "b.txt", "none", "../b.txt"])),
        20 => "/nothing/here".into(),
        _ => format!("/text/{}", "y".repeat(rng.size(4000).max(1))),
    };
    let m = *rng.pick(&["GET", "POST", "POST", "GET", "GET", "PUT", "DELETE", "OPTIONS", "HEAD"]);
    let mut h: Vec<(String, Vec<u8>)> = vec![];
    if rng.chance(1, 6) {
        h.push(("x-stop".into(), rng.pick(&["app", "in", "nested"]).as_bytes().to_vec()));
    }
    if rng.chance(1, 10) {
        h.push(("x-fail".into(), rng.pick(&["app", "in", "nested"]).as_bytes().to_vec()));
    }
    for _ in 0..rng.below(4) {
        let n = rng.size(300);
        let v: Vec<u8> = (0..n).map(|_| if rng.chance(1, 6) { 0x80 + rng.below(128) as u8 } else { rng.range(33, 126) as u8 }).collect();
        h.push((rng.pick(&["x-odd", "cookie", "user-agent", "authorization"]).to_string(), v));
    }
    (m.into(), format!("{base}{p}"), h, if m == "HEAD" { vec![] } else { b })
}
type Answer = Result<(u16, Vec<(String, Vec<u8>)>, Vec<u8>), String>;
fn clean(r: Resp) -> (u16, Vec<(String, Vec<u8>)>, Vec<u8>) {
    let mut h: Vec<_> = r.headers.into_iter().filter(|h| h.0 != "date").collect();
    h.sort();
    (r.status, h, r.body)
}
fn ask(srv: &Server, c: &mut Conn, rid: u64, q: &(String, String, Vec<(String, Vec<u8>)>, Vec<u8>), http2: bool) -> Answer {
    let mut h = q.2.clone();
    h.push(("x-rid".into(), rid.to_string().into_bytes()));
    if http2 {
        return match h2::one(srv.port, &(q.0.clone(), q.1.clone(), h, q.3.clone())) {
            Ok(r) => Ok(clean(r)),
            Err(e) if e == "timeout" => Err(e),
            Err(_) => Err("broken".into()),
        };
    }
    let mut v = format!("{} {} HTTP/1.1\r\nhost: t\r\n", q.0, q.1).into_bytes();
    for (k, x) in &h {
        v.extend_from_slice(k.as_bytes());
        v.extend_from_slice(b": ");
        v.extend_from_slice(x);
        v.extend_from_slice(b"\r\n");
    }
    let extra = everyday(hash_of(&(&q.1, &q.3)), &|k| h.iter().any(|x| x.0.eq_ignore_ascii_case(k)), false);
    for (k, x) in extra {
        v.extend_from_slice(format!("{k}: {x}\r\n").as_bytes());
    }
    v.extend_from_slice(format!("content-length: {}\r\n\r\n", q.3.len()).as_bytes());
    v.extend_from_slice(&q.3);
    // what a server does with a body nobody reads is up to the HTTP layer's timing
    *c = srv.connect();
    if let Err(e) = c.send(&v) {
        let _ = e;
    }
    match c.read_response(q.0 == "HEAD") {
        Ok(mut r) => {
            r.headers.retain(|h| h.0 != "connection");
            Ok(clean(r))
        }
        Err(Ce::Timeout) => Err("timeout".into()),
        Err(_) => Err("broken".into()),
    }
}

pub fn c21(cx: &Arc<Cx>) {
    cx.rule("random middleware programs (C06) in-process and an application of 17 kinds of handlers plus static files served twice, once without and once with loggers (default application, application, path and nested router placements); events seen by handlers and middleware, outcomes, and status, headers and body at the client must agree; beside that, requests that take up to 31 s (thorough: 122 s) in every such place; an evaluation is one request answered by both; non-trivial: it reached a logger's position");
    cx.plan(3);
    let slow = crate::p_slow::start(cx, &crate::p_slow::ALL, true);
    cx.cases("inproc", cx.n(60_000), 8, |rng, _, rep| {
        let c = p_chain::gen_case(rng);
        let l = with_loggers(&c, rng);
        let (s1, s2): (p_chain::Sink, p_chain::Sink) = Default::default();
        let seed = rng.next();
        let plain = p_chain::build(&c, 0, &s1, &mut Rng::new(seed));
        let logged = p_chain::build(&l, 0, &s2, &mut Rng::new(seed));
        let path = format!("/{}", c.path.join("/"));
        let n = rng.size(400);
        let body = "b".repeat(n);
        let hdr = if rng.chance(1, 3) { &b"\xff\xfe{}%s"[..] } else { b"v" };
        let a = run_chain(&plain, &s1, &path, &body, hdr);
        let b = run_chain(&logged, &s2, &path, &body, hdr);
        rep.eval(Some(hash_of(&(&c.levels, &c.out, &l.loggers))));
        rep.count("chains", 1);
        rep.count("events_compared", a.0.len() as u64);
        match &a.1 {
            s if s.starts_with("error") => rep.count("failing_chains", 1),
            s if s == "none" => rep.count("chains_without_response", 1),
            _ => {}
        }
        if a != b {
            return viol(
                "the logger changed what runs or what comes back",
                json!({"without": show(format!("{:?}", a).as_bytes()), "with": show(format!("{:?}", b).as_bytes()), "loggers_at": format!("{:?}", l.loggers), "case": p_chain::describe(&c)}),
            );
        }
        Ok(())
    });
    files();
    cx.cases("wire", cx.n(160), 8, |rng, i, rep| {
        let (l1, l2): (Log, Log) = Default::default();
        let place = if i % 3 == 0 { 1 } else { rng.range(1, 31) };
        let plain = Server::start(|| varied(&l1, 0))?;
        let logged = Server::start(|| varied(&l2, place))?;
        let (mut c1, mut c2) = (plain.connect(), logged.connect());
        for _ in 0..40 {
            let q = gen_req(rng);
            let http2 = rng.chance(1, 8) && q.0 != "HEAD";
            let rid = next_rid();
            let mut a = ask(&plain, &mut c1, rid, &q, http2);
            let mut b = ask(&logged, &mut c2, rid, &q, http2);
            // a connection closed on an unread body may take the answer with it: only what repeats counts
            for _ in 0..3 {
                if a == b || (a.is_ok() && b.is_ok()) {
                    break;
                }
                rep.count("asked_again", 1);
                std::thread::sleep(Duration::from_millis(5));
                let rid = next_rid();
                a = ask(&plain, &mut c1, rid, &q, http2);
                b = ask(&logged, &mut c2, rid, &q, http2);
            }
            let (ta, tb) = (l1.lock().unwrap().remove(&rid.to_string()), l2.lock().unwrap().remove(&rid.to_string()));
            rep.eval(if ta.is_some() { Some(hash_of(&(&q, place))) } else { None });
            rep.count("requests", 1);
            match &a {
                Ok(r) if r.0 == 500 => rep.count("error_answers", 1),
                Err(_) => rep.count("broken_on_purpose", 1),
                _ => {}
            }
            let d = json!({"method": q.0, "target": show(q.1.as_bytes()), "headers": q.2.iter().map(|h| format!("{}: {}", h.0, show(&h.1))).collect::<Vec<_>>(), "body": show(&q.3[..q.3.len().min(100)]), "loggers": place, "http2": http2});
            if ta != tb {
                return viol("other handlers or middleware ran with the logger", json!({"without": ta, "with": tb, "case": d}));
            }
            if a != b {
                let f = |x: &Answer| show(format!("{:?}", x.as_ref().map(|x| (x.0, x.1.iter().map(|h| (h.0.clone(), show(&h.1))).collect::<Vec<_>>(), x.2.len(), show(&x.2[..x.2.len().min(80)])))).as_bytes());
                return viol("the client got something else with the logger", json!({"without": f(&a), "with": f(&b), "case": d}));
            }
            rep.sample = Some(d);
        }
        Ok(())
    });
    let _ = intern;
    slow.finish(cx);
    cx.need("chains", 5000);
    cx.need("failing_chains", 200);
    cx.need("chains_without_response", 200);
    cx.need("requests", 1000);
    cx.need("error_answers", 100);
}
