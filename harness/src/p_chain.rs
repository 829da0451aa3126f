//! C06: middleware control flow, against a reference interpreter of random middleware programs.
use crate::core::*;
use crate::p_slow::Slow;
use crate::http::*;
use crate::spec::{literal, next_rid, rid_of, GenOpt, Segs};
use async_trait::async_trait;
use obsidian::context::Context;
use obsidian::middleware::logger::Logger;
use obsidian::middleware::Middleware;
use obsidian::router::{Response, Router};
use obsidian::{App, Body, ContextResult, EndpointExecutor, ObsidianError, StatusCode};
use serde_json::json;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub const TAGS: [&str; 32] = [
    "t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7", "t8", "t9", "t10", "t11", "t12", "t13", "t14", "t15", "t16", "t17", "t18", "t19", "t20", "t21", "t22",
    "t23", "t24", "t25", "t26", "t27", "t28", "t29", "t30", "t31",
];
const STATUS: [u16; 12] = [200, 201, 202, 301, 400, 401, 403, 404, 418, 500, 503, 599];

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum Pre {
    AddHdr(u32),
    SetHdr(u32),
    Ext(u32),
    /// data of a type of its own, replaced by later ones
    Note(u32),
    TakeBody,
    Respond(u16, usize),
}
#[derive(Clone, Debug, Hash, PartialEq)]
pub enum Out {
    Resp(u16, usize),
    NoResp,
    Err(u8, String),
    /// return the context as it is
    AsIs,
}
#[derive(Clone, Debug, Hash, PartialEq)]
pub enum After {
    Keep,
    Become(Out),
    /// changes the response's status in place, when there is one
    Status(u16),
}
#[derive(Clone, Debug, Hash, PartialEq)]
pub struct Prog {
    id: u32,
    pre: Vec<Pre>,
    wait: u8,
    go: bool,
    stop: Out,
    on_ok: After,
    on_err: After,
}

#[derive(Clone, Debug, PartialEq)]
pub enum CEv {
    Enter(u32, Vis),
    Exit(u32, Res),
    Handler(Vis),
}
/// What is visible in the request.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Vis {
    add: Vec<u32>,
    set: Option<u32>,
    ext: Vec<u32>,
    note: Option<u32>,
    body: Option<String>,
    resp: Option<(u16, Option<usize>)>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok(Option<(u16, Option<usize>)>),
    Err(String),
}
pub type Sink = Arc<Mutex<HashMap<u64, Vec<CEv>>>>;

struct Exts(Vec<u32>);
struct Note(u32);

fn num(v: &hyper::header::HeaderValue) -> u32 {
    v.to_str().unwrap().parse().unwrap()
}
/// How a response carries its tag: a header, nothing but its body, or another header.
fn tag_header(t: usize) -> Option<&'static str> {
    match t {
        0..=11 => Some("x-tag"),
        12..=21 => None,
        _ => Some("x-alt"),
    }
}
pub fn resp_of(r: &Option<Response>) -> Option<(u16, Option<usize>)> {
    r.as_ref().map(|r| {
        let hs: Vec<_> = r.headers().iter().flatten().filter(|h| h.0 != "content-type").collect();
        let t = match &hs[..] {
            [] => None,
            [(k, v)] => TAGS.iter().position(|t| t == v).filter(|t| tag_header(*t) == Some(k.as_str())).or(Some(999)),
            _ => Some(999),
        };
        (r.status().as_u16(), t)
    })
}
/// What of a tag shows before the response is sent.
pub fn shown(r: &Option<(u16, Option<usize>)>) -> Option<(u16, Option<usize>)> {
    r.map(|(s, t)| (s, t.filter(|t| tag_header(*t).is_some())))
}
fn look(ctx: &Context) -> Vis {
    Vis {
        add: ctx.headers().get_all("x-add").iter().map(num).collect(),
        set: ctx.headers().get("x-set").map(num),
        ext: ctx.get::<Exts>().map(|e| e.0.clone()).unwrap_or_default(),
        note: ctx.get::<Note>().map(|n| n.0),
        body: None,
        resp: resp_of(ctx.response()),
    }
}
fn error(kind: u8, s: &str) -> ObsidianError {
    match kind {
        0 => ObsidianError::GeneralError(s.into()),
        1 => ObsidianError::ParamError(s.into()),
        2 => ObsidianError::FormError(obsidian::router::FormError::Message(s.into())),
        3 => serde_json::from_str::<u32>("x").unwrap_err().into(),
        _ => ObsidianError::NoneError,
    }
}
fn error_text(kind: u8, s: &str) -> String {
    match kind {
        0..=2 => s.into(),
        3 => serde_json::from_str::<u32>("x").unwrap_err().to_string(),
        _ => "Input should not be None".into(),
    }
}
fn make(out: &Out, mut ctx: Context) -> ContextResult {
    match out {
        Out::Resp(s, t) => {
            let b = if t % 2 == 0 { ctx.build(format!("b{t}")) } else { ctx.build(Response::new(format!("b{t}"))) };
            let b = b.with_status(StatusCode::from_u16(*s).unwrap());
            match tag_header(*t) {
                Some(k) => b.with_header_str(k, TAGS[*t]).ok(),
                None => b.ok(),
            }
        }
        Out::NoResp => {
            *ctx.response_mut() = None;
            Ok(ctx)
        }
        Out::Err(k, s) => Err(error(*k, s)),
        Out::AsIs => Ok(ctx),
    }
}
async fn pause(n: u8) {
    for _ in 0..n {
        // works on any executor
        let mut first = true;
        std::future::poll_fn(|cx| {
            if std::mem::take(&mut first) {
                cx.waker().wake_by_ref();
                std::task::Poll::Pending
            } else {
                std::task::Poll::Ready(())
            }
        })
        .await;
    }
}
fn put(s: &Sink, rid: u64, e: CEv) {
    s.lock().unwrap().entry(rid).or_default().push(e)
}

pub struct ProgMw(Prog, Sink);
#[async_trait]
impl Middleware for ProgMw {
    async fn handle<'a>(&'a self, mut ctx: Context, ex: EndpointExecutor<'a>) -> ContextResult {
        let (p, sink) = (&self.0, &self.1);
        let rid = rid_of(&ctx).unwrap();
        put(sink, rid, CEv::Enter(p.id, look(&ctx)));
        pause(p.wait & 3).await;
        for a in &p.pre {
            match a {
                Pre::AddHdr(v) => {
                    ctx.headers_mut().append("x-add", v.to_string().parse().unwrap());
                }
                Pre::SetHdr(v) => {
                    ctx.headers_mut().insert("x-set", v.to_string().parse().unwrap());
                }
                Pre::Ext(v) => match ctx.get_mut::<Exts>() {
                    Some(e) => e.0.push(*v),
                    None => ctx.add(Exts(vec![*v])),
                },
                Pre::Note(v) => ctx.add(Note(*v)),
                Pre::TakeBody => {
                    let b = ctx.take_body();
                    let _ = hyper::body::to_bytes(b).await;
                }
                Pre::Respond(s, t) => {
                    let r = Response::new(format!("b{t}")).with_status(StatusCode::from_u16(*s).unwrap());
                    *ctx.response_mut() = Some(match tag_header(*t) {
                        Some(k) => r.with_header_str(k, TAGS[*t]),
                        None => r,
                    });
                }
            }
        }
        if !p.go {
            return make(&p.stop, ctx);
        }
        let r = ex.next(ctx).await;
        pause(p.wait >> 2).await;
        match r {
            Ok(mut c) => {
                put(sink, rid, CEv::Exit(p.id, Res::Ok(resp_of(c.response()))));
                match &p.on_ok {
                    After::Keep => Ok(c),
                    After::Become(o) => make(o, c),
                    After::Status(s) => {
                        if let Some(r) = c.response_mut() {
                            *r.status_mut() = StatusCode::from_u16(*s).unwrap();
                        }
                        Ok(c)
                    }
                }
            }
            Err(e) => {
                put(sink, rid, CEv::Exit(p.id, Res::Err(e.to_string())));
                match &p.on_err {
                    After::Become(o) => make(o, Context::new(obsidian::Request::new(Body::empty()), HashMap::new())),
                    _ => Err(e),
                }
            }
        }
    }
}
async fn handler(mut ctx: Context, out: Out, sink: Sink) -> ContextResult {
    let rid = rid_of(&ctx).unwrap();
    let mut v = look(&ctx);
    let b = hyper::body::to_bytes(ctx.take_body()).await;
    v.body = Some(b.map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_else(|e| format!("error {e}")));
    put(&sink, rid, CEv::Handler(v));
    pause(1).await;
    make(&out, ctx)
}

// ---- reference interpreter
type R = Result<Option<(u16, Option<usize>)>, String>;
fn ref_out(o: &Out, cur: Option<(u16, Option<usize>)>) -> R {
    match o {
        Out::Resp(s, t) => Ok(Some((*s, Some(*t)))),
        Out::NoResp => Ok(None),
        Out::Err(k, s) => Err(error_text(*k, s)),
        Out::AsIs => Ok(cur),
    }
}
fn reference(chain: &[Prog], hout: &Out, v: &Vis, body: &str, ev: &mut Vec<CEv>) -> R {
    let Some((p, rest)) = chain.split_first() else {
        let mut w = v.clone();
        w.body = Some(body.to_string());
        w.resp = shown(&w.resp);
        ev.push(CEv::Handler(w));
        return ref_out(hout, v.resp);
    };
    ev.push(CEv::Enter(p.id, Vis { resp: shown(&v.resp), ..v.clone() }));
    let mut v = v.clone();
    let mut body = body;
    for a in &p.pre {
        match a {
            Pre::AddHdr(x) => v.add.push(*x),
            Pre::SetHdr(x) => v.set = Some(*x),
            Pre::Ext(x) => v.ext.push(*x),
            Pre::Note(x) => v.note = Some(*x),
            Pre::TakeBody => body = "",
            Pre::Respond(s, t) => v.resp = Some((*s, Some(*t))),
        }
    }
    if !p.go {
        return ref_out(&p.stop, v.resp);
    }
    let r = reference(rest, hout, &v, body, ev);
    ev.push(CEv::Exit(
        p.id,
        match &r {
            Ok(x) => Res::Ok(shown(x)),
            Err(e) => Res::Err(e.clone()),
        },
    ));
    match r {
        Ok(x) => match &p.on_ok {
            After::Keep => Ok(x),
            After::Become(o) => ref_out(o, x),
            After::Status(s) => Ok(x.map(|y| (*s, y.1))),
        },
        Err(e) => match &p.on_err {
            After::Become(o) => ref_out(o, None),
            _ => Err(e),
        },
    }
}

fn gen_out(rng: &mut Rng) -> Out {
    match rng.below(10) {
        0..=4 => Out::Resp(*rng.pick(&STATUS), rng.below(32)),
        5 => Out::NoResp,
        6 | 7 => {
            let s = match rng.below(5) {
                0 => String::new(),
                1 => "e".repeat(rng.size(5000)),
                2 => "é\r\n\r\nHTTP/1.1 200 OK\r\n".into(),
                _ => format!("error {}", rng.below(1000)),
            };
            Out::Err(rng.below(5) as u8, s)
        }
        _ => Out::AsIs,
    }
}
fn gen_prog(rng: &mut Rng, id: u32, stop: (usize, usize)) -> Prog {
    let n = *rng.pick(&[0, 0, 1, 1, 2, 3]);
    let pre = (0..n)
        .map(|_| {
            let v = rng.below(1000) as u32;
            match rng.below(12) {
                0..=2 => Pre::AddHdr(v),
                3 | 4 => Pre::SetHdr(v),
                5..=7 => Pre::Ext(v),
                8 | 9 => Pre::Note(v),
                10 => Pre::TakeBody,
                _ => Pre::Respond(*rng.pick(&STATUS), rng.below(32)),
            }
        })
        .collect();
    let after = |rng: &mut Rng| match rng.below(8) {
        0 => After::Become(gen_out(rng)),
        1 => After::Status(*rng.pick(&STATUS)),
        _ => After::Keep,
    };
    Prog {
        id,
        pre,
        wait: if rng.chance(1, 4) { rng.below(16) as u8 } else { 0 },
        go: !rng.chance(stop.0, stop.1),
        stop: gen_out(rng),
        on_ok: after(rng),
        on_err: after(rng),
    }
}

pub struct Case {
    /// middleware per path level, level 0 is the application
    pub levels: Vec<Vec<Prog>>,
    pub path: Segs,
    /// level l > 0 begins a mounted router
    pub mount: Vec<bool>,
    pub out: Out,
    /// loggers put between the middleware: level and position (C21)
    pub loggers: Vec<(usize, usize)>,
}
pub fn gen_case(rng: &mut Rng) -> Case {
    let o = GenOpt {
        unicode: false,
        params: false,
        wild: false,
        mws: false,
        mounts: false,
        max_items: 0,
        bad: false,
    };
    let depth = rng.below(5);
    let total = match rng.below(20) {
        0 => rng.size(150),
        1..=4 => rng.range(0, 20),
        _ => rng.range(0, 6),
    };
    let stop = if rng.chance(1, 3) { (1, 6) } else { (1, 40) };
    let mut levels = vec![vec![]; depth + 1];
    for _ in 0..total {
        levels[rng.below(depth + 1)].push(());
    }
    let mut id = 0;
    let levels: Vec<Vec<Prog>> = levels
        .into_iter()
        .map(|l: Vec<()>| {
            l.iter()
                .map(|_| {
                    id += 1;
                    gen_prog(rng, id, stop)
                })
                .collect()
        })
        .collect();
    let path: Segs = (0..depth).map(|_| literal(rng, &o)).collect();
    Case {
        levels,
        path,
        mount: (0..=depth).map(|l| l > 0 && rng.chance(1, 3)).collect(),
        out: gen_out(rng),
        loggers: vec![],
    }
}
/// Router holding the levels from `l` on; paths are relative to level `l`.
pub fn build(c: &Case, l: usize, sink: &Sink, rng: &mut Rng) -> Router {
    let mut r = Router::new();
    let last = c.levels.len() - 1;
    let end = (l + 1..=last).find(|k| c.mount[*k]).unwrap_or(last + 1);
    // registrations of different levels may come in any order
    let mut todo: Vec<(usize, usize)> = vec![];
    for k in l..end {
        for j in 0..c.levels[k].len() {
            todo.push((k, j));
        }
    }
    let put_loggers = |r: &mut Router, k: usize, at: usize| {
        for _ in c.loggers.iter().filter(|x| **x == (k, at)) {
            if k == l {
                r.use_service(Logger::new());
            } else {
                r.use_service_to(&format!("/{}", c.path[l..k].join("/")), Logger::new());
            }
        }
    };
    for k in l..end {
        put_loggers(&mut r, k, 0);
    }
    let mut order: Vec<usize> = todo.iter().map(|t| t.0).collect();
    rng.shuffle(&mut order);
    let mut at = HashMap::new();
    for k in order {
        let j = at.entry(k).or_insert(0);
        let p = ProgMw(c.levels[k][*j].clone(), sink.clone());
        *j += 1;
        let rel = c.path[l..k].join("/");
        if k == l && rng.chance(2, 3) {
            r.use_service(p);
        } else {
            r.use_service_to(&format!("/{rel}"), p);
        }
        put_loggers(&mut r, k, *at.get(&k).unwrap());
    }
    if end <= last {
        let sub = build(c, end, sink, rng);
        r.use_router(&format!("/{}", c.path[l..end].join("/")), sub);
    } else {
        let (out, sink) = (c.out.clone(), sink.clone());
        r.post(&format!("/{}", c.path[l..].join("/")), move |ctx: Context| handler(ctx, out.clone(), sink.clone()));
    }
    r
}
fn expect(c: &Case, body: &str) -> (Vec<CEv>, R) {
    let chain: Vec<Prog> = c.levels.iter().flatten().cloned().collect();
    let mut ev = vec![];
    let r = reference(&chain, &c.out, &Vis::default(), body, &mut ev);
    (ev, r)
}
pub fn describe(c: &Case) -> serde_json::Value {
    json!({"path": c.path.join("/"), "levels": c.levels.iter().map(|l| l.iter().map(|p| format!("{p:?}")).collect::<Vec<_>>()).collect::<Vec<_>>(), "mounted_levels": c.mount, "handler": format!("{:?}", c.out)})
}
fn diff(want: &[CEv], got: &[CEv]) -> serde_json::Value {
    let k = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    json!({"first_difference_at": k, "expected": format!("{:?}", want.get(k)), "observed": format!("{:?}", got.get(k)), "expected_events": want.len(), "observed_events": got.len()})
}
fn count(rep: &mut Rep, c: &Case, ev: &[CEv], r: &R) {
    let n: usize = c.levels.iter().map(|l| l.len()).sum();
    let reached = ev.iter().any(|e| matches!(e, CEv::Handler(_)));
    rep.eval(if n > 0 { Some(hash_of(&(&c.levels, &c.out))) } else { None });
    rep.count("events", ev.len() as u64);
    if !reached {
        rep.count("stopped_chains", 1);
    }
    if r.is_err() {
        rep.count("error_outcomes", 1);
    }
    if n > 5 {
        rep.count("long_chains", 1);
    }
    rep.count("inside_errors_seen", ev.iter().filter(|e| matches!(e, CEv::Exit(_, Res::Err(_)))).count() as u64);
}

pub fn c06(cx: &Arc<Cx>) {
    cx.rule("random chains of 0-150 middleware programs spread over path levels and mounted routers (change headers, attached data, body, response; wait; stop or continue; keep, change or replace the outcome), run in-process and served; every Enter/Exit/Handler event with what it saw of the request and outcome, and the final answer, compared with a reference interpreter; beside that, requests that take up to 31 s (thorough: 122 s) in every such place; an evaluation is one request; non-trivial: at least one middleware");
    cx.plan(3);
    let slow = crate::p_slow::start(cx, &[Slow::Before, Slow::After, Slow::Error], false);
    cx.cases("inproc", cx.n(200_000), 8, |rng, _, rep| {
        let c = gen_case(rng);
        let sink: Sink = Default::default();
        let router = build(&c, 0, &sink, rng);
        let body = if rng.chance(1, 3) { String::new() } else { format!("body{}", rng.below(100)) };
        for rid in 0..2u64 {
            let (ev, want) = expect(&c, &body);
            count(rep, &c, &ev, &want);
            let path = format!("/{}", c.path.join("/"));
            let Some(v) = router.search_route(&path) else {
                return viol("a registered route was not found", describe(&c));
            };
            let Some(route) = v.get_route(&obsidian::Method::POST) else {
                return viol("a registered route was not found", describe(&c));
            };
            let rq = obsidian::Request::builder()
                .method("POST")
                .uri(&path)
                .header("x-rid", rid)
                .body(Body::from(body.clone()))
                .unwrap();
            let got = block_on(EndpointExecutor::new(&route.handler, v.get_middlewares()).next(Context::new(rq, v.get_params())));
            let got_ev = sink.lock().unwrap().remove(&rid).unwrap_or_default();
            if ev != got_ev {
                return viol("the chain did not run as its middleware decided", json!({"diff": diff(&ev, &got_ev), "case": describe(&c)}));
            }
            let got = match got {
                Ok(c) => Ok(resp_of(c.response())),
                Err(e) => Err(e.to_string()),
            };
            if got != want.clone().map(|r| shown(&r)) {
                return viol("the outcome is not what the outermost middleware returned", json!({"observed": format!("{got:?}"), "expected": format!("{want:?}"), "case": describe(&c)}));
            }
        }
        rep.sample = Some(describe(&c));
        Ok(())
    });
    cx.cases("wire", cx.n(4000), 8, |rng, _, rep| {
        let c = gen_case(rng);
        let sink: Sink = Default::default();
        let mut br = rng.fork();
        let srv = Server::start(|| {
            let mut a: App = App::new();
            let mut b = br.clone();
            // root middleware through the application itself, the rest as one router
            for p in &c.levels[0] {
                a.use_service(ProgMw(p.clone(), sink.clone()));
            }
            let rest = Case {
                levels: [vec![vec![]], c.levels[1..].to_vec()].concat(),
                path: c.path.clone(),
                mount: c.mount.clone(),
                out: c.out.clone(),
                loggers: vec![],
            };
            a.use_router("/", build(&rest, 0, &sink, &mut b));
            a
        })?;
        br.next();
        let mut conn = srv.connect();
        for _ in 0..3 {
            let body = if rng.chance(1, 3) { String::new() } else { format!("body{}", rng.below(100)) };
            let (ev, want) = expect(&c, &body);
            count(rep, &c, &ev, &want);
            let rid = next_rid();
            let path = format!("/{}", c.path.join("/"));
            let r = match conn.roundtrip(&req("POST", &path, &[("x-rid", &rid.to_string())], body.as_bytes())) {
                Ok(r) => r,
                Err(e) => return lost("a middleware chain", e, describe(&c)),
            };
            let got_ev = sink.lock().unwrap().remove(&rid).unwrap_or_default();
            if ev != got_ev {
                return viol("the chain did not run as its middleware decided", json!({"diff": diff(&ev, &got_ev), "case": describe(&c)}));
            }
            let (st, text, tag) = match &want {
                Ok(Some((s, Some(t)))) => (*s, format!("b{t}"), tag_header(*t).map(|k| (k, TAGS[*t]))),
                Ok(Some((s, None))) => (*s, String::new(), None),
                Ok(None) => (200, String::new(), None),
                Err(e) => (500, e.clone(), None),
            };
            let tag_got: Vec<(&str, &[u8])> = r.headers.iter().filter(|h| h.0.starts_with("x-")).map(|h| (&h.0[..], &h.1[..])).collect();
            if r.status != st || r.text() != text || tag_got != tag.iter().copied().map(|(k, t): (&str, &str)| (k, t.as_bytes())).collect::<Vec<_>>() {
                return viol(
                    "the client did not get what the outermost middleware returned",
                    json!({"status": r.status, "body": show(&r.body), "expected": format!("{want:?}"), "case": describe(&c)}),
                );
            }
            rep.count("served_chains", 1);
            if r.will_close() {
                conn = srv.connect();
            }
        }
        Ok(())
    });
    slow.finish(cx);
    cx.need("events", 10_000);
    cx.need("stopped_chains", 500);
    cx.need("error_outcomes", 300);
    cx.need("inside_errors_seen", 500);
    cx.need("long_chains", 300);
    cx.need("served_chains", 100);
}
