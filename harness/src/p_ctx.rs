//! C25: operations on a context do what they name and nothing else.
//!
//! A random program of context operations runs inside middleware (before and after the rest of the
//! chain) and handlers. A model of the context is carried along; after every operation everything
//! that can be read from the context is compared with it.
use crate::core::*;
use crate::http::*;
use crate::h2;
use crate::p_resp::{gen_json, hname, rand_bytes, Own};
use async_trait::async_trait;
use obsidian::context::Context;
use obsidian::middleware::Middleware;
use obsidian::router::{Response, Router};
use obsidian::{App, Body, ContextResult, EndpointExecutor, StatusCode};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- typed data
/// Types a context can hold; the ones that wrap the same thing must not be mixed up.
#[derive(Clone, Debug, PartialEq)]
struct A(u64);
#[derive(Clone, Debug, PartialEq)]
struct B(u64);
#[derive(Clone, Debug, PartialEq)]
struct Unit;
#[derive(Debug)]
struct NotClone(Box<u64>);
mod twin {
    /// Same name as the other one, another type.
    #[derive(Clone, Debug, PartialEq)]
    pub struct A(pub u64);
}
#[derive(Clone, Debug)]
struct Generic<T>(T);
#[derive(Clone)]
pub struct St(u64);

const SLOTS: usize = 12;
macro_rules! slots {
    ($($n:literal: $t:ty, $mk:expr, $rd:expr, $set:expr;)*) => {
        fn slot_add(c: &mut Context, k: usize, v: u64) { match k { $($n => { let f: fn(u64) -> $t = $mk; c.add::<$t>(f(v)); })* _ => unreachable!() } }
        /// as `add`, the other way
        fn slot_insert(c: &mut Context, k: usize, v: u64) -> Option<u64> { match k { $($n => { let f: fn(u64) -> $t = $mk; let r: fn(&$t) -> u64 = $rd; c.extensions_mut().insert::<$t>(f(v)).map(|x| r(&x)) })* _ => unreachable!() } }
        fn slot_get(c: &Context, k: usize) -> Option<u64> { match k { $($n => { let f: fn(&$t) -> u64 = $rd; c.get::<$t>().map(f) })* _ => unreachable!() } }
        fn slot_get2(c: &Context, k: usize) -> Option<u64> { match k { $($n => { let f: fn(&$t) -> u64 = $rd; c.extensions().get::<$t>().map(f) })* _ => unreachable!() } }
        fn slot_set(c: &mut Context, k: usize, v: u64) -> bool { match k { $($n => { let f: fn(&mut $t, u64) = $set; match c.get_mut::<$t>() { Some(x) => { f(x, v); true } None => false } })* _ => unreachable!() } }
        fn slot_remove(c: &mut Context, k: usize) -> Option<u64> { match k { $($n => { let f: fn(&$t) -> u64 = $rd; c.extensions_mut().remove::<$t>().map(|x| f(&x)) })* _ => unreachable!() } }
    };
}
slots! {
    0: A, A, |x| x.0, |x, v| x.0 = v;
    1: B, B, |x| x.0, |x, v| x.0 = v;
    2: twin::A, twin::A, |x| x.0, |x, v| x.0 = v;
    3: u64, |v| v, |x| *x, |x, v| *x = v;
    4: String, |v| v.to_string(), |x| x.parse().unwrap(), |x, v| *x = v.to_string();
    5: Vec<u8>, |v| v.to_le_bytes().to_vec(), |x| u64::from_le_bytes(x[..8].try_into().unwrap()), |x, v| x[..8].copy_from_slice(&v.to_le_bytes());
    6: Unit, |_| Unit, |_| 0, |_, _| ();
    7: NotClone, |v| NotClone(Box::new(v)), |x| *x.0, |x, v| *x.0 = v;
    8: Option<u64>, |v| Some(v), |x| x.unwrap(), |x, v| *x = Some(v);
    9: Generic<u64>, Generic, |x| x.0, |x, v| x.0 = v;
    10: Generic<i64>, |v| Generic(v as i64), |x| x.0 as u64, |x, v| x.0 = v as i64;
    11: Arc<Mutex<u64>>, |v| Arc::new(Mutex::new(v)), |x| *x.lock().unwrap(), |x, v| *x.lock().unwrap() = v;
}
fn norm(k: usize, v: u64) -> u64 {
    if k == 6 {
        0
    } else {
        v
    }
}

// ---------------------------------------------------------------- operations
const HNAMES: [&str; 10] = ["x-a", "x-b", "accept", "cookie", "content-type", "authorization", "set-cookie", "x-forwarded-for", "etag", "content-encoding"];
const PN: [&str; 4] = ["a", "b", "*", "zz"];
#[derive(Clone, Debug, Hash)]
enum Kind {
    Text(String),
    Str(&'static str),
    Unit,
    Status(u16),
    OptNone,
    Json(String),
    File(bool),
    Bytes(Vec<u8>),
    Pair(u16, String),
    Resp(u16, Vec<(&'static str, &'static str)>, Vec<u8>),
}
#[derive(Clone, Debug, Hash)]
enum Bop {
    Status(u16),
    Hdr(&'static str, &'static str),
    HdrStr(&'static str, &'static str),
    Hdrs(Vec<(&'static str, &'static str)>),
    HdrsStr(Vec<(&'static str, &'static str)>),
}
#[derive(Clone, Debug, Hash)]
enum Op {
    Add(usize, u64),
    Insert(usize, u64),
    Set(usize, u64),
    Remove(usize),
    HInsert(&'static str, u32),
    HAppend(&'static str, u32),
    HRemove(&'static str),
    TakeBody,
    Json,
    Form,
    Query,
    Param(&'static str),
    ParamNum(&'static str),
    Debug,
    SetResp(u16, Vec<(&'static str, &'static str)>, Vec<u8>),
    TakeResp,
    EditStatus(u16),
    EditHeader(&'static str, &'static str),
    Build(Kind, Vec<Bop>),
    Wait(u64),
}
const VALS: [&str; 6] = ["v0", "v1", "text/html", "", "a; b=c", "v1, v2"];
fn g_h(rng: &mut Rng) -> (&'static str, &'static str) {
    (*rng.pick(&HNAMES), *rng.pick(&VALS))
}
fn g_hs(rng: &mut Rng) -> Vec<(&'static str, &'static str)> {
    (0..rng.below(5)).map(|_| g_h(rng)).collect()
}
fn g_status(rng: &mut Rng) -> u16 {
    *rng.pick(&[200, 201, 202, 301, 400, 403, 404, 418, 500, 503, 299, 599])
}
fn g_bytes(rng: &mut Rng) -> Vec<u8> {
    let n = if rng.chance(1, 40) { rng.size(200_000) } else { rng.below(40) };
    rand_bytes(rng, n)
}
fn g_op(rng: &mut Rng) -> Op {
    let slot = rng.below(SLOTS);
    let v = rng.next();
    match rng.below(40) {
        0..=5 => Op::Add(slot, v),
        6 => Op::Insert(slot, v),
        7..=9 => Op::Set(slot, v),
        10 | 11 => Op::Remove(slot),
        12 | 13 => Op::HInsert(*rng.pick(&HNAMES), v as u32),
        14 | 15 => Op::HAppend(*rng.pick(&HNAMES), v as u32),
        16 => Op::HRemove(*rng.pick(&HNAMES)),
        17 => Op::TakeBody,
        18 => Op::Json,
        19 => Op::Form,
        20 | 21 => Op::Query,
        22 => Op::Param(*rng.pick(&PN)),
        23 => Op::ParamNum(*rng.pick(&PN)),
        24 => Op::Debug,
        25 => Op::SetResp(g_status(rng), g_hs(rng), g_bytes(rng)),
        26 | 27 => Op::TakeResp,
        28 | 29 => Op::EditStatus(g_status(rng)),
        30 => {
            let (k, v) = g_h(rng);
            Op::EditHeader(k, v)
        }
        31 => Op::Wait(v % 300),
        _ => {
            let k = match rng.below(10) {
                0 => Kind::Text(format!("t{}", v % 1000)),
                1 => Kind::Str("static text"),
                2 => Kind::Unit,
                3 => Kind::Status(g_status(rng)),
                4 => Kind::OptNone,
                5 => Kind::Json(gen_json(rng, 2).to_string()),
                6 => Kind::File(rng.chance(2, 3)),
                7 => Kind::Bytes(rand_bytes(rng, 8)),
                8 => Kind::Pair(g_status(rng), format!("p{}", v % 1000)),
                _ => Kind::Resp(g_status(rng), g_hs(rng), g_bytes(rng)),
            };
            let n = *rng.pick(&[0, 0, 1, 2, 4]);
            let ops = (0..n)
                .map(|_| match rng.below(5) {
                    0 => Bop::Status(g_status(rng)),
                    1 => {
                        let (k, v) = g_h(rng);
                        Bop::Hdr(k, v)
                    }
                    2 => {
                        let (k, v) = g_h(rng);
                        Bop::HdrStr(k, v)
                    }
                    3 => Bop::Hdrs(g_hs(rng)),
                    _ => Bop::HdrsStr(g_hs(rng)),
                })
                .collect();
            Op::Build(k, ops)
        }
    }
}

// ---------------------------------------------------------------- model
#[derive(Clone, Debug, PartialEq)]
struct MResp {
    status: u16,
    /// names with the value set last; None: not laid down (content type of some values)
    headers: BTreeMap<String, Option<String>>,
    body: Vec<u8>,
}
#[derive(Clone, Debug)]
struct Model {
    method: String,
    uri: String,
    headers: BTreeMap<String, Vec<Vec<u8>>>,
    params: BTreeMap<String, String>,
    data: BTreeMap<usize, u64>,
    body: Vec<u8>,
    resp: Option<MResp>,
    query: Value,
    steps: u64,
}
fn headers_of(c: &Context) -> BTreeMap<String, Vec<Vec<u8>>> {
    let mut m: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
    for (k, v) in c.headers() {
        m.entry(k.as_str().to_string()).or_default().push(v.as_bytes().to_vec());
    }
    m
}
fn effective(r: &Response) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for (k, v) in r.headers().iter().flatten() {
        m.insert(k.as_str().to_string(), v.to_string());
    }
    m
}
fn same_headers(want: &BTreeMap<String, Option<String>>, got: &BTreeMap<String, String>) -> bool {
    want.iter().all(|(k, v)| v.as_ref().map_or(true, |v| got.get(k) == Some(v))) && got.keys().all(|k| want.contains_key(k))
}
/// What differs between the context and the model.
fn compare(c: &Context, m: &Model) -> Result<(), String> {
    if c.method().as_str() != m.method {
        return Err(format!("method {} instead of {}", c.method(), m.method));
    }
    if c.uri().to_string() != m.uri {
        return Err(format!("uri {} instead of {}", c.uri(), m.uri));
    }
    let h = headers_of(c);
    if h != m.headers {
        return Err(format!("headers {:?} instead of {:?}", h, m.headers));
    }
    for k in 0..SLOTS {
        let want = m.data.get(&k).copied();
        for got in [slot_get(c, k), slot_get2(c, k)] {
            if got != want {
                return Err(format!("attached data {k}: {got:?} instead of {want:?}"));
            }
        }
    }
    for n in PN {
        let got = c.param::<String>(n).ok();
        // what a wildcard leaves in the parameters is not laid down
        if n != "*" && got.as_ref() != m.params.get(n) {
            return Err(format!("parameter {n}: {got:?}"));
        }
    }
    match (c.response(), &m.resp) {
        (None, None) => {}
        (Some(r), Some(w)) => {
            if r.status().as_u16() != w.status {
                return Err(format!("response status {} instead of {}", r.status(), w.status));
            }
            let e = effective(r);
            if !same_headers(&w.headers, &e) {
                return Err(format!("response headers {e:?} instead of {:?}", w.headers));
            }
        }
        (a, b) => return Err(format!("response present: {}, should be: {}", a.is_some(), b.is_some())),
    }
    Ok(())
}
fn pairs(h: &[(&'static str, &'static str)]) -> BTreeMap<String, Option<String>> {
    h.iter().map(|(k, v)| (k.to_string(), Some(v.to_string()))).collect()
}
fn with_names(h: &[(&'static str, &'static str)]) -> Vec<(hyper::header::HeaderName, &'static str)> {
    h.iter().map(|(k, v)| (hname(k), *v)).collect()
}
fn response(s: u16, h: &[(&'static str, &'static str)], b: &[u8]) -> Response {
    let mut r = Response::new(Own(Body::from(b.to_vec())));
    *r.status_mut() = StatusCode::from_u16(s).unwrap();
    if !h.is_empty() {
        *r.headers_mut() = Some(with_names(h));
    }
    r
}
fn file(present: bool) -> (String, Vec<u8>) {
    let p = format!("{}/ctx-file", scratch());
    static ONCE: std::sync::Once = std::sync::Once::new();
    let content = b"content of the file \xff\x00".to_vec();
    ONCE.call_once(|| std::fs::write(&p, &content).expect("scratch"));
    if present {
        (p, content)
    } else {
        (format!("{p}-not"), vec![])
    }
}
fn ct(v: Option<&str>) -> BTreeMap<String, Option<String>> {
    std::iter::once(("content-type".to_string(), v.map(|s| s.to_string()))).collect()
}
fn query_value(q: &[u8]) -> Value {
    json!(crate::p_decode::decode_pairs(q))
}

/// Runs one operation on both.
async fn step(mut c: Context, m: &mut Model, op: &Op) -> Result<Context, String> {
    m.steps += 1;
    match op {
        Op::Add(k, v) => {
            slot_add(&mut c, *k, *v);
            m.data.insert(*k, norm(*k, *v));
        }
        Op::Insert(k, v) => {
            let old = slot_insert(&mut c, *k, *v);
            if old != m.data.insert(*k, norm(*k, *v)) {
                return Err(format!("inserting data {k} gave {old:?}"));
            }
        }
        Op::Set(k, v) => {
            let there = slot_set(&mut c, *k, *v);
            if there != m.data.contains_key(k) {
                return Err(format!("data {k} to be changed is there: {there}"));
            }
            if there {
                m.data.insert(*k, norm(*k, *v));
            }
        }
        Op::Remove(k) => {
            let old = slot_remove(&mut c, *k);
            if old != m.data.remove(k) {
                return Err(format!("removing data {k} gave {old:?}"));
            }
        }
        Op::HInsert(k, v) => {
            c.headers_mut().insert(hname(k), v.to_string().parse().unwrap());
            m.headers.insert(k.to_string(), vec![v.to_string().into_bytes()]);
        }
        Op::HAppend(k, v) => {
            c.headers_mut().append(hname(k), v.to_string().parse().unwrap());
            m.headers.entry(k.to_string()).or_default().push(v.to_string().into_bytes());
        }
        Op::HRemove(k) => {
            c.headers_mut().remove(hname(k));
            m.headers.remove(*k);
        }
        Op::TakeBody => {
            let b = hyper::body::to_bytes(c.take_body()).await.map_err(|e| format!("taken body: {e}"))?;
            let want = std::mem::take(&mut m.body);
            if b[..] != want[..] {
                return Err(format!("taken body {} instead of {}", show(&b), show(&want)));
            }
        }
        Op::Json => {
            let got: Option<Value> = c.json().await.ok();
            let want: Option<Value> = serde_json::from_slice(&std::mem::take(&mut m.body)).ok();
            if got != want {
                return Err(format!("json {got:?} instead of {want:?}"));
            }
        }
        Op::Form => {
            let got: Option<BTreeMap<String, Vec<String>>> = c.form().await.ok();
            let want = query_value(&std::mem::take(&mut m.body));
            if got.as_ref().map(|g| json!(g)) != Some(want.clone()) {
                return Err(format!("form {got:?} instead of {want}"));
            }
        }
        Op::Query => {
            let got: Option<BTreeMap<String, Vec<String>>> = c.query_params().ok();
            if got.as_ref().map(|g| json!(g)).as_ref() != Some(&m.query) {
                return Err(format!("query {got:?} instead of {}", m.query));
            }
        }
        Op::Param(n) => {
            let got = c.param::<String>(n).ok();
            if *n != "*" && got.as_ref() != m.params.get(*n) {
                return Err(format!("parameter {n}: {got:?}"));
            }
        }
        Op::ParamNum(n) => {
            let got = c.param::<u64>(n).ok();
            if *n != "*" && got != m.params.get(*n).and_then(|v| v.parse().ok()) {
                return Err(format!("parameter {n} as number: {got:?}"));
            }
        }
        Op::Debug => {
            let _ = format!("{c:?}{c:#?}");
        }
        Op::SetResp(s, h, b) => {
            *c.response_mut() = Some(response(*s, h, b));
            m.resp = Some(MResp {
                status: *s,
                headers: pairs(h),
                body: b.clone(),
            });
        }
        Op::TakeResp => match (c.response_mut().take(), m.resp.take()) {
            (None, None) => {}
            (Some(r), Some(w)) => {
                let e = effective(&r);
                let s = r.status().as_u16();
                let b = hyper::body::to_bytes(r.body()).await.map_err(|e| format!("response body: {e}"))?;
                if s != w.status || !same_headers(&w.headers, &e) || b[..] != w.body[..] {
                    return Err(format!("response {s} {e:?} {} instead of {} {:?} {}", show(&b), w.status, w.headers, show(&w.body)));
                }
            }
            (a, b) => return Err(format!("response present: {}, should be: {}", a.is_some(), b.is_some())),
        },
        Op::EditStatus(s) => {
            if let Some(r) = c.response_mut() {
                *r.status_mut() = StatusCode::from_u16(*s).unwrap();
            }
            if let Some(r) = &mut m.resp {
                r.status = *s;
            }
        }
        Op::EditHeader(k, v) => {
            if let Some(r) = c.response_mut() {
                r.headers_mut().get_or_insert_with(Vec::new).push((hname(k), *v));
            }
            if let Some(r) = &mut m.resp {
                r.headers.insert(k.to_string(), Some(v.to_string()));
            }
        }
        Op::Wait(us) => {
            if *us > 200 {
                // parks the case for a moment when there is a runtime, so that requests overlap
                async_std::task::sleep(std::time::Duration::from_micros(*us)).await;
            }
        }
        Op::Build(k, ops) => {
            let txt = || ct(Some("text/plain; charset=utf-8"));
            let (mut w, b) = match k {
                Kind::Text(s) => (MResp { status: 200, headers: txt(), body: s.clone().into_bytes() }, c.build(s.clone())),
                Kind::Str(s) => (MResp { status: 200, headers: txt(), body: s.as_bytes().to_vec() }, c.build(*s)),
                Kind::Unit => (MResp { status: 200, headers: BTreeMap::new(), body: vec![] }, c.build(())),
                Kind::Status(s) => (MResp { status: *s, headers: BTreeMap::new(), body: vec![] }, c.build(StatusCode::from_u16(*s).unwrap())),
                Kind::OptNone => (MResp { status: 404, headers: ct(None), body: b"Not Found".to_vec() }, c.build(None::<String>)),
                Kind::Json(t) => {
                    let v: Value = serde_json::from_str(t).unwrap();
                    (MResp { status: 200, headers: ct(Some("application/json")), body: serde_json::to_vec(&v).unwrap() }, c.build_json(v))
                }
                Kind::File(there) => {
                    let (p, content) = file(*there);
                    let b = c.build_file(&p).await;
                    let mut r = MResp { status: if *there { 200 } else { 404 }, headers: BTreeMap::new(), body: content };
                    if !there {
                        // the text is the system's
                        r.body = std::fs::read(&p).unwrap_err().to_string().into_bytes();
                    }
                    (r, b)
                }
                Kind::Bytes(v) => (MResp { status: 200, headers: ct(None), body: serde_json::to_vec(v).unwrap() }, c.build(v.clone())),
                Kind::Pair(s, t) => (MResp { status: *s, headers: ct(None), body: t.clone().into_bytes() }, c.build((StatusCode::from_u16(*s).unwrap(), t.clone()))),
                Kind::Resp(s, h, v) => (MResp { status: *s, headers: pairs(h), body: v.clone() }, c.build(response(*s, h, v))),
            };
            let mut b = b;
            for o in ops {
                match o {
                    Bop::Status(s) => {
                        b = b.with_status(StatusCode::from_u16(*s).unwrap());
                        w.status = *s;
                    }
                    Bop::Hdr(k, v) => {
                        b = b.with_header(hname(k), v);
                        w.headers.insert(k.to_string(), Some(v.to_string()));
                    }
                    Bop::HdrStr(k, v) => {
                        b = b.with_header_str(k, v);
                        w.headers.insert(k.to_string(), Some(v.to_string()));
                    }
                    Bop::Hdrs(h) => {
                        b = b.with_headers(with_names(h));
                        w.headers.extend(pairs(h));
                    }
                    Bop::HdrsStr(h) => {
                        b = b.with_headers_str(h.clone());
                        w.headers.extend(pairs(h));
                    }
                }
            }
            c = b.ok().map_err(|e| format!("building a response failed: {e}"))?;
            // a content type that is not laid down may be missing
            if w.headers.get("content-type") == Some(&None) && !c.response().as_ref().map_or(false, |r| effective(r).contains_key("content-type")) {
                w.headers.remove("content-type");
            }
            // the text for a missing file is not laid down either
            if let (Kind::File(false), Some(r)) = (k, c.response_mut()) {
                let body = std::mem::replace(r, Response::new(()));
                let (s, h) = (body.status(), body.headers().clone());
                let bytes = hyper::body::to_bytes(body.body()).await.map_err(|e| e.to_string())?;
                w.body = bytes.to_vec();
                let mut again = Response::new(Own(Body::from(bytes))).set_status(s);
                *again.headers_mut() = h;
                *r = again;
            }
            m.resp = Some(w);
        }
    }
    compare(&c, m)?;
    Ok(c)
}

// ---------------------------------------------------------------- chain
/// The programs of one request: for each place what happens before and after the rest of the chain.
#[derive(Clone, Debug, Hash)]
struct Case {
    before: Vec<Vec<Op>>,
    handler: Vec<Op>,
    after: Vec<Vec<Op>>,
}
fn gen_case(rng: &mut Rng, layers: usize) -> Case {
    let prog = |rng: &mut Rng| -> Vec<Op> {
        let n = *rng.pick(&[0, 1, 2, 3, 5, 8, 14]);
        (0..n).map(|_| g_op(rng)).collect()
    };
    Case {
        before: (0..layers).map(|_| prog(rng)).collect(),
        handler: prog(rng),
        after: (0..layers).map(|_| prog(rng)).collect(),
    }
}
struct Run {
    case: Case,
    model: tokio::sync::Mutex<Option<Model>>,
    wrong: Mutex<Option<String>>,
    start: Model,
    state: Option<u64>,
    /// Take headers and URI as they arrive (what arrives is C20's question).
    adopt: bool,
}
impl Run {
    fn fail(&self, at: String, why: String) {
        let mut w = self.wrong.lock().unwrap();
        if w.is_none() {
            *w = Some(format!("{at}: {why}"));
        }
    }
    async fn ops(&self, mut c: Context, ops: &[Op], at: &str) -> ContextResult {
        let mut g = self.model.lock().await;
        if g.is_none() {
            let mut m = self.start.clone();
            if self.adopt {
                m.headers = headers_of(&c);
                m.uri = c.uri().to_string();
            }
            *g = Some(m);
        }
        let m = g.as_mut().unwrap();
        if let Err(e) = compare(&c, m) {
            self.fail(format!("on reaching {at}"), e);
        }
        if c.get::<St>().map(|s| s.0) != self.state {
            self.fail(format!("on reaching {at}"), "the application state is another one".into());
        }
        for (n, op) in ops.iter().enumerate() {
            match step(c, m, op).await {
                Ok(x) => c = x,
                Err(e) => {
                    self.fail(format!("{at}, operation {n} {}", show(format!("{op:?}").as_bytes())), e);
                    return Err(obsidian::ObsidianError::GeneralError("differs".into()));
                }
            }
        }
        Ok(c)
    }
}
type Runs = Arc<Mutex<HashMap<u64, Arc<Run>>>>;
fn run_of(r: &Runs, c: &Context) -> Arc<Run> {
    let id = c.headers().get("x-rid").and_then(|v| v.to_str().ok()).and_then(|v| v.parse().ok()).unwrap_or(0u64);
    r.lock().unwrap().get(&id).cloned().expect("a run for every request")
}
struct Layer(usize, Runs);
#[async_trait]
impl Middleware for Layer {
    async fn handle<'a>(&'a self, c: Context, ex: EndpointExecutor<'a>) -> ContextResult {
        let run = run_of(&self.1, &c);
        let c = run.ops(c, &run.case.before[self.0], &format!("middleware {} before", self.0)).await?;
        let c = ex.next(c).await?;
        run.ops(c, &run.case.after[self.0], &format!("middleware {} after", self.0)).await
    }
}
fn build(layers: usize, runs: &Runs, pattern: &str, rng: &mut Rng) -> Router {
    let mut r = Router::new();
    // layers at the places a path passes
    let places: Vec<&str> = match pattern {
        "/k/:a/s/:b" => vec!["/", "/k", "/k/:a", "/k/:a/s", "/k/:a/s/:b"],
        _ => vec!["/", "/w", "/w/*"],
    };
    let mut at: Vec<usize> = (0..layers).map(|_| rng.below(places.len())).collect();
    at.sort();
    let h = runs.clone();
    for m in 0..5 {
        let h = h.clone();
        let f = move |c: Context| {
            let run = run_of(&h, &c);
            async move { run.ops(c, &run.case.handler, "handler").await }
        };
        match m {
            0 => r.get(pattern, f),
            1 => r.post(pattern, f),
            2 => r.put(pattern, f),
            3 => r.patch(pattern, f),
            _ => r.delete(pattern, f),
        }
    }
    for (i, p) in at.iter().enumerate() {
        if places[*p] == "/" {
            r.use_service(Layer(i, runs.clone()));
        } else {
            r.use_service_to(places[*p], Layer(i, runs.clone()));
        }
    }
    r
}
fn gen_body(rng: &mut Rng) -> Vec<u8> {
    match rng.below(6) {
        0 => vec![],
        1 | 2 => gen_json(rng, 2).to_string().into_bytes(),
        3 | 4 => (0..rng.range(1, 5)).map(|_| format!("{}={}", rng.pick(&["a", "b", "c"]), rng.pick(&["1", "x+y", "%41", "", "z"]))).collect::<Vec<_>>().join("&").into_bytes(),
        _ => g_bytes(rng),
    }
}
fn describe(c: &Case) -> Value {
    json!(show(format!("{c:?}").as_bytes()))
}

pub fn c25(cx: &Arc<Cx>) {
    cx.rule("random programs of context operations (typed data of 12 types, headers, body, readers, response, builders) run in middleware before and after the rest of the chain and in the handler; after every operation everything readable from the context is compared with a model that is carried along; an evaluation is one operation with its comparison; distinct: programs");
    cx.plan(2);
    cx.cases("inproc", cx.n(20000), 8, |rng, _, rep| {
        let layers = *rng.pick(&[0, 1, 1, 2, 3, 6]);
        let case = gen_case(rng, layers);
        let runs: Runs = Default::default();
        let pattern = *rng.pick(&["/k/:a/s/:b", "/w/*"]);
        let router = build(layers, &runs, pattern, rng);
        let (a, b) = (rng.below(100000).to_string(), format!("v{}", rng.below(100)));
        let path = if pattern == "/w/*" { "/w/one/two".to_string() } else { format!("/k/{a}/s/{b}") };
        let q = *rng.pick(&["", "?", "?a=1", "?a=1&b=&a=2", "?x=%41+b&y=;"]);
        let body = gen_body(rng);
        let mth = crate::spec::method(rng.below(5));
        let mut rq = obsidian::Request::new(Body::from(body.clone()));
        *rq.method_mut() = mth.clone();
        *rq.uri_mut() = format!("{path}{q}").parse().unwrap();
        rq.headers_mut().insert("x-rid", "1".parse().unwrap());
        for _ in 0..rng.below(5) {
            rq.headers_mut().append(hname(*rng.pick(&HNAMES)), (*rng.pick(&["1", "b", "c, d"])).parse().unwrap());
        }
        let found = match router.search_route(&path) {
            Some(f) => f,
            None => return viol("the route is not found", json!({"path": path, "pattern": pattern})),
        };
        let ctx = Context::new(rq, found.get_params());
        let mut params = BTreeMap::new();
        if pattern != "/w/*" {
            params.insert("a".to_string(), a);
            params.insert("b".to_string(), b);
        }
        let start = Model {
            method: mth.to_string(),
            uri: format!("{path}{q}"),
            headers: headers_of(&ctx),
            params,
            data: BTreeMap::new(),
            body,
            resp: None,
            query: query_value(q.trim_start_matches('?').as_bytes()),
            steps: 0,
        };
        let run = Arc::new(Run { case: case.clone(), model: tokio::sync::Mutex::new(None), wrong: Mutex::new(None), start, state: None, adopt: false });
        runs.lock().unwrap().insert(1, run.clone());
        let route = found.get_route(&mth).expect("route");
        let out = block_on(EndpointExecutor::new(&route.handler, found.get_middlewares()).next(ctx));
        if let Some(w) = run.wrong.lock().unwrap().clone() {
            return viol("a context operation did something else than asked", json!({"why": w, "case": describe(&case)}));
        }
        let mut m = block_on(run.model.lock()).take().expect("model");
        // what comes out, with the body of the response and what is left of the request's
        let mut last = match out {
            Ok(c) => c,
            Err(e) => return viol("a chain that never fails gave an error", json!({"error": e.to_string(), "case": describe(&case)})),
        };
        let mut res = compare(&last, &m);
        if res.is_ok() {
            let b = block_on(hyper::body::to_bytes(last.take_body())).unwrap_or_default();
            if b[..] != m.body[..] {
                res = Err(format!("the body left over is {} instead of {}", show(&b), show(&m.body)));
            }
        }
        rep.evals += m.steps;
        if m.steps > 0 {
            rep.distinct.push(hash_of(&case));
        }
        rep.count("operations", m.steps);
        rep.count("data_at_the_end", m.data.len() as u64);
        if res.is_ok() {
            let r = block_on(step(last, &mut m, &Op::TakeResp));
            res = r.map(|_| ());
        }
        if let Err(w) = res {
            return viol("a context operation did something else than asked", json!({"why": format!("at the end: {w}"), "case": describe(&case)}));
        }
        rep.sample = Some(describe(&case));
        Ok(())
    });
    cx.cases("served", cx.n(120), 8, |rng, _, rep| {
        let layers = rng.range(0, 4);
        let runs: Runs = Default::default();
        let pattern = *rng.pick(&["/k/:a/s/:b", "/w/*"]);
        let seed = rng.fork();
        let state = if rng.chance(1, 2) { Some(rng.next()) } else { None };
        let nested = rng.chance(1, 2);
        let srv = Server::start(|| {
            let r = build(layers, &runs, pattern, &mut seed.clone());
            let mut app: App<St> = App::new();
            if nested {
                app.use_router("/pre", r);
            } else {
                app.use_router("/", r);
            }
            if let Some(s) = state {
                app.set_app_state(St(s));
            }
            app
        })?;
        let pre = if nested { "/pre" } else { "" };
        let mut seeds: Vec<Rng> = (0..4).map(|_| rng.fork()).collect();
        let results: Vec<Result<(u64, Vec<u64>, u64), Violation>> = std::thread::scope(|s| {
            let hs: Vec<_> = seeds
                .drain(..)
                .enumerate()
                .map(|(t, mut rng)| {
                    let (runs, srv) = (&runs, &srv);
                    s.spawn(move || -> Result<(u64, Vec<u64>, u64), Violation> {
                        let rng = &mut rng;
                        let mut conn = srv.connect();
                        let (mut steps, mut keys, mut bytes) = (0, vec![], 0);
                        for i in 0..25u64 {
                            let rid = 1 + t as u64 * 1000 + i;
                            let case = gen_case(rng, layers);
                            let (a, b) = (rng.below(100000).to_string(), format!("v{}", rng.below(100)));
                            let path = if pattern == "/w/*" { format!("{pre}/w/one/two") } else { format!("{pre}/k/{a}/s/{b}") };
                            let q = *rng.pick(&["", "?", "?a=1", "?a=1&b=&a=2", "?x=%41+b&y=;"]);
                            let body = gen_body(rng);
                            let mth = crate::spec::method(rng.below(5));
                            let over2 = t == 3;
                            let rids = rid.to_string();
                            let raw = req(mth.as_str(), &format!("{path}{q}"), &[("x-rid", &rids)], &body);
                            let mut headers: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
                            let head = &raw[..find(&raw, b"\r\n\r\n").unwrap()];
                            for l in head.split(|c| *c == b'\n').skip(1) {
                                let l = trim(l.strip_suffix(b"\r").unwrap_or(l));
                                let k = l.iter().position(|c| *c == b':').unwrap();
                                headers.entry(String::from_utf8_lossy(&l[..k]).to_ascii_lowercase()).or_default().push(trim(&l[k + 1..]).to_vec());
                            }
                            let mut params = BTreeMap::new();
                            if pattern != "/w/*" {
                                params.insert("a".to_string(), a);
                                params.insert("b".to_string(), b);
                            }
                            let start = Model {
                                method: mth.to_string(),
                                uri: format!("{path}{q}"),
                                headers,
                                params,
                                data: BTreeMap::new(),
                                body: body.clone(),
                                resp: None,
                                query: query_value(q.trim_start_matches('?').as_bytes()),
                                steps: 0,
                            };
                            let run = Arc::new(Run { case: case.clone(), model: tokio::sync::Mutex::new(None), wrong: Mutex::new(None), start, state, adopt: over2 });
                            runs.lock().unwrap().insert(rid, run.clone());
                            let r = if over2 {
                                h2::one(srv.port, &(mth.to_string(), format!("{path}{q}"), vec![("x-rid".to_string(), rids.clone().into_bytes())], body.clone())).map_err(Ce::Io)
                            } else {
                                conn.roundtrip(&raw)
                            };
                            let r = match r {
                                Ok(r) => r,
                                Err(e) => {
                                    if let Some(w) = run.wrong.lock().unwrap().clone() {
                                        return viol("a context operation did something else than asked", json!({"why": w, "case": describe(&case)}));
                                    }
                                    return lost("a request", e, describe(&case));
                                }
                            };
                            runs.lock().unwrap().remove(&rid);
                            if let Some(w) = run.wrong.lock().unwrap().clone() {
                                return viol("a context operation did something else than asked", json!({"why": w, "case": describe(&case), "path": path}));
                            }
                            let m = match block_on(run.model.lock()).take() {
                                Some(m) => m,
                                None => return viol("the handler did not run", json!({"status": r.status, "path": path})),
                            };
                            let want = m.resp.clone().unwrap_or(MResp { status: 200, headers: BTreeMap::new(), body: vec![] });
                            let got: BTreeMap<String, String> =
                                r.headers.iter().filter(|h| h.0 != "date" && h.0 != "content-length" && h.0 != "connection").map(|h| (h.0.clone(), String::from_utf8_lossy(&h.1).into_owned())).collect();
                            if r.status != want.status || r.body != want.body || !same_headers(&want.headers, &got) {
                                return viol(
                                    "the answer is not the response left in the context",
                                    json!({"status": r.status, "want": want.status, "headers": got, "want_headers": format!("{:?}", want.headers), "body": show(&r.body), "want_body": show(&want.body), "case": describe(&case)}),
                                );
                            }
                            steps += m.steps;
                            bytes += r.body.len() as u64;
                            keys.push(hash_of(&case));
                            if r.will_close() {
                                conn = srv.connect();
                            }
                            // a body nobody read may cost the connection
                            if !m.body.is_empty() {
                                conn = srv.connect();
                            }
                        }
                        Ok((steps, keys, bytes))
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("client")).collect()
        });
        for r in results {
            let (steps, keys, bytes) = r?;
            rep.evals += steps;
            rep.count("operations_served", steps);
            rep.count("answers", keys.len() as u64);
            rep.count("answer_bytes", bytes);
            rep.distinct.extend(keys);
        }
        Ok(())
    });
    cx.need("operations", 20_000);
    cx.need("operations_served", 5_000);
    cx.need("answers", 1_000);
}
