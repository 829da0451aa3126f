//! C08: what the handler built is what the client gets. C09: responders and builders.
use crate::core::*;
use crate::p_slow::Slow;
use crate::h2;
use crate::http::*;
use async_trait::async_trait;
use obsidian::context::Context;
use obsidian::header::HeaderName;
use obsidian::middleware::Middleware;
use obsidian::router::{Responder, Response, ResponseBody};
use obsidian::{App, Body, ContextResult, EndpointExecutor, ObsidianError, StatusCode};
use serde::ser::{Serialize, Serializer};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::{Arc, Mutex, OnceLock};

/// Header names and values must be 'static; equal ones are shared.
pub fn intern(s: &str) -> &'static str {
    static P: OnceLock<Mutex<HashSet<&'static str>>> = OnceLock::new();
    let mut g = P.get_or_init(Default::default).lock().unwrap();
    match g.get(s) {
        Some(x) => x,
        None => {
            let l: &'static str = Box::leak(s.to_string().into_boxed_str());
            g.insert(l);
            l
        }
    }
}
pub fn hname(s: &str) -> HeaderName {
    HeaderName::from_bytes(s.as_bytes()).expect("own header name")
}

/// A body type of the application's own.
pub struct Own(pub Body);
impl ResponseBody for Own {
    fn into_body(self) -> Body {
        self.0
    }
}

// ------------------------------------------------------------------ C08
#[derive(Clone, Debug, Hash)]
enum Payload {
    Empty,
    Text(String),
    Bytes(Vec<u8>),
    /// pieces sent one by one
    Stream(Vec<Vec<u8>>),
}
impl Payload {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Payload::Empty => vec![],
            Payload::Text(s) => s.as_bytes().to_vec(),
            Payload::Bytes(b) => b.clone(),
            Payload::Stream(p) => p.concat(),
        }
    }
    fn body(&self) -> Own {
        Own(match self {
            Payload::Empty => Body::empty(),
            Payload::Text(s) => Body::from(s.clone()),
            Payload::Bytes(b) => Body::from(b.clone()),
            Payload::Stream(p) => {
                let (mut tx, b) = Body::channel();
                let p = p.clone();
                tokio::spawn(async move {
                    for x in p {
                        if tx.send_data(x.into()).await.is_err() {
                            break;
                        }
                        tokio::task::yield_now().await;
                    }
                });
                b
            }
        })
    }
}
#[derive(Clone, Debug, Hash)]
struct Built {
    status: u16,
    headers: Vec<(&'static str, &'static str)>,
    body: Payload,
    /// which API sets the headers
    how: u8,
}
#[derive(Clone, Debug, Hash)]
enum Plan {
    Built(Built),
    Nothing,
    Error(u8, String),
    /// handler builds one thing, a middleware in front edits or replaces it
    Edited(Built, Vec<(&'static str, &'static str)>, Option<u16>),
    Replaced(Built, Built),
}
fn build(ctx: Context, b: &Built) -> ContextResult {
    let st = StatusCode::from_u16(b.status).unwrap();
    match b.how {
        0 => {
            let mut r = Response::new(b.body.body());
            for (k, v) in &b.headers {
                r = r.set_header(hname(k), v);
            }
            ctx.build(r.set_status(st)).ok()
        }
        1 => {
            let mut r = ctx.build(Response::new(b.body.body())).with_status(st);
            for (k, v) in &b.headers {
                r = r.with_header_str(k, v);
            }
            r.ok()
        }
        2 => {
            let k = b.headers.len() / 2;
            ctx.build(Response::ok().set_body(b.body.body()).with_headers_str(b.headers[..k].to_vec()))
                .with_headers(b.headers[k..].iter().map(|h| (hname(h.0), h.1)).collect())
                .with_status(st)
                .ok()
        }
        _ => {
            let mut ctx = ctx;
            let mut r = Response::new(b.body.body());
            *r.status_mut() = st;
            *r.headers_mut() = Some(b.headers.iter().map(|h| (hname(h.0), h.1)).collect());
            *ctx.response_mut() = Some(r);
            Ok(ctx)
        }
    }
}
fn err_of(k: u8, s: &str) -> ObsidianError {
    match k {
        0 => ObsidianError::GeneralError(s.into()),
        1 => ObsidianError::ParamError(s.into()),
        2 => ObsidianError::FormError(obsidian::router::FormError::Message(s.into())),
        3 => serde_json::from_str::<u32>(s).map(|_| ObsidianError::NoneError).unwrap_or_else(|e| e.into()),
        4 => ObsidianError::FormError(obsidian::router::FormError::NoneError),
        _ => ObsidianError::NoneError,
    }
}
type Plans = Arc<Mutex<HashMap<u64, Plan>>>;
struct Editor(Plans);
fn plan_of(p: &Plans, ctx: &Context) -> Plan {
    let rid = crate::spec::rid_of(ctx).unwrap();
    p.lock().unwrap()[&rid].clone()
}
#[async_trait]
impl Middleware for Editor {
    async fn handle<'a>(&'a self, ctx: Context, ex: EndpointExecutor<'a>) -> ContextResult {
        let plan = plan_of(&self.0, &ctx);
        let mut c = ex.next(ctx).await?;
        match plan {
            Plan::Edited(_, hs, st) => {
                if let Some(r) = c.response_mut() {
                    if let Some(s) = st {
                        *r.status_mut() = StatusCode::from_u16(s).unwrap();
                    }
                    let add = hs.iter().map(|h| (hname(h.0), h.1));
                    match r.headers_mut() {
                        Some(h) => h.extend(add),
                        x => *x = Some(add.collect()),
                    }
                }
                Ok(c)
            }
            Plan::Replaced(_, b) => build(c, &b),
            _ => Ok(c),
        }
    }
}
async fn planned(ctx: Context, plans: Plans) -> ContextResult {
    match plan_of(&plans, &ctx) {
        Plan::Built(b) | Plan::Edited(b, ..) | Plan::Replaced(b, _) => build(ctx, &b),
        Plan::Nothing => Ok(ctx),
        Plan::Error(k, s) => Err(err_of(k, &s)),
    }
}
fn sendable(v: &str) -> bool {
    v.bytes().all(|b| (b >= 32 && b != 127) || b == b'\t')
}
/// Status, headers, body the client must see; None for the body: not judged.
fn outcome(p: &Plan) -> (u16, BTreeMap<String, Vec<u8>>, Option<Vec<u8>>) {
    let of = |b: &Built, more: &[(&'static str, &'static str)], st: Option<u16>| {
        let hs = b.headers.iter().chain(more);
        if hs.clone().any(|h| !sendable(h.1)) {
            return (500, BTreeMap::new(), None);
        }
        let mut m = BTreeMap::new();
        for (k, v) in hs {
            m.insert(k.to_ascii_lowercase(), trim(v.as_bytes()).to_vec());
        }
        let st = st.unwrap_or(b.status);
        let body = if st == 204 || st == 304 { vec![] } else { b.body.bytes() };
        (st, m, Some(body))
    };
    match p {
        Plan::Built(b) => of(b, &[], None),
        Plan::Edited(b, h, s) => of(b, h, *s),
        Plan::Replaced(_, b) => of(b, &[], None),
        Plan::Nothing => (200, BTreeMap::new(), Some(vec![])),
        Plan::Error(k, s) => (500, BTreeMap::new(), Some(err_of(*k, s).to_string().into_bytes())),
    }
}
const NAMES: [&str; 22] = [
    "content-type", "x-a", "X-B", "set-cookie", "location", "cache-control", "etag", "server", "x-powered-by", "vary", "access-control-allow-origin", "date",
    "www-authenticate", "link", "retry-after", "x-request-id", "expires", "last-modified", "allow", "content-language", "strict-transport-security", "x-frame-options",
];
fn gen_name(rng: &mut Rng) -> &'static str {
    match rng.below(5) {
        0 => {
            let n = rng.range(1, 20);
            let s: String = (0..n).map(|_| *rng.pick(&['a', 'b', 'z', '0', '-', '_', '!', '~'])).collect();
            intern(&format!("y{s}"))
        }
        1 => rng.pick(&["x-a", "X-A", "x-b", "content-type"]),
        _ => rng.pick(&NAMES),
    }
}
fn gen_value(rng: &mut Rng) -> &'static str {
    match rng.below(10) {
        0 => "",
        1 => "text/html",
        2 => intern(&"v".repeat(rng.size(4000))),
        3 => rng.pick(&[" padded ", "\ttab\t", "a, b, c", "a=\"b\"; c", "x: y", "é", "ノ🦀", "~", "(comment)"]),
        _ => intern(&format!("v{}", rng.below(200))),
    }
}
const UNSENDABLE: [&str; 7] = ["a\nb", "a\r\nx-injected: 1", "\0", "\u{7f}", "a\u{1}b", "ok\n", "\u{1b}[0m"];
fn gen_payload(rng: &mut Rng) -> Payload {
    let max = if rng.chance(1, 15) { 3 << 20 } else { 40_000 };
    match rng.below(8) {
        0 => Payload::Empty,
        1 | 2 => {
            let n = rng.size(max.min(100_000));
            Payload::Text((0..n).map(|_| *rng.pick(&['a', '\n', '\r', 'é', '🦀', '\0', '<', '"'])).collect())
        }
        3 | 4 => Payload::Text(rng.pick(&["", "404 Not Found", "0\r\n\r\n", "HTTP/1.1 200 OK\r\ncontent-length: 0\r\n\r\n", "{}", "\u{feff}x"]).to_string()),
        5 => {
            let k = rng.size(40);
            let ps = (0..k)
                .map(|_| {
                    let n = rng.size(5000);
                    rand_bytes(rng, n)
                })
                .collect();
            Payload::Stream(ps)
        }
        _ => {
            let n = rng.size(max);
            Payload::Bytes(rand_bytes(rng, n))
        }
    }
}
pub fn rand_bytes(rng: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        v.extend_from_slice(&rng.next().to_le_bytes());
    }
    v.truncate(n);
    v
}
fn gen_status(rng: &mut Rng) -> u16 {
    match rng.below(4) {
        0 => *rng.pick(&[200, 204, 304, 404, 500, 302, 205, 999, 600, 451, 206]),
        1 => rng.range(200, 999) as u16,
        _ => *rng.pick(&[200, 201, 400, 401, 403, 418, 503]),
    }
}
fn gen_built(rng: &mut Rng) -> Built {
    let k = match rng.below(20) {
        0 => rng.size(90),
        _ => rng.below(6),
    };
    Built {
        status: gen_status(rng),
        headers: (0..k).map(|_| (gen_name(rng), gen_value(rng))).collect(),
        body: gen_payload(rng),
        how: rng.below(4) as u8,
    }
}
fn gen_plan(rng: &mut Rng) -> Plan {
    match rng.below(20) {
        0 => Plan::Nothing,
        1 | 2 => {
            let n = rng.size(20_000);
            let s = match rng.below(4) {
                0 => String::new(),
                1 => "x".repeat(n),
                2 => "é\r\n\r\n🦀".into(),
                _ => format!("failure {}", rng.below(1000)),
            };
            Plan::Error(rng.below(6) as u8, s)
        }
        3 => {
            let mut b = gen_built(rng);
            // the value that cannot be sent is the last one of its name
            b.headers.push(("x-bad", *rng.pick(&UNSENDABLE)));
            if rng.chance(1, 2) {
                b.headers.rotate_right(1);
            }
            Plan::Built(b)
        }
        4 | 5 => {
            let b = gen_built(rng);
            let k = rng.below(4);
            let hs = (0..k).map(|_| if !b.headers.is_empty() && rng.chance(1, 2) { (rng.pick(&b.headers).0, gen_value(rng)) } else { (gen_name(rng), gen_value(rng)) }).collect();
            Plan::Edited(b, hs, if rng.chance(1, 2) { Some(gen_status(rng)) } else { None })
        }
        6 => Plan::Replaced(gen_built(rng), gen_built(rng)),
        _ => Plan::Built(gen_built(rng)),
    }
}
fn check_resp(r: &Resp, p: &Plan, proto: &str) -> Result<(), Violation> {
    let (st, hs, body) = outcome(p);
    let d = |x: Value| {
        let mut s = format!("{p:?}");
        if s.len() > 1500 {
            s = show(s.as_bytes());
        }
        json!({"built": s, "protocol": proto, "client": x, "status": r.status})
    };
    if r.status != st {
        return viol("the client got another status", d(json!({"expected": st})));
    }
    for (k, v) in &hs {
        let got = r.all(k);
        if got.len() != 1 || trim(got[0]) != &v[..] {
            return viol("the client got another header value", d(json!({"name": k, "expected": show(v), "observed": got.iter().map(|g| show(g)).collect::<Vec<_>>()})));
        }
    }
    if body.is_some() {
        let auto = ["date", "content-length", "transfer-encoding", "connection", "content-type"];
        for (k, v) in &r.headers {
            if !hs.contains_key(k) && (!auto.contains(&k.as_str()) || (k == "content-type")) {
                return viol("the client got a header nobody set", d(json!({"name": k, "value": show(v)})));
            }
        }
    }
    // a bodiless status with a body is out of line with HTTP/2 itself; hyper sends it
    let body = if proto == "HTTP/2" && (st == 204 || st == 304) { None } else { body };
    if let Some(b) = body {
        if r.body != b {
            let at = r.body.iter().zip(&b).position(|(a, b)| a != b).unwrap_or(r.body.len().min(b.len()));
            return viol("the client got another body", d(json!({"expected_len": b.len(), "observed_len": r.body.len(), "first_difference": at, "observed": show(&r.body)})));
        }
    }
    Ok(())
}
pub fn c08(cx: &Arc<Cx>) {
    cx.rule("handlers build random responses (status 200-999, 0-90 headers through every header API, text/binary/streamed bodies up to 3 MB, values that cannot be sent), return errors or nothing, or have their response edited or replaced by middleware; HTTP/1.1, 1.0 and HTTP/2 clients compare status, headers and body; beside that, requests that take up to 31 s (thorough: 122 s) in every such place; an evaluation is one response received; non-trivial: it carried a header, a body, an error or an edit");
    cx.assume("1xx statuses and the framing headers content-length, transfer-encoding and connection are left to hyper and not set by handlers");
    cx.plan(2);
    let slow = crate::p_slow::start(cx, &[Slow::Handler, Slow::Stream, Slow::Reader, Slow::Error], false);
    cx.cases("wire", cx.n(640), 8, |rng, _, rep| {
        let plans: Plans = Default::default();
        let srv = Server::start(|| {
            let mut a: App = App::new();
            a.use_service(Editor(plans.clone()));
            let p = plans.clone();
            a.get("/r", move |c: Context| planned(c, p.clone()));
            let p = plans.clone();
            a.post("/r", move |c: Context| planned(c, p.clone()));
            a
        })?;
        let mut c = srv.connect();
        for k in 0..25 {
            let plan = gen_plan(rng);
            let rid = crate::spec::next_rid();
            plans.lock().unwrap().insert(rid, plan.clone());
            let ridh = rid.to_string();
            let trivial = matches!(&plan, Plan::Built(b) if b.headers.is_empty() && b.body.bytes().is_empty());
            rep.eval(if trivial { None } else { Some(hash_of(&plan)) });
            let (r, proto) = match rng.below(10) {
                0 => {
                    let mut c0 = srv.connect();
                    let ka = rng.chance(1, 2);
                    let q = format!("GET /r HTTP/1.0\r\nx-rid: {ridh}\r\n{}\r\n", if ka { "connection: keep-alive\r\n" } else { "" });
                    c0.send(q.as_bytes()).ok();
                    rep.count("http10", 1);
                    (c0.read_response(false).map_err(|e| format!("{e:?}")), "HTTP/1.0")
                }
                1 => {
                    let st = outcome(&plan).0;
                    if !(200..600).contains(&st) && st != 999 {
                        // any three digit status is fine in HTTP/2 too; keep all
                    }
                    rep.count("http2", 1);
                    (
                        h2::one(srv.port, &("GET".into(), "/r".into(), vec![("x-rid".into(), ridh.into_bytes())], vec![])),
                        "HTTP/2",
                    )
                }
                _ => {
                    let r = if k % 5 == 4 {
                        c.roundtrip(&req("POST", "/r", &[("x-rid", &ridh)], b"some body"))
                    } else {
                        c.roundtrip(&req("GET", "/r", &[("x-rid", &ridh)], b""))
                    };
                    rep.count("http11", 1);
                    (r.map_err(|e| format!("{e:?}")), "HTTP/1.1")
                }
            };
            plans.lock().unwrap().remove(&rid);
            let r = match r {
                Ok(r) => r,
                Err(e) => return viol("the client got no complete response", json!({"client_saw": e, "protocol": proto, "built": show(format!("{plan:?}").as_bytes())})),
            };
            check_resp(&r, &plan, proto)?;
            rep.count("bytes_compared", r.body.len() as u64);
            rep.count("headers_compared", r.headers.len() as u64);
            match &plan {
                Plan::Error(..) => rep.count("errors", 1),
                Plan::Nothing => rep.count("no_response", 1),
                Plan::Edited(..) | Plan::Replaced(..) => rep.count("edited", 1),
                Plan::Built(b) if b.headers.iter().any(|h| !sendable(h.1)) => rep.count("unsendable", 1),
                Plan::Built(Built { body: Payload::Stream(_), .. }) => rep.count("streamed", 1),
                _ => {}
            }
            if proto == "HTTP/1.1" && r.will_close() {
                c = srv.connect();
            }
        }
        Ok(())
    });
    slow.finish(cx);
    cx.need("http11", 1000);
    cx.need("http2", 100);
    cx.need("unsendable", 50);
    cx.need("streamed", 100);
    cx.need("errors", 100);
    cx.need("edited", 100);
}

// ------------------------------------------------------------------ C09
struct Bad;
impl Serialize for Bad {
    fn serialize<S: Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("will not serialize"))
    }
}
#[derive(Clone, Debug, Hash, PartialEq)]
enum B {
    Unit,
    Str(&'static str),
    Text(String),
    Bytes(Vec<u8>),
}
#[derive(Clone, Debug)]
enum J {
    Val(Value),
    Bad,
    BadMap,
}
#[derive(Clone, Debug)]
enum Start {
    Text(String),
    Str(&'static str),
    Unit,
    Status(u16),
    Pair(u16, B),
    OptS(Option<String>),
    OptStr(Option<&'static str>),
    Bytes(Vec<u8>),
    /// Responder::with_* on a body value
    Via(B, Vec<Op>),
    Ok,
    Created,
    Ise,
    New(B),
}
#[derive(Clone, Debug)]
enum Op {
    Status(u16),
    Hdr(&'static str, &'static str),
    HdrStr(&'static str, &'static str),
    Hdrs(Vec<(&'static str, &'static str)>),
    HdrsStr(Vec<(&'static str, &'static str)>),
    Ctype(&'static str),
    Body(B),
    Html(B),
    Json(J),
    File(Option<Vec<u8>>),
}
#[derive(Clone, Debug, Default, PartialEq)]
struct Want {
    status: u16,
    headers: BTreeMap<String, String>,
    body: WBody,
    /// content-type of the start value is not laid down
    free_ct: bool,
}
#[derive(Clone, Debug, PartialEq)]
enum WBody {
    Exact(Vec<u8>),
    Json(Value),
    Any,
}
impl Default for WBody {
    fn default() -> Self {
        WBody::Exact(vec![])
    }
}
fn bval(b: &B) -> WBody {
    match b {
        B::Unit => WBody::Exact(vec![]),
        B::Str(s) => WBody::Exact(s.as_bytes().to_vec()),
        B::Text(s) => WBody::Exact(s.as_bytes().to_vec()),
        B::Bytes(v) => WBody::Json(json!(v)),
    }
}
fn w_op(w: &mut Want, op: &Op) {
    let mut h = |k: &str, v: &str| {
        w.headers.insert(k.to_ascii_lowercase(), v.to_string());
    };
    match op {
        Op::Status(s) => w.status = *s,
        Op::Hdr(k, v) | Op::HdrStr(k, v) => h(k, v),
        Op::Hdrs(v) | Op::HdrsStr(v) => v.iter().for_each(|(k, v)| h(k, v)),
        Op::Ctype(v) => h("content-type", v),
        Op::Body(b) => w.body = bval(b),
        Op::Html(b) => {
            h("content-type", "text/html");
            w.body = bval(b)
        }
        Op::Json(j) => {
            h("content-type", "application/json");
            match j {
                J::Val(v) => w.body = WBody::Json(v.clone()),
                _ => {
                    w.body = WBody::Any;
                    w.status = 500
                }
            }
        }
        Op::File(Some(c)) => w.body = WBody::Exact(c.clone()),
        Op::File(None) => {
            w.body = WBody::Any;
            w.status = 404
        }
    }
    if w.headers.contains_key("content-type") {
        w.free_ct = false;
    }
}
fn w_start(s: &Start) -> Want {
    let mut w = Want { status: 200, ..Default::default() };
    match s {
        Start::Text(s) => {
            w.body = WBody::Exact(s.clone().into_bytes());
            w.headers.insert("content-type".into(), "text/plain; charset=utf-8".into());
        }
        Start::Str(s) => {
            w.body = WBody::Exact(s.as_bytes().to_vec());
            w.headers.insert("content-type".into(), "text/plain; charset=utf-8".into());
        }
        Start::Unit => {}
        Start::Status(s) => w.status = *s,
        Start::Pair(s, b) => {
            w.status = *s;
            w.body = bval(b);
            w.free_ct = true;
        }
        Start::OptS(None) | Start::OptStr(None) => {
            w.status = 404;
            w.body = WBody::Exact(b"Not Found".to_vec());
            w.free_ct = true;
        }
        Start::OptS(Some(s)) => return w_start(&Start::Text(s.clone())),
        Start::OptStr(Some(s)) => return w_start(&Start::Str(s)),
        Start::Bytes(v) => {
            w.body = WBody::Json(json!(v));
            w.free_ct = true;
        }
        Start::Via(b, ops) => {
            w.body = bval(b);
            w.free_ct = true;
            for o in ops {
                w_op(&mut w, o);
            }
        }
        Start::Ok => {}
        Start::Created => w.status = 201,
        Start::Ise => w.status = 500,
        Start::New(b) => w.body = bval(b),
    }
    w
}
fn sc(s: u16) -> StatusCode {
    StatusCode::from_u16(s).unwrap()
}
fn hv(v: &[(&'static str, &'static str)]) -> Vec<(HeaderName, &'static str)> {
    v.iter().map(|h| (hname(h.0), h.1)).collect()
}
macro_rules! with_b {
    ($b:expr, |$x:ident| $e:expr) => {
        match $b.clone() {
            B::Unit => {
                let $x = ();
                $e
            }
            B::Str($x) => $e,
            B::Text($x) => $e,
            B::Bytes($x) => $e,
        }
    };
}
struct FileAt(Option<String>);
fn file_for(c: &Option<Vec<u8>>) -> FileAt {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let n = N.fetch_add(1, Ordering::Relaxed);
    let p = format!("{}/f{n}", scratch());
    if let Some(c) = c {
        std::fs::write(&p, c).expect("scratch file");
        FileAt(Some(p))
    } else {
        FileAt(Some(p + "-missing"))
    }
}
impl Drop for FileAt {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(self.0.as_ref().unwrap());
    }
}
async fn r_op(mut r: Response, op: &Op, alt: bool) -> Response {
    match op {
        Op::Status(s) => match alt {
            true => {
                *r.status_mut() = sc(*s);
                r
            }
            _ => r.set_status(sc(*s)),
        },
        Op::Hdr(k, v) => r.set_header(hname(k), v),
        Op::HdrStr(k, v) => r.set_header_str(k, v),
        Op::Hdrs(v) => r.set_headers(hv(v)),
        Op::HdrsStr(v) => r.set_headers_str(v.clone()),
        Op::Ctype(v) => r.set_content_type(v),
        Op::Body(b) => with_b!(b, |x| r.set_body(x)),
        Op::Html(b) => with_b!(b, |x| r.html(x)),
        Op::Json(J::Val(v)) => r.json(v),
        Op::Json(J::Bad) => r.json(Bad),
        Op::Json(J::BadMap) => r.json(BTreeMap::from([(vec![1], 2)])),
        Op::File(c) => {
            let f = file_for(c);
            let r = r.file(f.0.as_ref().unwrap()).await;
            drop(f);
            r
        }
    }
}
/// The inherent `with_*` spellings.
fn r_alias(r: Response, op: &Op) -> Option<Response> {
    Some(match op {
        Op::Status(s) => Response::with_status(r, sc(*s)),
        Op::Hdr(k, v) => Response::with_header(r, hname(k), v),
        Op::HdrStr(k, v) => r.with_header_str(k, v),
        Op::Hdrs(v) => Response::with_headers(r, hv(v)),
        Op::HdrsStr(v) => Response::with_headers_str(r, v.clone()),
        _ => return None,
    })
}
fn via(b: &B, first: &Op) -> Response {
    // one trait call turns the value into a Response
    with_b!(b, |x| match first {
        Op::Status(s) => Responder::with_status(x, sc(*s)),
        Op::Hdr(k, v) | Op::HdrStr(k, v) => Responder::with_header(x, hname(k), v),
        Op::Hdrs(v) => Responder::with_headers(x, hv(v)),
        Op::HdrsStr(v) => Responder::with_headers_str(x, v.clone()),
        _ => unreachable!(),
    })
}
fn mk_ctx(rid: u32) -> Context {
    Context::new(
        obsidian::Request::builder().uri("/x").header("x-rid", rid).body(Body::empty()).unwrap(),
        HashMap::from([("p".to_string(), rid.to_string())]),
    )
}
/// Runs the program on the real builders.
async fn run(ctx: Context, s: &Start, pre: &[Op], post: &[Op], alias: bool) -> ContextResult {
    let mut r: Option<Response> = None;
    let start_resp = |s: &Start| -> Option<Response> {
        Some(match s {
            Start::Ok => Response::ok(),
            Start::Created => Response::created(),
            Start::Ise => Response::internal_server_error(),
            Start::New(b) => with_b!(b, |x| Response::new(x)),
            Start::Via(b, ops) => via(b, &ops[0]),
            _ => return None,
        })
    };
    if let Some(x) = start_resp(s) {
        r = Some(x);
    } else if !pre.is_empty() {
        r = Some(match s.clone() {
            Start::Text(s) => s.respond_to(),
            Start::Str(s) => s.respond_to(),
            Start::Unit => ().respond_to(),
            Start::Status(s) => sc(s).respond_to(),
            Start::Pair(s, b) => pair(s, b),
            Start::OptS(s) => s.respond_to(),
            Start::OptStr(s) => s.respond_to(),
            Start::Bytes(v) => v.respond_to(),
            _ => unreachable!(),
        });
    }
    let mut b = match r {
        Some(mut r) => {
            if let Start::Via(_, ops) = s {
                for o in &ops[1..] {
                    r = r_op(r, o, alias).await;
                }
            }
            for o in pre {
                r = if alias && !matches!(o, Op::Body(_) | Op::Html(_) | Op::Json(_) | Op::File(_) | Op::Ctype(_)) {
                    r_alias(r, o).unwrap()
                } else {
                    r_op(r, o, alias).await
                };
            }
            ctx.build(r)
        }
        None => match s.clone() {
            Start::Text(s) => ctx.build(s),
            Start::Str(s) => ctx.build(s),
            Start::Unit => ctx.build(()),
            Start::Status(s) => ctx.build(sc(s)),
            Start::Pair(s, b) => match b {
                B::Unit => ctx.build((sc(s), ())),
                B::Str(x) => ctx.build((sc(s), x)),
                B::Text(x) => ctx.build((sc(s), x)),
                B::Bytes(x) => ctx.build((sc(s), x)),
            },
            Start::OptS(s) => ctx.build(s),
            Start::OptStr(s) => ctx.build(s),
            Start::Bytes(v) => ctx.build(v),
            _ => unreachable!(),
        },
    };
    for o in post {
        b = match o {
            Op::Status(s) => b.with_status(sc(*s)),
            Op::Hdr(k, v) => b.with_header(hname(k), v),
            Op::HdrStr(k, v) => b.with_header_str(k, v),
            Op::Hdrs(v) => b.with_headers(hv(v)),
            Op::HdrsStr(v) => b.with_headers_str(v.clone()),
            _ => b,
        };
    }
    b.ok()
}
fn pair(s: u16, b: B) -> Response {
    with_b!(b, |x| (sc(s), x).respond_to())
}
fn gen_text(rng: &mut Rng) -> String {
    match rng.below(5) {
        0 => String::new(),
        1 => {
            let n = rng.size(3000);
            (0..n).map(|_| *rng.pick(&['a', 'é', '🦀', '"', '\\', '\n', '\0'])).collect()
        }
        _ => format!("text {}", rng.below(1000)),
    }
}
fn gen_b(rng: &mut Rng) -> B {
    match rng.below(5) {
        0 => B::Unit,
        1 => B::Str(intern(&format!("s{}", rng.below(100)))),
        2 => {
            let n = rng.size(600);
            B::Bytes(rand_bytes(rng, n))
        }
        _ => B::Text(gen_text(rng)),
    }
}
pub fn gen_json(rng: &mut Rng, depth: usize) -> Value {
    match rng.below(if depth > 0 { 9 } else { 6 }) {
        0 => Value::Null,
        1 => json!(rng.chance(1, 2)),
        2 => match rng.below(4) {
            0 => json!(rng.next()),
            1 => json!(rng.next() as i64),
            2 => json!((rng.next() as i32) as f64 / 64.0),
            _ => json!(rng.below(100)),
        },
        3 | 4 | 5 => json!(gen_text(rng).chars().take(200).collect::<String>()),
        6 | 7 => {
            let n = rng.below(6);
            Value::Array((0..n).map(|_| gen_json(rng, depth - 1)).collect())
        }
        _ => {
            let n = rng.below(6);
            Value::Object((0..n).map(|i| (format!("k{}{}", i, rng.pick(&["", "é", "\"", " "])), gen_json(rng, depth - 1))).collect())
        }
    }
}
fn gen_hs(rng: &mut Rng) -> Vec<(&'static str, &'static str)> {
    let k = match rng.below(12) {
        0 => 0,
        1 => rng.size(60),
        _ => rng.range(1, 4),
    };
    (0..k).map(|_| (gen_lname(rng), gen_value(rng))).collect()
}
/// set_header_str takes names as they are
fn gen_lname(rng: &mut Rng) -> &'static str {
    if rng.chance(1, 3) {
        *rng.pick(&["x-a", "x-b", "content-type", "X-A"])
    } else {
        gen_name(rng)
    }
}
fn gen_hop(rng: &mut Rng) -> Op {
    match rng.below(5) {
        0 => Op::Status(gen_status(rng)),
        1 => Op::Hdr(gen_lname(rng), gen_value(rng)),
        2 => Op::HdrStr(gen_lname(rng), gen_value(rng)),
        3 => Op::Hdrs(gen_hs(rng)),
        _ => Op::HdrsStr(gen_hs(rng)),
    }
}
fn gen_op(rng: &mut Rng) -> Op {
    match rng.below(10) {
        0..=4 => gen_hop(rng),
        5 => Op::Ctype(gen_value(rng)),
        6 => Op::Body(gen_b(rng)),
        7 => Op::Html(gen_b(rng)),
        8 => Op::Json(match rng.below(8) {
            0 => J::Bad,
            1 => J::BadMap,
            _ => J::Val(gen_json(rng, 3)),
        }),
        _ if rng.chance(1, 4) => Op::File(if rng.chance(1, 3) {
            None
        } else {
            let n = rng.size(5000);
            Some(rand_bytes(rng, n))
        }),
        _ => Op::Status(gen_status(rng)),
    }
}
fn gen_start(rng: &mut Rng) -> Start {
    match rng.below(13) {
        0 => Start::Text(gen_text(rng)),
        1 => Start::Str(intern(&format!("s{}", rng.below(100)))),
        2 => Start::Unit,
        3 => Start::Status(gen_status(rng)),
        4 => Start::Pair(gen_status(rng), gen_b(rng)),
        5 => Start::OptS(if rng.chance(1, 2) { Some(gen_text(rng)) } else { None }),
        6 => Start::OptStr(if rng.chance(1, 2) { Some(intern("opt")) } else { None }),
        7 => {
            let n = rng.size(2000);
            Start::Bytes(rand_bytes(rng, n))
        }
        8 => {
            let n = rng.range(1, 4);
            let mut ops = vec![gen_hop(rng)];
            ops.extend((1..n).map(|_| gen_op(rng)));
            Start::Via(gen_b(rng), ops)
        }
        9 => Start::Ok,
        10 => Start::Created,
        11 => Start::Ise,
        _ => Start::New(gen_b(rng)),
    }
}
fn effective(h: &Option<Vec<(HeaderName, &'static str)>>) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for (k, v) in h.iter().flatten() {
        m.insert(k.as_str().to_string(), v.to_string());
    }
    m
}
fn same(w: &Want, status: u16, mut headers: BTreeMap<String, String>, body: &[u8]) -> Result<(), String> {
    if status != w.status {
        return Err(format!("status {status}, expected {}", w.status));
    }
    if w.free_ct {
        headers.remove("content-type");
    }
    if headers != w.headers {
        let k = headers.iter().find(|(k, v)| w.headers.get(*k) != Some(v)).or_else(|| w.headers.iter().find(|(k, v)| headers.get(*k) != Some(v)));
        return Err(format!("headers differ at {k:?}"));
    }
    match &w.body {
        WBody::Any => Ok(()),
        WBody::Exact(b) if b == body => Ok(()),
        WBody::Json(v) if serde_json::from_slice::<Value>(body).ok().as_ref() == Some(v) => Ok(()),
        x => Err(format!("body {}, expected {}", show(body), show(format!("{x:?}").as_bytes()))),
    }
}
fn short<T: std::fmt::Debug>(t: &T) -> String {
    show(format!("{t:?}").as_bytes())
}
pub fn c09(cx: &Arc<Cx>) {
    cx.rule("random programs over every responder value and every Response/ResponseBuilder/Responder builder method, run in-process (status, effective headers, body of the finished response) and served; compared with a left-to-right reference; an evaluation is one program; non-trivial: two or more builder calls or a non-default value");
    cx.assume("the content type of values other than text and JSON, and of status-value pairs, is not laid down and not judged unless the program sets it");
    cx.plan(2);
    let gen = |rng: &mut Rng| {
        let s = gen_start(rng);
        let n = |rng: &mut Rng| match rng.below(12) {
            0 => rng.size(40),
            _ => rng.below(5),
        };
        let (a, b) = (n(rng), n(rng));
        let pre: Vec<Op> = (0..a).map(|_| gen_op(rng)).collect();
        let post: Vec<Op> = (0..b).map(|_| gen_hop(rng)).collect();
        let mut w = w_start(&s);
        pre.iter().chain(&post).for_each(|o| w_op(&mut w, o));
        (s, pre, post, w)
    };
    cx.cases("inproc", cx.n(500_000), 8, |rng, i, rep| {
        // build_json / build_file shortcuts
        if rng.chance(1, 12) {
            let post: Vec<Op> = (0..rng.below(4)).map(|_| gen_hop(rng)).collect();
            let first = if rng.chance(1, 2) {
                Op::Json(if rng.chance(1, 6) { J::Bad } else { J::Val(gen_json(rng, 4)) })
            } else {
                let n = rng.size(100_000);
                Op::File(if rng.chance(1, 4) { None } else { Some(rand_bytes(rng, n)) })
            };
            let mut w = w_start(&Start::Ok);
            w_op(&mut w, &first);
            post.iter().for_each(|o| w_op(&mut w, o));
            let c = mk_ctx(7);
            let mut b = match &first {
                Op::Json(J::Val(v)) => c.build_json(v),
                Op::Json(_) => c.build_json(Bad),
                Op::File(f) => {
                    let f = file_for(f);
                    let b = block_on(c.build_file(f.0.as_ref().unwrap()));
                    drop(f);
                    b
                }
                _ => unreachable!(),
            };
            for o in &post {
                b = match o {
                    Op::Status(s) => b.with_status(sc(*s)),
                    Op::Hdr(k, v) => b.with_header(hname(k), v),
                    Op::HdrStr(k, v) => b.with_header_str(k, v),
                    Op::Hdrs(v) => b.with_headers(hv(v)),
                    Op::HdrsStr(v) => b.with_headers_str(v.clone()),
                    _ => b,
                };
            }
            rep.count("shortcuts", 1);
            rep.eval(Some(hash_of(&short(&(&first, &post)))));
            let r = b.ok().ok().and_then(|c| c.take_response());
            let Some(r) = r else { return viol("a built response is missing", json!({"program": short(&(&first, &post))})) };
            let (st, hs) = (r.status().as_u16(), effective(r.headers()));
            let body = block_on(hyper::body::to_bytes(r.body())).unwrap();
            if let Err(e) = same(&w, st, hs, &body) {
                return viol("a response shortcut built something else", json!({"why": e, "program": short(&(&first, &post))}));
            }
            return Ok(());
        }
        let (s, pre, post, w) = gen(rng);
        let alias = rng.chance(1, 2);
        let nontrivial = pre.len() + post.len() > 1 || !matches!(s, Start::Ok | Start::Unit);
        rep.eval(if nontrivial { Some(hash_of(&short(&(&s, &pre, &post)))) } else { None });
        rep.count("builder_calls", (pre.len() + post.len()) as u64);
        let d = || json!({"value": short(&s), "on_response": short(&pre), "on_builder": short(&post)});
        match block_on(run(mk_ctx(i as u32), &s, &pre, &post, alias)) {
            Err(e) => return viol("building a response failed", json!({"error": e.to_string(), "program": d()})),
            Ok(c) => {
                // the request of the context is untouched
                if crate::spec::rid_of(&c) != Some(i) || c.param::<u32>("p").ok() != Some(i as u32) || c.uri().path() != "/x" {
                    return viol("building a response changed the request", d());
                }
                let Some(r) = c.take_response() else { return viol("a built response is missing", d()) };
                let (st, hs) = (r.status().as_u16(), effective(r.headers()));
                let body = block_on(hyper::body::to_bytes(r.body())).unwrap();
                if let Err(e) = same(&w, st, hs, &body) {
                    return viol("a builder program built something else", json!({"why": e, "program": d()}));
                }
            }
        }
        rep.sample = Some(d());
        Ok(())
    });
    cx.cases("wire", cx.n(600), 8, |rng, _, rep| {
        let programs: Arc<Mutex<HashMap<u64, (Start, Vec<Op>, Vec<Op>)>>> = Default::default();
        let srv = Server::start(|| {
            let mut a: App = App::new();
            let p = programs.clone();
            a.get("/r", move |c: Context| {
                let (s, pre, post) = p.lock().unwrap()[&crate::spec::rid_of(&c).unwrap()].clone();
                async move { run(c, &s, &pre, &post, false).await }
            });
            a
        })?;
        let mut c = srv.connect();
        for _ in 0..25 {
            let (s, pre, post, w) = gen(rng);
            if w.status == 204 || w.status == 304 {
                continue;
            }
            let rid = crate::spec::next_rid();
            let d = json!({"value": short(&s), "on_response": short(&pre), "on_builder": short(&post)});
            programs.lock().unwrap().insert(rid, (s, pre, post));
            rep.eval(Some(rid));
            rep.count("served_programs", 1);
            let r = match c.roundtrip(&req("GET", "/r", &[("x-rid", &rid.to_string())], b"")) {
                Ok(r) => r,
                Err(e) => return lost("a built response", e, d),
            };
            let mut w = w;
            for v in w.headers.values_mut() {
                *v = String::from_utf8(trim(v.as_bytes()).to_vec()).unwrap();
            }
            let mut hs = BTreeMap::new();
            for (k, v) in &r.headers {
                let auto = ["date", "content-length", "connection", "transfer-encoding"].contains(&k.as_str());
                if !auto || w.headers.contains_key(k) {
                    hs.insert(k.clone(), String::from_utf8_lossy(v).into_owned());
                }
            }
            if let Err(e) = same(&w, r.status, hs, &r.body) {
                return viol("a builder program was answered with something else", json!({"why": e, "program": d}));
            }
            if r.will_close() {
                c = srv.connect();
            }
        }
        Ok(())
    });
    cx.need("builder_calls", 5000);
    cx.need("shortcuts", 200);
    cx.need("served_programs", 300);
}
