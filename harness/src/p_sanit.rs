//! Workload of C18 that needs no sockets: the library's own code under an undefined-behaviour interpreter.
use crate::core::*;
use crate::p_resp::Own;
use async_trait::async_trait;
use obsidian::context::Context;
use obsidian::middleware::{logger::Logger, Middleware};
use obsidian::router::{from_cow_map, Response, Router};
use obsidian::{header, Body, ContextResult, EndpointExecutor, ObsidianError, Request, StatusCode};
use serde::Deserialize;
use serde_json::Value;
use std::borrow::Cow;
use std::collections::HashMap;
use std::future::Future;
use std::sync::Arc;

struct Mark(String);
struct Mw(u32);
#[async_trait]
impl Middleware for Mw {
    async fn handle<'a>(&'a self, mut c: Context, ex: EndpointExecutor<'a>) -> ContextResult {
        c.add(Mark(format!("{} {}", self.0, c.uri().path())));
        c.headers_mut().append("x-mw", header::HeaderValue::from_static("v"));
        match c.headers().get("x-do").map(|v| v.as_bytes().to_vec()).as_deref() {
            Some(b"early") if self.0 == 2 => return c.build("early").ok(),
            Some(b"yield") => Yield(false).await,
            _ => {}
        }
        let mut r = ex.next(c).await;
        if let Ok(c) = &mut r {
            assert!(c.get::<Mark>().map_or(false, |m| m.0.contains('/')));
            if let Some(r) = c.response_mut() {
                if let Some(h) = r.headers_mut() {
                    h.push((header::SERVER, "s"));
                }
            }
        }
        r
    }
}
struct Yield(bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 {
            return std::task::Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        std::task::Poll::Pending
    }
}
#[derive(Deserialize)]
#[allow(dead_code)]
struct All {
    id: Option<i32>,
    s: Option<String>,
    list: Option<Vec<String>>,
    c: Option<char>,
    f: Option<f32>,
    pair: Option<(u8, String)>,
    #[serde(default)]
    d: String,
}
async fn handler(mut c: Context) -> ContextResult {
    let mut n = c.query_params::<All>().is_ok() as usize + c.query_params::<HashMap<String, Vec<String>>>().map(|m| utf8_map(&m)).unwrap_or(0);
    for k in ["a", "b", "*"] {
        n += c.param::<String>(k).map(|s| utf8(&s) + s.chars().count()).unwrap_or(0);
        n += c.param::<i64>(k).is_ok() as usize;
    }
    n += c.get::<Mark>().map_or(0, |m| m.0.chars().count());
    if let Some(m) = c.get_mut::<Mark>() {
        m.0.push('!');
    }
    let how = c.headers().get("x-do").map(|v| v.as_bytes().to_vec()).unwrap_or_default();
    match &how[..] {
        b"json" => {
            let v: Value = c.json().await?;
            return c.build_json(v).with_header(header::ETAG, "e").ok();
        }
        b"form" => {
            let v: All = match c.form().await {
                Ok(v) => v,
                Err(e) => {
                    utf8(&e.to_string());
                    return Err(e);
                }
            };
            for s in v.s.iter().chain(v.list.iter().flatten()) {
                utf8(s);
            }
            return c.build(format!("{:?} {:?}", v.id, v.s)).with_status(StatusCode::CREATED).ok();
        }
        b"yield" => Yield(false).await,
        b"map" => {
            let m: HashMap<String, Vec<String>> = c.form().await?;
            return c.build(utf8_map(&m).to_string()).ok();
        }
        b"err" => return Err(ObsidianError::GeneralError("e".into())),
        b"panic" => panic!("{DELIBERATE} interpreted"),
        b"static" => return c.build("static").with_headers(vec![(header::ETAG, "1"), (header::ETAG, "2")]).with_headers_str(vec![("x-1", "2")]).ok(),
        b"own" => return c.build(Response::new(Own(Body::from("own"))).html("h")).ok(),
        b"pair" => return c.build((StatusCode::ACCEPTED, "pair")).ok(),
        _ => {}
    }
    let b = hyper::body::to_bytes(c.take_body()).await.map_err(|_| ObsidianError::NoneError)?;
    c.build(format!("{n} {}", b.len())).with_header_str("x-a", "b").ok()
}
fn router() -> Router {
    let mut r = Router::new();
    r.use_service(Mw(1));
    for p in ["/", "/lit", "/literal", "/litany/x", "/é", "/éa/:a", "/日本/:a/b", "/p/:a/:b", "/w/*", "/lit/:a/:b/*", "/l"] {
        r.get(p, handler);
        r.post(p, handler);
    }
    r.use_service_to("/p/:a", Mw(2));
    r.use_service_to("/lit", Logger::new());
    let mut n = Router::new();
    n.use_service(Mw(3));
    n.get("/", handler);
    n.get("/x/:a", handler);
    n.post("/x/:a", handler);
    n.get("/*", handler);
    r.use_router("/nest", n);
    r
}
fn serve(r: &Router, path: &str, rng: &mut Rng, steps: Option<usize>) -> usize {
    let Some(v) = r.search_route(path) else { return 0 };
    let m = if rng.chance(1, 2) { hyper::Method::GET } else { hyper::Method::POST };
    let Some(route) = v.get_route(&m) else { return 0 };
    let how = *rng.pick(&["", "json", "form", "map", "map", "yield", "err", "panic", "static", "own", "pair", "early"]);
    // whatever bytes a client may send
    let wild = |rng: &mut Rng, raw: bool| -> Vec<u8> {
        let mut v = vec![];
        for _ in 0..rng.size(40) {
            match rng.below(8) {
                0 => v.extend_from_slice(b"s="),
                1 => v.push(b'&'),
                2 => v.extend_from_slice(format!("%{:02X}", rng.below(256)).as_bytes()),
                3 => v.extend_from_slice(rng.pick(&["%", "%4", "%zz", "+", "list=", "c=", "id=", "%F0%9F%98%80", "%E3%83"]).as_bytes()),
                4 if raw => v.push(rng.below(256) as u8),
                5 if raw => v.extend_from_slice("é日😀".as_bytes()),
                _ => v.push(b'a' + rng.below(26) as u8),
            }
        }
        v
    };
    let mut q = rng.pick(&["", "id=1&s=a%20b&list=1&list=2&c=x", "id=x", "c=%C3%A9&f=1.5&pair=1&pair=b", "a=&&=b&%FF=%00", "d=1&d=2"]).to_string();
    if rng.chance(1, 2) {
        q = String::from_utf8(wild(rng, false)).unwrap();
    }
    let mut body: Vec<u8> = rng.pick(&[&b""[..], b"{\"a\":[1,2,{\"b\":\"\\u00e9\"}]}", b"id=5&s=%F0%9F%98%80&list=a", b"{", b"\xff\xfe", b"s=+&c=ab"]).to_vec();
    if rng.chance(1, 2) {
        body = wild(rng, true);
    }
    let uri = format!("http://h/x?{q}");
    let rq = Request::builder().method(m).uri(uri).header("x-do", how).header("x-v", &b"\xe9"[..]).body(Body::from(body)).unwrap();
    let mut c = Context::new(rq, v.get_params());
    c.add(Arc::new(String::from("state")));
    let run = async {
        let ex = EndpointExecutor::new(&route.handler, v.get_middlewares());
        match ex.next(c).await {
            Ok(c) => match c.take_response() {
                Some(r) => {
                    let h: usize = r.headers().as_ref().map_or(0, |h| h.iter().map(|x| x.1.chars().count() + x.0.as_str().len()).sum());
                    let b = hyper::body::to_bytes(r.body()).await.unwrap();
                    h + b.iter().map(|&x| x as usize & 1).sum::<usize>()
                }
                None => 1,
            },
            Err(e) => e.to_string().chars().count(),
        }
    };
    match steps {
        None => std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| block_on(run))).unwrap_or(2),
        Some(k) => {
            // abandoned after a few steps
            let mut f = Box::pin(run);
            let w = std::task::Waker::noop();
            let mut cx = std::task::Context::from_waker(w);
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                for _ in 0..k {
                    if f.as_mut().poll(&mut cx).is_ready() {
                        break;
                    }
                }
            }));
            3
        }
    }
}
fn path(rng: &mut Rng) -> String {
    let base = *rng.pick(&["/", "/lit", "/literal", "/litany/x", "/é", "/éa/v", "/日本/v/b", "/p/1/2", "/w/a/b/c", "/lit/1/2/r", "/nest", "/nest/x/9", "/nest/zzz", "/l", "/none"]);
    let mut v: Vec<char> = base.chars().collect();
    if rng.chance(2, 5) {
        let k = rng.below(v.len());
        match rng.below(4) {
            0 => v[k] = *rng.pick(&['è', '日', '/', 'x', 'é', '\u{1F600}']),
            1 => {
                v.remove(k);
            }
            2 => v.insert(k, v[k]),
            _ => v.truncate(k),
        }
    }
    v.into_iter().collect()
}
/// Prints how much was done; the verdict is the interpreter's.
pub fn interpreted(seed: u64, scale: u64) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut rng = Rng::new(seed);
    let mut n = 0u64;
    let mut paths = std::collections::HashSet::new();
    let r = Arc::new(router());
    for _ in 0..60 * scale {
        let p = path(&mut rng);
        let steps = rng.chance(1, 5).then(|| rng.range(0, 3));
        serve(&r, &p, &mut rng, steps);
        paths.insert(p);
        n += 1;
    }
    // decoding alone
    for _ in 0..15 * scale {
        let mut m: HashMap<Cow<str>, Cow<[String]>> = HashMap::new();
        for _ in 0..rng.below(5) {
            let k = *rng.pick(&["id", "s", "list", "c", "f", "pair", "d", "é"]);
            let v: Vec<String> = (0..rng.below(4)).map(|_| rng.pick(&["1", "", "é", "-5", "1e3", "true"]).to_string()).collect();
            m.insert(Cow::Borrowed(k), Cow::Owned(v));
        }
        let _ = from_cow_map::<All, _>(&m).is_ok();
        let _ = from_cow_map::<HashMap<String, Vec<String>>, _>(&m).is_ok();
        let _ = from_cow_map::<HashMap<String, i32>, _>(&m).is_ok();
        let _ = from_cow_map::<String, _>(&m).is_ok();
        n += 4;
    }
    // the same tree from several threads
    let hs: Vec<_> = (0..3)
        .map(|t| {
            let r = r.clone();
            let mut rng = rng.fork();
            std::thread::spawn(move || {
                let r2 = (*r).clone();
                for i in 0..12 * scale {
                    let p = path(&mut rng);
                    let steps = rng.chance(1, 6).then(|| rng.range(0, 2));
                    serve(if (i + t) % 3 == 0 { &r2 } else { &r }, &p, &mut rng, steps);
                }
                12 * scale
            })
        })
        .collect();
    for h in hs {
        n += h.join().expect("thread");
    }
    println!("INTERPRETED {n} operations {} paths", paths.len());
}
