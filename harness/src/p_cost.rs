//! C28: what a request costs is in proportion to its size.
use crate::core::*;
use crate::http::*;
use crate::p_resp::Own;
use async_trait::async_trait;
use hyper::Body;
use obsidian::context::Context;
use obsidian::middleware::logger::Logger;
use obsidian::middleware::Middleware;
use obsidian::router::{from_cow_map, Response, Router};
use obsidian::{App, ContextResult, EndpointExecutor, Method, Request, StatusCode};
use serde::Deserialize;
use serde_json::{json, Value};
use std::borrow::Cow;
use std::collections::HashMap;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- measuring
fn clock(which: libc::clockid_t) -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(which, &mut t) };
    t.tv_sec as f64 * 1e6 + t.tv_nsec as f64 / 1e3
}
fn thread_us() -> f64 {
    clock(libc::CLOCK_THREAD_CPUTIME_ID)
}
fn process_us() -> f64 {
    clock(libc::CLOCK_PROCESS_CPUTIME_ID)
}
/// CPU time of one call in microseconds: the least of a few batches.
fn cost(f: &mut dyn FnMut()) -> f64 {
    let t = thread_us();
    f();
    let once = thread_us() - t;
    if once > 300_000.0 {
        return once;
    }
    let per = (1500.0 / once.max(0.05)).clamp(1.0, 5000.0) as usize;
    let mut best = once;
    for _ in 0..4 {
        let t = thread_us();
        for _ in 0..per {
            f();
        }
        best = best.min((thread_us() - t) / per as f64);
    }
    best
}
/// The same for the whole process: other threads' time is accounted in coarse steps.
fn cost_of_all(f: &mut dyn FnMut()) -> f64 {
    let mut best = f64::MAX;
    f();
    for _ in 0..2 {
        let t = process_us();
        let mut n = 0;
        loop {
            f();
            n += 1;
            let spent = process_us() - t;
            if spent > 60_000.0 {
                best = best.min(spent / n as f64);
                break;
            }
        }
    }
    best
}
type Make<'a> = Box<dyn FnMut(usize) -> Box<dyn FnMut() + 'a> + 'a>;
/// Measures at growing sizes. The cost may grow with the given power of the size.
fn grows(what: &str, measured: fn(&mut dyn FnMut()) -> f64, n0: usize, doublings: u32, power: f64, d: &Value, make: &mut Make, rep: &mut Rep) -> Result<(), Violation> {
    const SLACK: f64 = 10.0;
    let mut at: Vec<(usize, f64)> = vec![];
    let measure = |n: usize, make: &mut Make| {
        let mut f = make(n);
        measured(&mut *f)
    };
    for k in 0..=doublings {
        let n = n0 << k;
        let mut t = measure(n, make);
        let bound = |at: &[(usize, f64)]| {
            at.iter()
                .map(|(m, u)| {
                    let r = (n as f64 / *m as f64).powf(power);
                    // very short ones are mostly the cost of measuring
                    u.max(0.2) * r * SLACK
                })
                .fold(f64::MAX, f64::min)
        };
        // a busy machine can make a measurement worse, not better
        for _ in 0..3 {
            if t <= bound(&at) {
                break;
            }
            t = t.min(measure(n, make));
            for x in at.iter_mut() {
                x.1 = x.1.max(measure(x.0, make));
            }
        }
        at.push((n, t));
        if t > bound(&at[..at.len() - 1]) {
            return viol(
                format!("the cost of {what} grows out of proportion"),
                json!({"case": d, "microseconds_at_size": at.iter().map(|(n, t)| json!([n, t])).collect::<Vec<_>>(), "allowed_power": power}),
            );
        }
        rep.count("measurements", 1);
    }
    if std::env::var_os("VERIF_COST").is_some() {
        let (a, b) = (at[0], at[at.len() - 1]);
        eprintln!("COST {what} power {power}: {:.1} us at {} -> {:.1} us at {}: {:.2} of what is proportional", a.1, a.0, b.1, b.0, b.1 / a.1 / (b.0 as f64 / a.0 as f64).powf(power));
    }
    rep.eval(Some(hash_of(&(what, d.to_string()))));
    rep.sample = Some(json!({"what": what, "case": d, "microseconds_at_size": at}));
    Ok(())
}

// ---------------------------------------------------------------- routing
async fn plain(c: Context) -> ContextResult {
    c.build("x").ok()
}
struct Pass;
#[async_trait]
impl Middleware for Pass {
    async fn handle<'a>(&'a self, c: Context, ex: EndpointExecutor<'a>) -> ContextResult {
        ex.next(c).await
    }
}
fn word(rng: &mut Rng) -> String {
    (0..rng.range(1, 6)).map(|_| (b'a' + rng.below(26) as u8) as char).collect()
}
fn search(r: Router, path: String) -> Box<dyn FnMut()> {
    Box::new(move || {
        let v = r.search_route(&path);
        if let Some(v) = &v {
            std::hint::black_box(v.get_params());
            std::hint::black_box(v.get_route(&Method::GET).is_some());
        }
        std::hint::black_box(v.is_some());
    })
}
const ROUTING: usize = 12;
fn routing(kind: usize, rng: &mut Rng, rep: &mut Rep) -> Result<(), Violation> {
    let w: Vec<String> = (0..8).map(|_| word(rng)).collect();
    let hit = rng.chance(1, 2);
    let way = rng.below(6);
    let mut r = rng.fork();
    let d = json!({"kind": kind, "way": way, "words": w, "found": hit});
    let d2 = d.clone();
    let (what, n0, k, power, mut make): (&str, usize, u32, f64, Make) = match kind {
        0 => ("a path of many segments", 500, 5, 1.0, Box::new(move |n| {
            let mut t = Router::new();
            if hit {
                t.get("/*", plain);
            }
            t.get(&format!("/{}", w[0]), plain);
            t.get(&format!("/{}/:p/*", w[1]), plain);
            search(t, (0..n).map(|i| format!("/{}", w[1 + i % 7])).collect())
        })),
        1 => ("a path of many slashes", 2000, 5, 1.0, Box::new(move |n| {
            let mut t = Router::new();
            t.get(&format!("/{}/:p", w[0]), plain);
            t.get("/*", plain);
            search(t, format!("/{}{}{}", w[0], "/".repeat(n), if hit { &w[1][..] } else { "x/y/z" }))
        })),
        2 => ("a path with a long segment", 2000, 5, 1.0, Box::new(move |n| {
            let mut t = Router::new();
            let under = if hit { "/u" } else { "" };
            t.get(&format!("{under}/{}", w[0]), plain);
            t.get(&format!("{under}/{}{}", w[0], w[1]), plain);
            if hit {
                t.get("/v/:p", plain);
            }
            let unit = ["a", "%2F", "%C3%A9", ".", "é", "0"][way];
            search(t, format!("{}/{}{}", if way % 2 == 0 { under } else { "/v" }, w[0], unit.repeat(n)))
        })),
        3 => ("a literal of many shared beginnings", 32, 4, 2.0, Box::new(move |n| {
            let mut t = Router::new();
            let mut s = String::from("/");
            for i in 0..n {
                s.push_str(&w[i % 8]);
                t.get(&s, plain);
            }
            if !hit {
                s.push('~');
            }
            search(t, s)
        })),
        4 => ("routing among many siblings", 100, 5, 1.0, Box::new(move |n| {
            let mut t = Router::new();
            for i in 0..n {
                t.get(&format!("/s/{i}{}", w[i % 8]), plain);
            }
            search(t, if hit { format!("/s/{}{}", n / 2, w[n / 2 % 8]) } else { "/s/~~".into() })
        })),
        5 | 6 | 7 | 8 => {
            // at each level other routes begin; some of them lead nowhere
            let style = kind - 5;
            let leads = r.chance(1, 2);
            let choice: Vec<u64> = (0..64).map(|_| r.next()).collect();
            ("a deep path", 6, if style == 2 { 5 } else { 6 }, 2.0, Box::new(move |n| {
                let mut t = Router::new();
                let (mut route, mut path) = (String::new(), String::new());
                for i in 0..n {
                    let c = choice[i % 64];
                    let kind = match style {
                        0 => 0,
                        1 => 1,
                        2 => 2,
                        _ => c % 3,
                    };
                    let x = &w[i % 8];
                    let here = route.clone();
                    match kind {
                        // literals, beside them others
                        0 => {
                            t.get(&format!("{here}/{}-/{x}", w[(i + 1) % 8]), plain);
                            route.push_str(&format!("/{x}"));
                        }
                        // parameters
                        1 => {
                            t.get(&format!("{here}/:q"), plain);
                            route.push_str("/:q");
                        }
                        // literals that others begin with
                        _ => {
                            t.get(&format!("{here}/{x}{x}/no"), plain);
                            t.get(&format!("{here}/{x}~/no"), plain);
                            route.push_str(&format!("/{x}"));
                        }
                    }
                    if leads && i + 1 < n && kind != 1 && c & 8 == 0 {
                        t.get(&format!("{here}/*"), plain);
                    }
                    path.push_str(&format!("/{x}"));
                }
                t.get(&format!("{route}/end"), plain);
                search(t, format!("{path}/{}", if hit { "end" } else { "other" }))
            }))
        }
        9 => ("a path of many parameters", 4, 6, 2.0, Box::new(move |n| {
            let mut t = Router::new();
            t.get(&(0..n).map(|i| format!("/:p{i}")).collect::<String>(), plain);
            search(t, (0..n).map(|i| format!("/{}", w[i % 8])).collect())
        })),
        10 => ("routing in a wide tree", 4, 7, 1.0, Box::new(move |n| {
            // two literals at each level, all paths ending elsewhere
            let depth = n.trailing_zeros() as usize;
            let mut t = Router::new();
            for m in 0..n {
                let p: String = (0..depth).map(|i| format!("/{}{}", w[i % 8], if m >> i & 1 == 1 { "~" } else { "" })).collect();
                t.get(&format!("{p}/end{m}"), plain);
            }
            search(t, format!("{}/{}", (0..depth).map(|i| format!("/{}", w[i % 8])).collect::<String>(), if hit { "end0" } else { "other" }))
        })),
        _ => ("a chain of middleware", 20, 5, 1.0, Box::new(move |n| {
            let mut t = Router::new();
            for i in 0..n {
                match i % 3 {
                    0 => t.use_service(Pass),
                    1 => t.use_service_to("/a", Pass),
                    _ => t.use_service_to("/a/b", Pass),
                }
            }
            t.get("/a/b", plain);
            Box::new(move || {
                let v = t.search_route("/a/b").unwrap();
                let route = v.get_route(&Method::GET).unwrap();
                let out = block_on(EndpointExecutor::new(&route.handler, v.get_middlewares()).next(Context::new(Request::new(Body::empty()), v.get_params())));
                assert!(out.is_ok());
            })
        })),
    };
    grows(what, cost, n0, k, power, &d2, &mut make, rep)
}

// ---------------------------------------------------------------- decoding and building
#[allow(dead_code)]
#[derive(Deserialize)]
struct Few {
    #[serde(default)]
    a: Vec<String>,
    #[serde(default)]
    n: Vec<i64>,
    #[serde(default)]
    one: Option<String>,
}
struct Pieces(std::vec::IntoIter<Result<Vec<u8>, std::io::Error>>);
impl futures_core::Stream for Pieces {
    type Item = Result<Vec<u8>, std::io::Error>;
    fn poll_next(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<Option<Self::Item>> {
        std::task::Poll::Ready(self.0.next())
    }
}
type All = HashMap<String, Vec<String>>;
const TEXTS: usize = 12;
/// `n` bytes or so of a query, and whether it is judged as a map or as a struct.
fn text(kind: usize, n: usize, rng: &mut Rng) -> (String, bool) {
    let pairs = |f: &mut dyn FnMut(usize) -> String| {
        let mut s = String::with_capacity(n + 64);
        let mut i = 0;
        while s.len() < n {
            if i > 0 {
                s.push('&');
            }
            s.push_str(&f(i));
            i += 1;
        }
        s
    };
    match kind {
        0 => (pairs(&mut |i| format!("k{i}={i}")), true),
        1 => (pairs(&mut |i| format!("a={i}")), false),
        2 => (pairs(&mut |i| format!("n={}", i as i64 - 50)), false),
        3 => (pairs(&mut |i| format!("other{i}={i}")), false),
        4 => (format!("one={}", "x".repeat(n)), false),
        5 => (format!("one={}", ["%41", "%C3%A9", "+", "é", "%", "%zz"][rng.below(6)].repeat(n / 3)), false),
        6 => (pairs(&mut |i| format!("{}{i}={i}", "long".repeat(20))), true),
        7 => ("&".repeat(n), true),
        8 => (pairs(&mut |i| format!("k{i}=")), true),
        9 => (pairs(&mut |i| if i % 2 == 0 { format!("a={i}") } else { format!("n={i}") }), false),
        10 => (format!("{}=1", "name".repeat(n / 4)), true),
        _ => (pairs(&mut |i| format!("k{}={i}", i % 97)), true),
    }
}
fn decoding(kind: usize, rng: &mut Rng, rep: &mut Rep) -> Result<(), Violation> {
    let way = rng.below(5);
    let mut r = rng.fork();
    let pieces = *rng.pick(&[1usize, 16, 4096]);
    let d = json!({"text": kind, "way": way, "piece": pieces});
    let (n0, k) = if way < 2 { (1800, 5) } else { (8000, 6) };
    let what = ["decoding a query", "decoding a query", "decoding a form", "decoding a form in pieces", "decoding a map of values"][way];
    let mut make: Make = Box::new(move |n| {
        let (t, map) = text(kind, n, &mut r);
        match way {
            0 | 1 => {
                let t: String = t.chars().filter(char::is_ascii).collect();
                let uri: hyper::Uri = format!("/?{t}").parse().unwrap();
                Box::new(move || {
                    let mut q = Request::new(Body::empty());
                    *q.uri_mut() = uri.clone();
                    let mut c = Context::new(q, HashMap::new());
                    if map {
                        std::hint::black_box(c.query_params::<All>().unwrap());
                    } else {
                        std::hint::black_box(c.query_params::<Few>().map(|_| ()).ok());
                    }
                })
            }
            2 | 3 => Box::new(move || {
                let body = if way == 2 {
                    Body::from(t.clone())
                } else {
                    let v: Vec<Result<Vec<u8>, std::io::Error>> = t.as_bytes().chunks(pieces.max(t.len() / 2000)).map(|c| Ok(c.to_vec())).collect();
                    Body::wrap_stream(Pieces(v.into_iter()))
                };
                let mut c = Context::new(Request::new(body), HashMap::new());
                if map {
                    std::hint::black_box(block_on(c.form::<All>()).unwrap());
                } else {
                    std::hint::black_box(block_on(c.form::<Few>()).map(|_| ()).ok());
                }
            }),
            _ => {
                let mut m: HashMap<Cow<'static, str>, Cow<'static, [String]>> = HashMap::new();
                for p in t.split('&') {
                    let (k, v) = p.split_once('=').unwrap_or((p, ""));
                    m.entry(Cow::Owned(k.to_string())).or_insert_with(|| Cow::Owned(vec![])).to_mut().push(v.to_string());
                }
                Box::new(move || {
                    if map {
                        std::hint::black_box(from_cow_map::<All, _>(&m).unwrap());
                    } else {
                        std::hint::black_box(from_cow_map::<Few, _>(&m).map(|_| ()).ok());
                    }
                })
            }
        }
    });
    grows(what, cost, n0, k, 1.0, &d, &mut make, rep)
}
fn document(kind: usize, n: usize) -> Value {
    match kind {
        0 => json!((0..n / 8).collect::<Vec<_>>()),
        1 => Value::Object((0..n / 12).map(|i| (format!("k{i}"), json!(i))).collect()),
        2 => json!("é\"\\\n".repeat(n / 6)),
        3 => json!((0..n / 40).map(|i| json!({"id": i, "name": format!("n{i}"), "tags": ["a", null, true]})).collect::<Vec<_>>()),
        _ => json!("x".repeat(n)),
    }
}
fn documents(kind: usize, rng: &mut Rng, rep: &mut Rep) -> Result<(), Violation> {
    let way = rng.below(4);
    let d = json!({"document": kind, "way": way});
    let what = ["decoding JSON", "building JSON", "building a response", "building JSON in a handler"][way];
    let mut make: Make = Box::new(move |n| {
        let v = document(kind, n);
        let s = v.to_string();
        match way {
            0 => Box::new(move || {
                let mut c = Context::new(Request::new(Body::from(s.clone())), HashMap::new());
                std::hint::black_box(block_on(c.json::<Value>()).unwrap());
            }),
            1 => Box::new(move || {
                drop(std::hint::black_box(Response::ok().json(&v).body()));
            }),
            2 => {
                let b = s.clone().into_bytes();
                Box::new(move || {
                    std::hint::black_box(Response::new(s.clone()).set_body(b.clone()).html(s.clone()));
                })
            }
            _ => Box::new(move || {
                let c = Context::new(Request::new(Body::empty()), HashMap::new());
                std::hint::black_box(c.build_json(&v).with_status(StatusCode::CREATED).ok().unwrap());
            }),
        }
    });
    grows(what, cost, 4000, 6, 1.0, &d, &mut make, rep)
}
fn names(n: usize) -> Vec<(hyper::header::HeaderName, &'static str)> {
    (0..n).map(|i| (hyper::header::HeaderName::from_bytes(format!("x-h{i}").as_bytes()).unwrap(), "v")).collect()
}
fn headers(rng: &mut Rng, rep: &mut Rep) -> Result<(), Violation> {
    let way = rng.below(3);
    let d = json!({"way": way});
    let mut make: Make = Box::new(move |n| {
        let h = names(n);
        Box::new(move || {
            let c = Context::new(Request::new(Body::empty()), HashMap::new());
            let out = match way {
                0 => c.build("x").with_headers(h.clone()).ok(),
                1 => h.iter().fold(c.build("x"), |b, (k, v)| b.with_header(k.clone(), v)).ok(),
                _ => c.build(h.iter().fold(Response::ok(), |b, (k, v)| b.set_header(k.clone(), v))).ok(),
            };
            std::hint::black_box(out.unwrap());
        })
    });
    grows("setting many headers", cost, 100, 6, 1.0, &d, &mut make, rep)
}

// ---------------------------------------------------------------- whole exchanges
async fn whole(mut c: Context) -> ContextResult {
    let n: usize = c.headers().get("x-n").and_then(|v| v.to_str().ok()).and_then(|s| s.parse().ok()).unwrap_or(0);
    match c.param::<String>("what").unwrap_or_default().as_str() {
        "read" => {
            let b = hyper::body::to_bytes(c.take_body()).await.unwrap();
            c.build(format!("{}", b.len())).ok()
        }
        "echo" => {
            let b = c.take_body();
            c.build(Response::new(Own(b))).ok()
        }
        "form" => {
            let f = c.form::<All>().await?;
            c.build(format!("{}", f.len())).ok()
        }
        "query" => {
            let f = c.query_params::<All>()?;
            c.build(format!("{}", f.len())).ok()
        }
        "json" => {
            let f = c.json::<Value>().await?;
            c.build_json(f).ok()
        }
        "text" => c.build("é".repeat(n / 2)).ok(),
        "bytes" => c.build(vec![7u8; n / 2]).ok(),
        "headers" => c.build("x").with_headers(names(n)).ok(),
        "same" => c.build("x").with_headers((0..n).map(|_| (obsidian::header::SERVER, "v")).collect()).ok(),
        "pieces" => {
            let (mut tx, b) = Body::channel();
            tokio::spawn(async move {
                for _ in 0..n / 16 {
                    if tx.send_data("0123456789abcdef".into()).await.is_err() {
                        break;
                    }
                }
            });
            c.build(Response::new(Own(b))).ok()
        }
        _ => c.build("?").with_status(StatusCode::NOT_FOUND).ok(),
    }
}
fn whole_app(logger: bool, dir: &str) -> App {
    let mut a: App = App::new();
    if logger {
        a.use_service(Logger::new());
    }
    a.use_service(Pass);
    macro_rules! all {
        ($p:expr, $h:expr) => {
            a.get($p, $h);
            a.post($p, $h);
        };
    }
    all!("/w/:what", whole);
    all!("/", plain);
    all!("/p/*", plain);
    a.use_static_to("/f", dir.strip_prefix(scratch()).unwrap());
    a
}
const WHOLE: usize = 17;
fn exchanges(kind: usize, rng: &mut Rng, rep: &mut Rep) -> Result<(), Violation> {
    let logger = rng.chance(1, 3);
    let dir = format!("{}/cost-{}", scratch(), rng.next());
    std::fs::create_dir_all(&dir).unwrap();
    let srv = Server::start(|| whole_app(logger, &dir))?;
    let port = srv.port;
    let piece = *rng.pick(&[100usize, 5000]);
    let d = json!({"kind": kind, "logger": logger});
    // a request of about n bytes, or for about n bytes, and the least and the number of sizes
    let (what, n0, k): (&str, usize, u32) = match kind {
        0 => ("an uploaded body", 20_000, 6),
        1 => ("an uploaded body in chunks", 20_000, 5),
        2 => ("a body sent back", 20_000, 6),
        3 => ("a form", 10_000, 6),
        4 => ("a query", 1_800, 5),
        5 => ("a JSON document there and back", 10_000, 5),
        6 => ("a text", 20_000, 6),
        7 => ("an array", 20_000, 5),
        8 => ("a response with many headers", 100, 5),
        9 => ("a response with a header set many times", 100, 5),
        10 => ("a response in many pieces", 8_000, 5),
        11 => ("a file", 50_000, 6),
        12 => ("a file not found", 1_000, 5),
        13 => ("a path below a wildcard", 1_000, 5),
        14 => ("a long header", 4_000, 5),
        15 => ("requests in a row", 20, 5),
        _ => ("connections", 10, 5),
    };
    let failed: Arc<Mutex<Option<String>>> = Arc::default();
    let f2 = failed.clone();
    let which = rng.below(2) * 11;
    let mut r = rng.fork();
    let dir2 = dir.clone();
    let mut make: Make = Box::new(move |n| {
        let (bytes, want) = match kind {
            0 => (req("POST", "/w/read", &[], &vec![b'x'; n]), 200),
            1 => {
                let mut v = req("POST", "/w/read", &[("transfer-encoding", "chunked")], b"");
                v.extend_from_slice(&chunked(&vec![b'x'; n], &vec![piece; n / piece]));
                (v, 200)
            }
            2 => (req("POST", "/w/echo", &[], &vec![b'x'; n]), 200),
            3 => (req("POST", "/w/form", &[], text(which, n, &mut r).0.as_bytes()), 200),
            4 => (req("GET", &format!("/w/query?{}", text(0, n, &mut r).0), &[], b""), 200),
            5 => (req("POST", "/w/json", &[], document(3, n).to_string().as_bytes()), 200),
            6 => (req("GET", "/w/text", &[("x-n", &n.to_string())], b""), 200),
            7 => (req("GET", "/w/bytes", &[("x-n", &n.to_string())], b""), 200),
            8 => (req("GET", "/w/headers", &[("x-n", &n.to_string())], b""), 200),
            9 => (req("GET", "/w/same", &[("x-n", &n.to_string())], b""), 200),
            10 => (req("GET", "/w/pieces", &[("x-n", &n.to_string())], b""), 200),
            11 => {
                std::fs::write(format!("{dir2}/{n}"), vec![b'f'; n]).unwrap();
                (req("GET", &format!("/f/{n}"), &[], b""), 200)
            }
            12 => (req("GET", &format!("/f{}", "/n".repeat(n / 2)), &[], b""), 404),
            13 => (req("GET", &format!("/p{}", "/n".repeat(n / 2)), &[], b""), 200),
            14 => (req("GET", "/", &[("x-long", &"v".repeat(n))], b""), 200),
            _ => (req("GET", "/", &[], b""), 200),
        };
        let failed = f2.clone();
        let mut conn = Conn::open(port);
        Box::new(move || {
            let exchange = |conn: &mut Conn| -> Result<(), String> {
                // the answer comes while the request is still being sent
                let mut tx = conn.s.try_clone().map_err(|e| e.to_string())?;
                let r = if bytes.len() > 100_000 {
                    std::thread::scope(|s| {
                        let t = s.spawn(|| tx.write_all(&bytes).map_err(|e| e.to_string()));
                        let r = conn.read_response(false).map_err(|e| format!("{e:?}"));
                        t.join().unwrap()?;
                        r
                    })
                } else {
                    tx.write_all(&bytes).map_err(|e| e.to_string())?;
                    conn.read_response(false).map_err(|e| format!("{e:?}"))
                }?;
                if r.status != want {
                    return Err(format!("status {}", r.status));
                }
                Ok(())
            };
            let res = match kind {
                15 => (0..n).try_for_each(|_| exchange(&mut conn)),
                16 => (0..n).try_for_each(|_| exchange(&mut Conn::open(port))),
                _ => exchange(&mut conn),
            };
            if let Err(e) = res {
                failed.lock().unwrap().get_or_insert(format!("at {n}: {e}"));
                conn = Conn::open(port);
            }
        })
    });
    let out = grows(what, cost_of_all, n0, k, 1.0, &d, &mut make, rep);
    drop(make);
    let _ = std::fs::remove_dir_all(&dir);
    if let Some(e) = failed.lock().unwrap().take() {
        return viol(format!("{what} fails"), json!({"case": d, "why": e}));
    }
    out
}

// ---------------------------------------------------------------- age
/// CPU time of a request, after ever more of them and among ever more connections.
fn ageing(cx: &Cx, rng: &mut Rng, rep: &mut Rep) -> Result<(), Violation> {
    let logger = rng.chance(1, 4);
    let dir = format!("{}/cost-{}", scratch(), rng.next());
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(format!("{dir}/f.txt"), b"file").unwrap();
    let srv = Server::start(|| whole_app(logger, &dir))?;
    let port = srv.port;
    let mut probe = Conn::open(port);
    let mut k = 0u64;
    let mut bad: Option<String> = None;
    let mut measure = |probe: &mut Conn, bad: &mut Option<String>| {
        let t = process_us();
        let n = 4000;
        for _ in 0..n {
            k += 1;
            let (target, want) = match k % 5 {
                0 => (format!("/w/query?a={k}"), 200),
                1 => ("/f/f.txt".to_string(), 200),
                2 => (format!("/nowhere/{k}"), 404),
                3 => (format!("/p/{k}"), 200),
                _ => ("/".to_string(), 200),
            };
            match probe.roundtrip(&req("GET", &target, &[], b"")) {
                Ok(r) if r.status == want => {}
                r => {
                    bad.get_or_insert(format!("{target}: {:?}", r.map(|r| r.status)));
                    *probe = Conn::open(port);
                }
            }
        }
        (process_us() - t) / n as f64
    };
    measure(&mut probe, &mut bad);
    let young = measure(&mut probe, &mut bad).max(measure(&mut probe, &mut bad));
    let mut seen = vec![json!(["young", young])];
    let mut idle: Vec<Conn> = vec![];
    let salt = rng.next() >> 40;
    for (what, n) in [("requests", cx.n(100_000).min(800_000)), ("idle connections", (fd_limit() / 2).saturating_sub(1000).min(3_000)), ("closed connections", cx.n(4_000).min(15_000))] {
        match what {
            "requests" => {
                let served = AtomicU64::new(0);
                std::thread::scope(|s| {
                    for t in 0..8u64 {
                        let served = &served;
                        s.spawn(move || {
                            let mut c = Conn::open(port);
                            let mut i = 0;
                            while i < n / 8 {
                                // a few at a time
                                let mut b = vec![];
                                for j in 0..25 {
                                    let id = salt * 1_000_000 + t * (n / 8) + i + j;
                                    let target = match j % 4 {
                                        0 => format!("/w/query?k{id}={id}"),
                                        1 => format!("/p/{id}/{id}"),
                                        2 => format!("/none/{id}"),
                                        _ => format!("/f/{id}"),
                                    };
                                    b.extend(req("GET", &target, &[("x-id", &id.to_string())], b""));
                                }
                                i += 25;
                                if c.send(&b).is_err() {
                                    return;
                                }
                                for _ in 0..25 {
                                    if c.read_response(false).is_err() {
                                        return;
                                    }
                                    served.fetch_add(1, Ordering::Relaxed);
                                }
                            }
                        });
                    }
                });
                rep.count("aged_by_requests", served.load(Ordering::Relaxed));
            }
            "idle connections" => {
                for _ in 0..n {
                    if let Some(c) = Conn::try_open(port) {
                        idle.push(c);
                    }
                }
                for c in idle.iter_mut() {
                    let _ = c.roundtrip(&req("GET", "/", &[], b""));
                }
                rep.count("idle_connections", idle.len() as u64);
            }
            _ => {
                idle.clear();
                for _ in 0..n {
                    if let Some(mut c) = Conn::try_open(port) {
                        let _ = c.roundtrip(&req("GET", "/p/x", &[], b""));
                        rep.count("closed_connections", 1);
                    }
                }
            }
        }
        let mut now = measure(&mut probe, &mut bad);
        for _ in 0..3 {
            if now <= young * 2.5 {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(500));
            now = now.min(measure(&mut probe, &mut bad));
        }
        seen.push(json!([what, n, now]));
        if let Some(e) = bad.take() {
            return viol("requests fail with age", json!({"after": seen, "why": e}));
        }
        if now > young * 2.5 + 15.0 {
            return viol(format!("requests cost more after {what}"), json!({"microseconds_per_request": seen}));
        }
        rep.count("ages", 1);
    }
    let _ = std::fs::remove_dir_all(&dir);
    if std::env::var_os("VERIF_COST").is_some() {
        eprintln!("COST age {seen:?}");
    }
    rep.eval(Some(hash_of(&salt)));
    rep.sample = Some(json!({"microseconds_per_request": seen}));
    Ok(())
}
pub fn c28(cx: &Arc<Cx>) {
    cx.rule("CPU time is measured at 4-7 doublings of the size: of routing (long, deep, wide and misleading trees and paths), of decoding queries, forms, value maps and JSON, of building responses, of middleware chains, and of whole exchanges over sockets; it may grow in proportion to the size (to its square where the tree of routes grows with the path), with a factor of 10 for machines and caches, and each measurement beyond is repeated; and the CPU time of a mix of requests is compared before and after a hundred thousand requests, among thousands of idle connections, and after thousands of closed ones; an evaluation is one family of sizes or one ageing server; distinct: families and their variants");
    cx.assume("CPU time, not time: waiting is judged by C24 and C27");
    cx.plan(3);
    std::env::set_current_dir(scratch()).expect("scratch");
    let rounds = cx.n(1).min(12);
    let inproc = (ROUTING + TEXTS + 5 + 1) as u64;
    cx.cases("calls", inproc * rounds * 2, 3, |rng, i, rep| {
        let k = (i % inproc) as usize;
        match k {
            k if k < ROUTING => routing(k, rng, rep),
            k if k < ROUTING + TEXTS => decoding(k - ROUTING, rng, rep),
            k if k < ROUTING + TEXTS + 5 => documents(k - ROUTING - TEXTS, rng, rep),
            _ => headers(rng, rep),
        }
    });
    cx.cases("exchanges", WHOLE as u64 * rounds, 1, |rng, i, rep| exchanges((i % WHOLE as u64) as usize, rng, rep));
    cx.cases("ageing", rounds.min(6), 1, |rng, _, rep| ageing(cx, rng, rep));
    cx.need("measurements", 150);
    cx.need("ages", 3);
}
