//! C11: request bodies decode the same however they arrive. C20: handlers see the request as sent.
use crate::core::*;
use crate::h2;
use crate::http::*;
use crate::p_decode::encode_component;
use crate::p_resp::{gen_json, rand_bytes};
use obsidian::context::Context;
use obsidian::middleware::Middleware;
use obsidian::router::Router;
use obsidian::{App, Body, ContextResult, EndpointExecutor, Request};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};
use std::time::Duration;

// ---------------------------------------------------------------- C11
/// What one read of the body gave.
#[derive(Clone, Debug, PartialEq)]
enum Got {
    Json(Value),
    Form(BTreeMap<String, Vec<String>>),
    Bytes(usize, u64),
    Error,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Json,
    Form,
    Raw,
    Typed,
}
#[derive(serde::Deserialize)]
struct Doc {
    id: i64,
    text: String,
    list: Vec<f64>,
    #[serde(default)]
    more: Option<String>,
}
async fn read(c: &mut Context, k: Kind) -> Got {
    match k {
        Kind::Json => match c.json::<Value>().await {
            Ok(v) => Got::Json(v),
            Err(_) => Got::Error,
        },
        Kind::Typed => match c.json::<Doc>().await {
            Ok(d) => Got::Json(json!({"id": d.id, "text": d.text, "list": d.list, "more": d.more})),
            Err(_) => Got::Error,
        },
        Kind::Form => match c.form::<HashMap<String, Vec<String>>>().await {
            Ok(m) => Got::Form(m.into_iter().collect()),
            Err(_) => Got::Error,
        },
        Kind::Raw => match hyper::body::to_bytes(c.take_body()).await {
            Ok(b) => Got::Bytes(b.len(), hash_of(&b[..])),
            Err(_) => Got::Error,
        },
    }
}
/// A second read must look like this.
fn nothing(k: Kind) -> Got {
    match k {
        Kind::Json | Kind::Typed => Got::Error,
        Kind::Form => Got::Form(BTreeMap::new()),
        Kind::Raw => Got::Bytes(0, hash_of(&b""[..])),
    }
}
fn words(rng: &mut Rng, n: usize) -> String {
    let mut s = String::with_capacity(n + 8);
    while s.len() < n {
        match rng.below(12) {
            0 => s.push('é'),
            1 => s.push('🦀'),
            2 => s.push(' '),
            3 => s.push('"'),
            4 => s.push('\\'),
            5 => s.push('&'),
            6 => s.push('\n'),
            _ => s.push_str(*rng.pick(&["a", "word", "0", "xyz", "%41", "+", "=", "{", "]"])),
        }
    }
    s
}
/// A size for bodies: mostly small, sometimes around buffer sizes, sometimes megabytes.
fn body_size(rng: &mut Rng, max: usize) -> usize {
    match rng.below(10) {
        0..=4 => rng.range(0, 300),
        5 | 6 => rng.range(300, 20_000).min(max),
        7 | 8 => {
            let b = *rng.pick(&[1024usize, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 409600, 524288, 1 << 20, 2 << 20, 4 << 20, 8 << 20]);
            (b + rng.below(5)).saturating_sub(2 + if rng.chance(1, 2) { 40 } else { 0 }).min(max)
        }
        _ => rng.size(max),
    }
}
/// Bytes to send and what reading them whole must give.
fn gen_doc(rng: &mut Rng, max: usize) -> (Vec<u8>, Kind, Got) {
    let (n, which) = (body_size(rng, max), rng.below(8));
    gen_doc_of(rng, n, which)
}
/// One of several megabytes, every kind in turn.
fn gen_big(rng: &mut Rng, nth: u64) -> (Vec<u8>, Kind, Got) {
    let n = match rng.below(3) {
        0 => body_size(rng, 16 << 20).max(1 << 20),
        _ => rng.range(1 << 20, 9 << 20),
    };
    gen_doc_of(rng, n, [0, 3, 4, 7, 5, 6][nth as usize % 6])
}
fn gen_doc_of(rng: &mut Rng, n: usize, which: usize) -> (Vec<u8>, Kind, Got) {
    match which {
        0..=2 => {
            let mut v = gen_json(rng, 3);
            if n > 300 {
                v = json!({"pad": words(rng, n), "v": v, "l": (0..rng.below(20)).collect::<Vec<_>>()});
            }
            let mut s = if rng.chance(1, 4) { serde_json::to_vec_pretty(&v).unwrap() } else { serde_json::to_vec(&v).unwrap() };
            if rng.chance(1, 4) {
                s.extend(std::iter::repeat(b' ').take(rng.size(300)));
            }
            // what the text means, not what it was made from (floats)
            let v: Value = serde_json::from_slice(&s).unwrap();
            (s, Kind::Json, Got::Json(v))
        }
        3 => {
            let t = words(rng, n);
            let list: Vec<f64> = (0..rng.size(30)).map(|i| i as f64 / 4.0).collect();
            let id = rng.next() as i64;
            let more = rng.chance(1, 2).then(|| "m".to_string());
            let mut o = json!({"extra": [1, {}], "id": id, "text": t, "list": list});
            if let Some(m) = &more {
                o["more"] = json!(m);
            }
            let s = serde_json::to_vec(&o).unwrap();
            (s, Kind::Typed, Got::Json(json!({"id": id, "text": t, "list": list, "more": more})))
        }
        4 | 5 => {
            let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
            let mut s = vec![];
            let many = n <= 300 && rng.chance(1, 60);
            let k = if many { rng.range(500, 12_000) } else { rng.range(0, 8) };
            for i in 0..k {
                let name = if many && rng.chance(1, 2) { format!("f{i}") } else { format!("f{}", rng.below(4)) };
                let val = words(rng, if i == 0 { n.max(1) } else { 3 });
                if i > 0 {
                    s.push(b'&');
                }
                s.extend_from_slice(name.as_bytes());
                s.push(b'=');
                encode_component(rng, &val, false, &mut s);
                m.entry(name).or_default().push(val);
            }
            (s, Kind::Form, Got::Form(m))
        }
        6 => {
            // not a document at all
            let good = serde_json::to_vec(&json!({"a": words(rng, n)})).unwrap();
            let mut s = good;
            match rng.below(4) {
                0 => {
                    s.pop();
                }
                1 => s.insert(0, *rng.pick(b"\0x,]\xff")),
                2 => s.extend_from_slice(*rng.pick(&[&b"\0"[..], b"\0\0\0\n", b"\x1a", b"\xff", b",", b";", b"}", b"\r\n--", b" x", b"//"])),
                _ => s.extend_from_slice(*rng.pick(&[&b"]"[..], b" {}", b"\n{\"a\":1}", b"null", b" 1"])),
            }
            (s, Kind::Json, Got::Error)
        }
        _ => {
            let s = rand_bytes(rng, n);
            let g = Got::Bytes(s.len(), hash_of(&s[..]));
            (s, Kind::Raw, g)
        }
    }
}
/// Cut points of a body.
fn cuts(rng: &mut Rng, len: usize) -> Vec<usize> {
    let mut v: Vec<usize> = match rng.below(5) {
        0 => vec![],
        1 if len < 3000 => (0..=len).collect(),
        2 => (0..rng.range(1, 3)).map(|_| rng.below(len + 1)).collect(),
        3 => {
            let step = *rng.pick(&[7usize, 100, 1000, 1460, 4096, 8192, 16384, 65536]);
            let step = step.max(len / 2000 + 1);
            (0..=len).step_by(step).collect()
        }
        _ => (0..rng.size(60)).map(|_| rng.below(len + 1)).collect(),
    };
    v.push(0);
    v.push(len);
    v.sort();
    if rng.chance(2, 3) {
        v.dedup();
    }
    v
}
fn pieces<'a>(b: &'a [u8], cuts: &[usize]) -> Vec<&'a [u8]> {
    cuts.windows(2).map(|w| &b[w[0]..w[1]]).collect()
}
fn brief(g: &Got) -> String {
    show(format!("{g:?}").as_bytes())
}
type Log = Arc<Mutex<HashMap<String, Vec<(Got, Got)>>>>;

fn app11(log: Log, wait: bool) -> App {
    let mut a: App = App::new();
    for (p, k) in [("json", Kind::Json), ("typed", Kind::Typed), ("form", Kind::Form), ("raw", Kind::Raw)] {
        let log = log.clone();
        a.post(&format!("/{p}/:t/:second"), move |mut c: Context| {
            let log = log.clone();
            async move {
                let t: String = c.param("t")?;
                let second: String = c.param("second")?;
                if wait {
                    tokio::time::sleep(Duration::from_millis(2)).await;
                }
                let g = read(&mut c, k).await;
                let k2 = match second.as_str() {
                    "json" => Kind::Json,
                    "form" => Kind::Form,
                    _ => Kind::Raw,
                };
                let g2 = read(&mut c, k2).await;
                log.lock().unwrap().entry(t).or_default().push((g, g2));
                c.build("done").ok()
            }
        });
    }
    a
}
fn path11(k: Kind, t: &str, second: Kind) -> String {
    let n = |k| match k {
        Kind::Json => "json",
        Kind::Typed => "typed",
        Kind::Form => "form",
        Kind::Raw => "raw",
    };
    format!("/{}/{}/{}", n(k), t, n(second))
}
fn judge(proto: &str, want: &Got, k2: Kind, seen: &[(Got, Got)], detail: Value) -> Result<(), Violation> {
    if seen.len() != 1 {
        return viol("a request was not handled exactly once", json!({"times": seen.len(), "case": detail}));
    }
    if &seen[0].0 != want {
        return viol(format!("a body decoded differently when it arrived in pieces ({proto})"), json!({"expected": brief(want), "observed": brief(&seen[0].0), "case": detail}));
    }
    if seen[0].1 != nothing(k2) {
        return viol("a second read of the body is not empty", json!({"observed": brief(&seen[0].1), "read_as": format!("{k2:?}"), "case": detail}));
    }
    Ok(())
}

pub fn c11(cx: &Arc<Cx>) {
    cx.rule("random JSON documents, forms and raw bodies (0 to 8 MB; also broken documents) delivered in random pieces: channel and stream bodies in-process, content-length and chunked framing with pauses over HTTP/1.1, data frames over HTTP/2; the decoded value is compared with the decoding of the whole text and a second read must be empty; bodies cut short at every kind of place must give an error; beside that, requests that take up to 31 s (thorough: 122 s) in every such place; an evaluation is one delivery; non-trivial: at least two pieces");
    cx.plan(5);
    let slow = crate::p_slow::start(cx, &[crate::p_slow::Slow::Body], false);
    cx.cases("inproc", cx.n(30_000), 8, |rng, i, rep| {
        let (b, k, want) = if i % 300 == 0 { gen_big(rng, i / 300) } else { gen_doc(rng, 200_000) };
        let cut = cuts(rng, b.len());
        let ps: Vec<Vec<u8>> = pieces(&b, &cut).into_iter().map(|p| p.to_vec()).collect();
        let n = ps.len();
        let fail = rng.chance(1, 3).then(|| rng.below(n + 1));
        let fail = if matches!(want, Got::Error) { None } else { fail };
        let k2 = *rng.pick(&[Kind::Json, Kind::Form, Kind::Raw]);
        rep.eval(if n > 1 { Some(hash_of(&(&b[..b.len().min(4000)], &cut[..cut.len().min(100)], fail))) } else { None });
        let how = rng.below(3);
        let mut feeder = None;
        let body = match how {
            0 => {
                let (mut tx, body) = Body::channel();
                let ps = ps.clone();
                let pause = rng.chance(1, 20);
                let mut r = rng.fork();
                feeder = Some(std::thread::spawn(move || {
                    for (i, p) in ps.into_iter().enumerate() {
                        if fail == Some(i) {
                            tx.abort();
                            return;
                        }
                        if pause && r.chance(1, 4) {
                            std::thread::sleep(Duration::from_micros(200));
                        }
                        if block_on(tx.send_data(p.into())).is_err() {
                            return;
                        }
                    }
                    if fail.is_some() {
                        tx.abort();
                    }
                }));
                body
            }
            1 => {
                let mut v: Vec<Result<Vec<u8>, std::io::Error>> = ps.into_iter().map(Ok).collect();
                if let Some(f) = fail {
                    v.truncate(f);
                    v.push(Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "cut")));
                }
                Body::wrap_stream(Pieces(v.into(), rng.chance(1, 2), false))
            }
            _ if fail.is_none() => Body::from(b.clone()),
            _ => Body::wrap_stream(Pieces(vec![Ok(b.clone()), Err(std::io::Error::new(std::io::ErrorKind::Other, "cut"))].into(), false, false)),
        };
        let mut c = Context::new(Request::new(body), HashMap::new());
        let got = block_on(read(&mut c, k));
        let second = block_on(read(&mut c, k2));
        if let Some(f) = feeder {
            drop(c);
            let _ = f.join();
        }
        let want = if fail.is_some() { Got::Error } else { want };
        rep.count(if fail.is_some() { "cut_short_inproc" } else { "whole" }, 1);
        rep.count("pieces", n as u64);
        if b.len() > 1 << 20 {
            rep.count("megabyte_bodies", 1);
        }
        let d = json!({"kind": format!("{k:?}"), "bytes": b.len(), "body": show(&b[..b.len().min(200)]), "cuts": cut.iter().take(50).collect::<Vec<_>>(), "failing_after_pieces": fail, "delivery": how});
        rep.sample = Some(d.clone());
        if fail.is_some() && got != Got::Error {
            return viol("a body that was cut short gave a value", json!({"observed": brief(&got), "case": d}));
        }
        judge("in-process", &want, k2, &[(got, second)], d)
    });
    let mut nth = 0;
    for (phase, quick) in [("http1", 60u64), ("http2", 24)] {
        nth += 1;
        cx.cases(phase, cx.n(quick), 8, |rng, i, rep| {
            let log: Log = Default::default();
            let srv = Server::start(|| app11(log.clone(), i % 3 == 0))?;
            let mut c = srv.connect();
            for j in 0..12 {
                let (b, k, want) = if j == 0 && i % 2 == 0 { gen_big(rng, i / 2) } else { gen_doc(rng, 60_000) };
                let k2 = *rng.pick(&[Kind::Json, Kind::Form, Kind::Raw]);
                let t = format!("t{j}");
                let path = path11(k, &t, k2);
                let cut = cuts(rng, b.len());
                rep.eval(if cut.len() > 2 { Some(hash_of(&(&b[..b.len().min(4000)], &cut[..cut.len().min(100)], nth))) } else { None });
                rep.count("pieces", cut.len() as u64 - 1);
                rep.count(phase_counter(nth), 1);
                if b.len() > 1 << 20 {
                    rep.count("megabyte_bodies", 1);
                }
                let d = json!({"kind": format!("{k:?}"), "bytes": b.len(), "body": show(&b[..b.len().min(200)]), "cuts": cut.iter().take(50).collect::<Vec<_>>()});
                let ct = *rng.pick(&["application/json", "application/x-www-form-urlencoded", "text/plain", "application/octet-stream"]);
                if nth == 1 {
                    let chunk = rng.chance(1, 2);
                    let expect = rng.chance(1, 10) && !b.is_empty();
                    let mut head = format!("POST {path} HTTP/1.1\r\nhost: t\r\ncontent-type: {ct}\r\n");
                    if expect {
                        head += "expect: 100-continue\r\n";
                    }
                    head += &everyday_lines(rng.next(), &["content-type", "expect"]);
                    head += &if chunk { "transfer-encoding: chunked\r\n\r\n".to_string() } else { format!("content-length: {}\r\n\r\n", b.len()) };
                    // framing in bytes, then network segments of their own
                    let mut framed = vec![];
                    if chunk {
                        for p in pieces(&b, &cut).into_iter().filter(|p| !p.is_empty()) {
                            let ext = if rng.chance(1, 30) { ";ext=1" } else { "" };
                            framed.extend_from_slice(format!("{:x}{ext}\r\n", p.len()).as_bytes());
                            framed.extend_from_slice(p);
                            framed.extend_from_slice(b"\r\n");
                        }
                        framed.extend_from_slice(b"0\r\n\r\n");
                    } else {
                        framed = b.clone();
                    }
                    let r = (|| {
                        if expect {
                            c.send(head.as_bytes())?;
                            c.skip_100 = false;
                            let r = c.read_response(false);
                            c.skip_100 = true;
                            let r = r?;
                            if r.status != 100 {
                                return Ok(r);
                            }
                        } else {
                            framed.splice(0..0, head.bytes());
                        }
                        let seg = cuts(rng, framed.len());
                        let pause = rng.chance(1, 3) && seg.len() < 200;
                        for p in pieces(&framed, &seg) {
                            c.send(p)?;
                            if pause && rng.chance(1, 4) {
                                std::thread::sleep(Duration::from_micros(rng.below(1500) as u64));
                            }
                        }
                        c.read_response(false)
                    })();
                    match r {
                        Ok(r) if r.status == 200 && r.text() == "done" => {}
                        Ok(r) => return viol("a request with a body was not answered by its handler", json!({"status": r.status, "body": show(&r.body), "case": d})),
                        Err(e) => return lost("a request with a body", e, d),
                    }
                } else {
                    let ps: Vec<Result<Vec<u8>, std::io::Error>> = pieces(&b, &cut).into_iter().map(|p| Ok(p.to_vec())).collect();
                    let body = Body::wrap_stream(Pieces(ps.into(), rng.chance(1, 2), false));
                    let rq = ("POST".to_string(), path, vec![("content-type".to_string(), ct.as_bytes().to_vec())], vec![]);
                    let r = h2::crt().block_on(async {
                        let mut h = h2::open(srv.port).await?;
                        h2::call(&mut h.tx, srv.port, &rq, Some(body)).await
                    });
                    match r {
                        Ok(r) if r.status == 200 && r.text() == "done" => {}
                        Ok(r) => return viol("a request with a body was not answered by its handler", json!({"status": r.status, "body": show(&r.body), "case": d})),
                        Err(e) => return h2::lost2("a request with a body", e, d),
                    }
                }
                let seen = log.lock().unwrap().remove(&t).unwrap_or_default();
                judge(phase, &want, k2, &seen, d)?;
            }
            Ok(())
        });
    }
    // cut short on the network
    cx.cases("truncated", cx.n(120), 8, |rng, i, rep| {
        let log: Log = Default::default();
        let srv = Server::start(|| app11(log.clone(), i % 2 == 0))?;
        let mut sent = vec![];
        for j in 0..10 {
            // prefixes that are documents of their own
            let (b, k) = match rng.below(5) {
                0 => (format!("{}{}", "1".repeat(rng.range(2, 400)), "2".repeat(rng.range(1, 400))).into_bytes(), Kind::Json),
                1 => (format!("{}{}", json!({"a": words(rng, 50)}), " ".repeat(rng.range(1, 3000))).into_bytes(), Kind::Json),
                2 => ((0..rng.range(2, 500)).map(|x| format!("f{}={}", x % 5, x)).collect::<Vec<_>>().join("&").into_bytes(), Kind::Form),
                3 => {
                    let n = rng.range(2, 100_000);
                    (rand_bytes(rng, n), Kind::Raw)
                }
                _ => (format!("{}{}", json!({"id": 1, "text": words(rng, 30), "list": [1.5]}), "\n".repeat(rng.range(1, 300))).into_bytes(), Kind::Typed),
            };
            let keep = if rng.chance(1, 3) { b.len() - 1 } else { rng.below(b.len()) };
            let t = format!("t{j}");
            let path = path11(k, &t, Kind::Raw);
            let mode = rng.below(3);
            let d = json!({"kind": format!("{k:?}"), "bytes": b.len(), "arrived": keep, "body": show(&b[..b.len().min(200)]), "mode": mode});
            rep.eval(if keep > 0 { Some(hash_of(&(&b, keep, mode))) } else { None });
            if mode == 2 {
                let (mut tx, body) = Body::channel();
                let part = b[..keep].to_vec();
                let rq = ("POST".to_string(), path, vec![("content-length".to_string(), b.len().to_string().into_bytes())], vec![]);
                let port = srv.port;
                let _ = h2::crt().block_on(async move {
                    let mut h = h2::open(port).await?;
                    let f = h2::call(&mut h.tx, port, &rq, Some(body));
                    let g = async {
                        if !part.is_empty() {
                            let _ = tx.send_data(part.into()).await;
                        }
                        tokio::time::sleep(Duration::from_millis(8)).await;
                        tx.abort();
                    };
                    let (r, _) = tokio::join!(f, g);
                    tokio::time::sleep(Duration::from_millis(3)).await;
                    r
                });
            } else {
                let mut c = srv.connect();
                let mut v = vec![];
                if rng.chance(1, 2) {
                    v.extend_from_slice(format!("POST {path} HTTP/1.1\r\nhost: t\r\n{}content-length: {}\r\n\r\n", everyday_lines(rng.next(), &[]), b.len()).as_bytes());
                    v.extend_from_slice(&b[..keep]);
                } else {
                    v.extend_from_slice(format!("POST {path} HTTP/1.1\r\nhost: t\r\ntransfer-encoding: chunked\r\n\r\n").as_bytes());
                    match rng.below(3) {
                        0 if keep > 0 => v.extend_from_slice(format!("{:x}\r\n{}\r\n", keep, "").replace("\r\n\r\n", "\r\n").as_bytes()),
                        1 => v.extend_from_slice(format!("{:x}\r\n", b.len()).as_bytes()),
                        _ => v.extend_from_slice(format!("{:x}\r\n", keep.max(1)).as_bytes()),
                    }
                    v.extend_from_slice(&b[..keep]);
                    if rng.chance(1, 2) {
                        v.extend_from_slice(*rng.pick(&[&b"\r\n"[..], b"\r", b"\r\n0", b"\r\n0\r\n", b"\r\n0\r\n\r"]));
                    }
                }
                let _ = c.send(&v);
                if rng.chance(1, 2) {
                    std::thread::sleep(Duration::from_micros(rng.below(6000) as u64));
                }
                if mode == 0 {
                    c.shutdown_write();
                    let _ = c.drain();
                } else {
                    c.abort();
                }
            }
            sent.push((t, d));
        }
        // whatever handlers still run finish soon; each record must be an error
        let mut conn = srv.connect();
        for _ in 0..3 {
            std::thread::sleep(Duration::from_millis(2));
            let _ = conn.roundtrip(&req("POST", "/raw/canary/raw", &[], b"x"));
        }
        let g = log.lock().unwrap();
        for (t, d) in &sent {
            for (got, _) in g.get(t).into_iter().flatten() {
                rep.count("cut_short_seen", 1);
                if *got != Got::Error {
                    return viol("a body that was cut short gave a value", json!({"observed": brief(got), "case": d}));
                }
            }
            rep.count("cut_short_sent", 1);
        }
        Ok(())
    });
    cx.assume("a handler whose client vanished may be dropped before it reads the end of its body; only what handlers observed is judged (cut_short_seen)");
    slow.finish(cx);
    cx.need("whole", 3000);
    cx.need("cut_short_inproc", 1500);
    cx.need("over_http1", 100);
    cx.need("over_http2", 50);
    cx.need("cut_short_seen", 100);
    cx.need("megabyte_bodies", 60);
}
fn phase_counter(n: usize) -> &'static str {
    if n == 1 {
        "over_http1"
    } else {
        "over_http2"
    }
}
/// Gives its pieces one by one, pending in between when asked to.
struct Pieces(std::collections::VecDeque<Result<Vec<u8>, std::io::Error>>, bool, bool);
impl futures_core::Stream for Pieces {
    type Item = Result<Vec<u8>, std::io::Error>;
    fn poll_next(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Option<Self::Item>> {
        if self.1 && !self.2 {
            self.2 = true;
            cx.waker().wake_by_ref();
            return std::task::Poll::Pending;
        }
        self.2 = false;
        std::task::Poll::Ready(self.0.pop_front())
    }
}

// ---------------------------------------------------------------- C20
type Hs = Vec<(String, Vec<u8>)>;
#[derive(Clone, Debug, PartialEq)]
struct Seen {
    who: String,
    method: String,
    path: String,
    query: Option<String>,
    /// name -> values in order
    headers: BTreeMap<String, Vec<Vec<u8>>>,
    body: Option<(usize, u64)>,
}
type Sink = Arc<Mutex<Vec<Seen>>>;
fn by_name(h: &Hs) -> BTreeMap<String, Vec<Vec<u8>>> {
    let mut m: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
    for (k, v) in h {
        m.entry(k.to_ascii_lowercase()).or_default().push(v.clone());
    }
    m
}
fn snap(who: &str, c: &Context) -> Seen {
    let mut h = BTreeMap::new();
    for k in c.headers().keys() {
        h.insert(k.as_str().to_string(), c.headers().get_all(k).iter().map(|v| v.as_bytes().to_vec()).collect());
    }
    Seen {
        who: who.into(),
        method: c.method().to_string(),
        path: c.uri().path().to_string(),
        query: c.uri().query().map(|q| q.to_string()),
        headers: h,
        body: None,
    }
}
/// What the middleware of a case does to requests.
#[derive(Clone, Debug)]
enum Act {
    Look,
    Add(String, String),
    Set(String, String),
    Remove(String),
    ReplaceBody(Vec<u8>),
    /// queries decode without consuming anything
    Query,
    Attach,
}
struct ActMw(usize, Act, Sink);
#[async_trait::async_trait]
impl Middleware for ActMw {
    async fn handle<'a>(&'a self, mut c: Context, ex: EndpointExecutor<'a>) -> ContextResult {
        self.2.lock().unwrap().push(snap(&format!("mw{}", self.0), &c));
        match &self.1 {
            Act::Look => {}
            Act::Add(k, v) => {
                c.headers_mut().append(hyper::header::HeaderName::from_bytes(k.as_bytes()).unwrap(), v.parse().unwrap());
            }
            Act::Set(k, v) => {
                c.headers_mut().insert(hyper::header::HeaderName::from_bytes(k.as_bytes()).unwrap(), v.parse().unwrap());
            }
            Act::Remove(k) => {
                c.headers_mut().remove(k.as_str());
            }
            Act::ReplaceBody(b) => {
                // the only way to a new body is a new request; an unread old one costs the connection
                let _ = hyper::body::to_bytes(c.take_body()).await;
                let mut r = Request::new(Body::from(b.clone()));
                *r.method_mut() = c.method().clone();
                *r.uri_mut() = c.uri().clone();
                *r.headers_mut() = c.headers().clone();
                c = Context::new(r, HashMap::new());
            }
            Act::Query => {
                let _ = c.query_params::<HashMap<String, Vec<String>>>();
            }
            Act::Attach => c.add(self.0),
        }
        ex.next(c).await
    }
}
fn gen_act(rng: &mut Rng) -> Act {
    let n = |rng: &mut Rng| rng.pick(&["x-a", "x-b", "cookie", "accept", "x-new"]).to_string();
    match rng.below(9) {
        0 => Act::Add(n(rng), format!("mw{}", rng.below(9))),
        1 => Act::Set(n(rng), format!("mw{}", rng.below(9))),
        2 => Act::Remove(n(rng)),
        3 if rng.chance(1, 3) => {
            let n = rng.size(5000);
            Act::ReplaceBody(rand_bytes(rng, n))
        }
        4 => Act::Query,
        5 => Act::Attach,
        _ => Act::Look,
    }
}
async fn see(mut c: Context, sink: Sink, mode: usize) -> ContextResult {
    let mut s = snap("handler", &c);
    if mode % 3 == 1 {
        tokio::time::sleep(Duration::from_micros(300)).await;
    }
    let _ = c.query_params::<HashMap<String, String>>();
    let b = hyper::body::to_bytes(c.take_body()).await.map_err(|e| obsidian::ObsidianError::GeneralError(e.to_string()))?;
    s.body = Some((b.len(), hash_of(&b[..])));
    // reading the body changes nothing else
    let again = snap("handler", &c);
    if (&again.method, &again.path, &again.query, &again.headers) != (&s.method, &s.path, &s.query, &s.headers) {
        s.who = "handler: changed by reading the body".into();
    }
    sink.lock().unwrap().push(s);
    if mode % 2 == 0 {
        c.build(b.to_vec().iter().map(|x| *x as char).collect::<String>()).ok()
    } else {
        c.build("ok").ok()
    }
}
const SEG: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~!$&'()*+,;=:@|";
fn gen_path(rng: &mut Rng) -> String {
    let mut s = String::new();
    let n = rng.range(0, 5);
    for _ in 0..n {
        s.push('/');
        if rng.chance(1, 12) {
            s.push('/');
        }
        let k = rng.range(0, 9);
        for _ in 0..k {
            match rng.below(14) {
                0 => s.push_str(*rng.pick(&["%20", "%2F", "%2f", "%00", "%FF", "%41", "%", "%zz", "%25", "%c3%a9"])),
                _ => s.push(*rng.pick(SEG) as char),
            }
        }
        if rng.chance(1, 15) {
            s.push_str(*rng.pick(&["..", ".", "*", ":id", "{}", "\"", "[x]", "^", "`", "\\"]));
        }
    }
    if rng.chance(1, 5) || s.is_empty() {
        s.push('/');
    }
    if rng.chance(1, 80) {
        s.push_str(&"long/".repeat(rng.range(10, 4000)));
    }
    s
}
fn gen_query(rng: &mut Rng) -> Option<String> {
    if rng.chance(1, 3) {
        return None;
    }
    let n = if rng.chance(1, 60) { rng.range(1000, 20_000) } else { rng.range(0, 30) };
    Some((0..n).map(|_| if rng.chance(1, 8) { *rng.pick(&['?', '/', '&', '=', '%', '+', '\'', '{', '|', '\\', '^', '`']) } else { *rng.pick(SEG) as char }).collect())
}
const KNOWN_NAMES: &[&str] = &[
    "accept", "accept-charset", "accept-encoding", "accept-language", "accept-ranges", "access-control-allow-credentials", "access-control-allow-headers",
    "access-control-allow-methods", "access-control-allow-origin", "access-control-request-headers", "access-control-request-method", "age", "allow", "alt-svc",
    "authorization", "cache-control", "content-disposition", "content-encoding", "content-language", "content-location", "content-range",
    "content-security-policy", "content-type", "cookie", "date", "dnt", "early-data", "etag", "expires", "forwarded", "from", "if-match", "if-modified-since",
    "if-none-match", "if-range", "if-unmodified-since", "keep-alive", "last-modified", "link", "location", "max-forwards", "origin", "pragma", "priority",
    "proxy-authenticate", "proxy-authorization", "proxy-connection", "range", "referer", "referrer-policy", "retry-after", "sec-fetch-dest", "sec-fetch-mode",
    "sec-fetch-site", "sec-websocket-key", "sec-websocket-version", "server", "set-cookie", "strict-transport-security", "te", "trailer", "upgrade",
    "upgrade-insecure-requests", "user-agent", "vary", "via", "warning", "www-authenticate", "x-forwarded-for", "x-forwarded-host", "x-forwarded-proto",
    "x-http-method-override", "x-method-override", "x-real-ip", "x-request-id", "x-requested-with", "x-rewrite-url", "x-original-url",
];
fn gen_headers(rng: &mut Rng, h2: bool) -> Hs {
    let mut v: Hs = vec![];
    let n = match rng.below(12) {
        0 => rng.range(40, 80),
        1..=3 => 0,
        _ => rng.range(1, 8),
    };
    for _ in 0..n {
        let name = match rng.below(6) {
            0 => rng.pick(KNOWN_NAMES).to_string(),
            5 => {
                // whatever names the library itself mentions
                let d = &dict().strs;
                match d.get(rng.below(d.len().max(1))).map(|s| s.to_ascii_lowercase()) {
                    Some(s) if s.bytes().all(|b| b.is_ascii_lowercase() || b.is_ascii_digit() || b == b'-') => s,
                    _ => rng.pick(KNOWN_NAMES).to_string(),
                }
            }
            1 => rng.pick(&["x-a", "x-b", "x-c"]).to_string(),
            2 => {
                let n = rng.range(1, 30);
                (0..n).map(|_| *rng.pick(b"abcdefghijklmnopqrstuvwxyz0123456789!#$%&'*+-.^_`|~") as char).collect()
            }
            3 if !h2 => rng.pick(&["X-A", "X-MiXeD", "COOKIE", "Accept"]).to_string(),
            _ => format!("x-h{}", rng.below(6)),
        };
        // names that frame the message are left to the HTTP layer
        if v.len() < 20 && rng.chance(1, 5) {
            // what clients really send there
            for (k, x) in everyday(rng.next(), &|k| k == "connection" || k == "upgrade" || k == "http2-settings" || v.iter().any(|h: &(String, Vec<u8>)| h.0.eq_ignore_ascii_case(k)), h2) {
                v.push((k, x.into_bytes()));
            }
        }
        if ["connection", "host", "expect"].contains(&name.as_str()) || name.starts_with("content-length") || name.starts_with("transfer-encoding") {
            continue;
        }
        if h2 && ["te", "keep-alive", "proxy-connection", "proxy-authenticate", "proxy-authorization", "trailer", "upgrade", "http2-settings"].contains(&name.as_str()) {
            continue;
        }
        let k = match rng.below(30) {
            0 => rng.range(200, 4000),
            1 | 2 => 0,
            _ => rng.range(1, 20),
        };
        let mut val: Vec<u8> = (0..k)
            .map(|_| match rng.below(12) {
                0 => *rng.pick(b" \t,;=\"\\"),
                1 => 0x80 + rng.below(128) as u8,
                _ => rng.range(33, 126) as u8,
            })
            .collect();
        val = trim(&val).to_vec();
        v.push((name, val));
    }
    v
}

pub fn c20(cx: &Arc<Cx>) {
    h2::PLAIN.store(true, std::sync::atomic::Ordering::Relaxed);
    cx.rule("random requests (methods, raw paths and queries with unusual characters, up to 80 headers with repeated names and non-ASCII values, bodies to 2 MB in both framings, absolute-form targets, HTTP/1.0, HTTP/2) through apps with 0-4 middleware that look at or change them; what each middleware and the handler see in the context is recorded and compared with what was sent as changed by the middleware in front; an evaluation is one request; non-trivial: it carries a header, query or body");
    cx.plan(2);
    cx.cases("inproc", cx.n(40_000), 8, |rng, _, rep| {
        let sink: Sink = Default::default();
        let (router, acts) = table(rng, &sink);
        for _ in 0..3 {
            let m = *rng.pick(&["GET", "POST", "PUT", "PATCH", "DELETE"]);
            let (p, q, h) = (gen_path(rng), gen_query(rng), gen_headers(rng, false));
            let n = rng.size(20_000);
            let b = rand_bytes(rng, n);
            let t = match &q {
                Some(q) => format!("{p}?{q}"),
                None => p.clone(),
            };
            let mut rb = Request::builder().method(m).uri(&t);
            for (k, v) in &h {
                rb = rb.header(k.as_str(), &v[..]);
            }
            let Ok(rq) = rb.body(Body::from(b.clone())) else {
                rep.count("not_representable", 1);
                continue;
            };
            let Some(v) = router.search_route(rq.uri().path()) else {
                return viol("the catch-all route was not found", json!({"path": show(p.as_bytes())}));
            };
            let route = v.get_route(rq.method()).unwrap();
            let r = crate::http::rt().block_on(EndpointExecutor::new(&route.handler, v.get_middlewares()).next(Context::new(rq, v.get_params())));
            rep.eval(Some(hash_of(&(&t, &h, &b))));
            rep.count("inproc_requests", 1);
            if r.is_err() {
                return viol("a handler that only looks failed", json!({"path": show(t.as_bytes())}));
            }
            let got = std::mem::take(&mut *sink.lock().unwrap());
            compare(&acts, m, &p, &q, &h, &b, &got, "in-process")?;
        }
        Ok(())
    });
    cx.cases("wire", cx.n(420), 8, |rng, i, rep| {
        let sink: Sink = Default::default();
        let seed = rng.next();
        let (_, acts) = table(&mut Rng::new(seed), &sink);
        let with_logger = rng.chance(1, 4);
        let srv = Server::start(|| {
            let mut a: App = if with_logger { App::default() } else { App::new() };
            a.use_router("/", table(&mut Rng::new(seed), &sink).0);
            a
        })?;
        let mut c = srv.connect();
        let mut h2c: Option<h2::H2> = None;
        for j in 0..16 {
            let h2 = rng.chance(1, 3);
            let m = *rng.pick(&["GET", "POST", "PUT", "PATCH", "DELETE"]);
            let (p, q) = (gen_path(rng), gen_query(rng));
            let mut h = gen_headers(rng, h2);
            let n = match rng.below(4) {
                0 => 0,
                1 if j == 1 && i % 4 == 0 => rng.range(100_000, 2_000_000),
                _ => rng.size(3000),
            };
            let b = rand_bytes(rng, n);
            let t = match &q {
                Some(q) => format!("{p}?{q}"),
                None => p.clone(),
            };
            if t.parse::<obsidian::Uri>().map_or(true, |u| u.path() != p) || t.len() > 40_000 {
                rep.count("not_representable", 1);
                continue;
            }
            let d = json!({"method": m, "target": show(t.as_bytes()), "headers": h.iter().map(|(k, v)| format!("{k}: {}", show(v))).collect::<Vec<_>>(), "body_bytes": n, "http": if h2 {"2"} else {"1"}});
            rep.eval(if !h.is_empty() || q.is_some() || n > 0 { Some(hash_of(&(&t, &h, &b, h2))) } else { None });
            let status = if h2 {
                rep.count("http2_requests", 1);
                // names are lower case there
                for x in &mut h {
                    x.0 = x.0.to_ascii_lowercase();
                }
                let rq = (m.to_string(), t.clone(), h.clone(), b.clone());
                let r = h2::crt().block_on(async {
                    if h2c.is_none() {
                        h2c = Some(h2::open(srv.port).await?);
                    }
                    h2::call(&mut h2c.as_mut().unwrap().tx, srv.port, &rq, None).await
                });
                match r {
                    Ok(r) => r.status,
                    Err(e) => return h2::lost2("a request", e, d),
                }
            } else {
                rep.count("http1_requests", 1);
                let v10 = rng.chance(1, 20);
                let abs = rng.chance(1, 12);
                let target = if abs { format!("http://example.com:81{t}") } else { t.clone() };
                let mut v = format!("{m} {target} HTTP/1.{}\r\n", if v10 { 0 } else { 1 }).into_bytes();
                let mut own: Hs = vec![("host".into(), b"some.host:8080".to_vec())];
                let chunk = !v10 && n > 0 && rng.chance(1, 2);
                if chunk {
                    own.push(("transfer-encoding".into(), b"chunked".to_vec()));
                } else if n > 0 || rng.chance(1, 4) {
                    own.push(("content-length".into(), n.to_string().into_bytes()));
                }
                if v10 || rng.chance(1, 20) {
                    own.push(("connection".into(), b"close".to_vec()));
                }
                for x in own {
                    let at = rng.below(h.len() + 1);
                    h.insert(at, x);
                }
                for (k, x) in &h {
                    v.extend_from_slice(k.as_bytes());
                    v.push(b':');
                    v.extend_from_slice(rng.pick(&[" ", "", "  ", "\t"]).as_bytes());
                    v.extend_from_slice(x);
                    v.extend_from_slice(rng.pick(&["", "", " "]).as_bytes());
                    v.extend_from_slice(b"\r\n");
                }
                v.extend_from_slice(b"\r\n");
                if chunk {
                    let s: Vec<usize> = (0..rng.below(5)).map(|_| rng.below(n) + 1).collect();
                    v.extend_from_slice(&chunked(&b, &s));
                } else {
                    v.extend_from_slice(&b);
                }
                match c.roundtrip(&v) {
                    Ok(r) => {
                        if r.will_close() || v10 || h.iter().any(|x| x.0 == "connection") {
                            c = srv.connect();
                        }
                        r.status
                    }
                    Err(e) => return lost("a request", e, d),
                }
            };
            let mut got = std::mem::take(&mut *sink.lock().unwrap());
            if h2 {
                // the client library decides whether to announce a length
                for g in &mut got {
                    g.headers.remove("content-length");
                }
            }
            if status != 200 {
                return viol("a valid request was not handled", json!({"status": status, "case": d}));
            }
            rep.sample = Some(d);
            compare(&acts, m, &p, &q, &h, &b, &got, if h2 { "http2" } else { "http1" })?;
        }
        Ok(())
    });
    cx.need("inproc_requests", 5000);
    cx.need("http1_requests", 500);
    cx.need("http2_requests", 200);
}
/// The application of a case: everything answered by one handler below some middleware.
fn table(rng: &mut Rng, sink: &Sink) -> (Router, Vec<Act>) {
    let mut r = Router::new();
    let mut acts = vec![];
    for i in 0..rng.below(5) {
        let a = gen_act(rng);
        if rng.chance(1, 2) {
            r.use_service(ActMw(i, a.clone(), sink.clone()));
        } else {
            r.use_service_to("/", ActMw(i, a.clone(), sink.clone()));
        }
        acts.push(a);
    }
    let mode = rng.below(6);
    let s = sink.clone();
    let h = move |c: Context| see(c, s.clone(), mode);
    for p in ["/", "/*"] {
        r.get(p, h.clone());
        r.post(p, h.clone());
        r.put(p, h.clone());
        r.patch(p, h.clone());
        r.delete(p, h.clone());
    }
    (r, acts)
}
fn compare(acts: &[Act], m: &str, p: &str, q: &Option<String>, h: &Hs, b: &[u8], got: &[Seen], proto: &str) -> Result<(), Violation> {
    let mut cur = Seen {
        who: String::new(),
        method: m.into(),
        path: p.into(),
        query: q.clone(),
        headers: by_name(h),
        body: None,
    };
    let mut body = b;
    if got.len() != acts.len() + 1 {
        return viol("a request was not seen once by each middleware and the handler", json!({"observed": got.iter().map(|g| g.who.clone()).collect::<Vec<_>>(), "path": show(p.as_bytes())}));
    }
    for (i, g) in got.iter().enumerate() {
        cur.who = if i < acts.len() { format!("mw{i}") } else { "handler".into() };
        cur.body = if i < acts.len() { None } else { Some((body.len(), hash_of(body))) };
        if &cur != g {
            let s = |x: &Seen| {
                json!({"at": x.who, "method": x.method, "path": show(x.path.as_bytes()), "query": x.query.as_ref().map(|q| show(q.as_bytes())), "body": format!("{:?}", x.body),
                    "headers": x.headers.iter().map(|(k, v)| format!("{k}: {}", v.iter().map(|v| show(v)).collect::<Vec<_>>().join(" | "))).collect::<Vec<_>>()})
            };
            return viol(format!("the context does not show the request as sent ({proto})"), json!({"expected": s(&cur), "observed": s(g), "acts": show(format!("{acts:?}").as_bytes())}));
        }
        if let Some(a) = acts.get(i) {
            match a {
                Act::Add(k, v) => cur.headers.entry(k.clone()).or_default().push(v.clone().into_bytes()),
                Act::Set(k, v) => {
                    cur.headers.insert(k.clone(), vec![v.clone().into_bytes()]);
                }
                Act::Remove(k) => {
                    cur.headers.remove(k);
                }
                Act::ReplaceBody(x) => body = x,
                _ => {}
            }
        }
    }
    Ok(())
}
