//! C12: no bytes from any client panic the framework or stop it serving; valid requests are answered.
use crate::core::*;
use crate::h2;
use crate::http::*;
use async_trait::async_trait;
use obsidian::context::Context;
use obsidian::middleware::Middleware;
use obsidian::router::Router;
use obsidian::{App, Body, ContextResult, EndpointExecutor, ObsidianError};
use serde::Deserialize;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Everything {
    id: Option<i32>,
    n: Option<u8>,
    big: Option<u64>,
    f: Option<f64>,
    b: Option<bool>,
    c: Option<char>,
    s: Option<String>,
    list: Option<Vec<String>>,
    nums: Option<Vec<i16>>,
    pair: Option<(i32, String)>,
    #[serde(default)]
    d: String,
}
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Strict {
    id: i32,
    mode: String,
    list: Vec<u32>,
}
struct Look;
#[async_trait]
impl Middleware for Look {
    async fn handle<'a>(&'a self, c: Context, ex: EndpointExecutor<'a>) -> ContextResult {
        let _ = format!("{:?}", c);
        ex.next(c).await
    }
}
/// Uses everything a context offers on whatever the client sent; what comes out is not judged here.
async fn probe(mut c: Context) -> ContextResult {
    let mut n = 0usize;
    macro_rules! tryall {
        ($($t:ty),*) => { $( n += c.query_params::<$t>().is_ok() as usize; )* };
    }
    tryall!(Everything, Strict, HashMap<String, String>, BTreeMap<String, Vec<String>>, HashMap<String, Vec<i64>>, Vec<String>, String, i32, (), Option<String>, Value);
    for k in ["a", "b", "*", "", "none"] {
        n += c.param::<String>(k).map(|s| utf8(&s)).is_ok() as usize;
        n += c.param::<i32>(k).is_ok() as usize;
        n += c.param::<bool>(k).is_ok() as usize;
        n += c.param::<char>(k).is_ok() as usize;
        n += c.param::<f64>(k).is_ok() as usize;
    }
    let _ = c.query_params::<HashMap<String, Vec<String>>>().map(|m| utf8_map(&m)).map_err(|e| utf8(&e.to_string()));
    let _ = c.query_params::<Strict>().map_err(|e| utf8(&e.to_string()));
    utf8(c.uri().path());
    utf8(c.uri().query().unwrap_or(""));
    let how = c.headers().get("x-read").map(|v| v.as_bytes().to_vec()).unwrap_or_default();
    let r: Result<usize, ObsidianError> = match &how[..] {
        b"json" => c.json::<Value>().await.map(|v| utf8(&v.to_string())),
        b"json-s" => c.json::<Everything>().await.map(|_| 1),
        b"json-l" => c.json::<Vec<i32>>().await.map(|v| v.len()),
        b"form" => c.form::<HashMap<String, Vec<String>>>().await.map(|v| utf8_map(&v).min(v.len())),
        b"form-s" => c.form::<Everything>().await.map(|_| 1),
        b"form-x" => c.form::<Strict>().await.map(|_| 1),
        b"none" => Ok(0),
        _ => hyper::body::to_bytes(c.take_body()).await.map(|b| b.len()).map_err(|e| ObsidianError::GeneralError(e.to_string())),
    };
    if how == b"none" {
        return c.build("unread").ok();
    }
    if let Err(e) = &r {
        utf8(&e.to_string());
    }
    let text = match r {
        Ok(m) => format!("ok {n} {m}"),
        Err(e) if n % 2 == 0 => return Err(e),
        Err(e) => format!("error {e}"),
    };
    c.build(text).ok()
}
async fn pong(c: Context) -> ContextResult {
    let t: String = c.param("t")?;
    c.build(format!("pong {t}")).ok()
}
fn app(variant: usize) -> App<Vec<u8>> {
    let mut a: App<Vec<u8>> = if variant % 2 == 0 { App::default() } else { App::new() };
    a.set_app_state(vec![7; 10]);
    macro_rules! all {
        ($r:ident, $p:expr) => {
            $r.get($p, probe);
            $r.post($p, probe);
            $r.put($p, probe);
            $r.patch($p, probe);
            $r.delete($p, probe);
        };
    }
    if variant % 3 == 0 {
        a.use_service(Look);
    }
    a.get("/canary/:t", pong);
    all!(a, "/p/:a");
    all!(a, "/p/:a/:b");
    all!(a, "/w/*");
    all!(a, "/lit");
    all!(a, "/literal/longer");
    all!(a, "/é/ü");
    let mut n = Router::new();
    n.use_service(Look);
    all!(n, "/x/:a");
    all!(n, "/*");
    a.use_router("/nest", n);
    if variant % 4 != 3 {
        all!(a, "/");
    } else {
        all!(a, "/*");
    }
    a.use_static_to("/st", &format!("{}/hostile", rel_scratch()));
    a
}
/// The scratch directory relative to the working directory (how static mounts take directories).
fn rel_scratch() -> String {
    scratch().to_string()
}
fn files() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let d = format!("{}/hostile/sub", scratch());
        std::fs::create_dir_all(&d).unwrap();
        std::fs::write(format!("{}/hostile/a.txt", scratch()), b"file a").unwrap();
        std::fs::write(format!("{d}/b.bin"), vec![0u8; 70_000]).unwrap();
    });
}

// ---------------------------------------------------------------- valid requests of every shape
const PCHAR: &[u8] = b"abcXYZ019-._~!$&'()*+,;=:@";
fn weird_seg(rng: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..rng.size(30) {
        match rng.below(8) {
            0 => s.push_str(&format!("%{:02X}", rng.below(256))),
            1 => s.push_str(*rng.pick(&["%2F", "%2e%2e", "%00", "%25", "%C3%A9", "%ff", "%2f", "..", ":", "*"])),
            _ => s.push(PCHAR[rng.below(PCHAR.len())] as char),
        }
    }
    s
}
fn weird_path(rng: &mut Rng) -> String {
    let strs = &dict().strs;
    let mut p = match rng.below(22) {
        0 => String::new(),
        1 => "/p".into(),
        2 => "/w".into(),
        3 => "/nest".into(),
        4 => "/st".into(),
        5 => "/nest/x".into(),
        6 => "/lit".into(),
        7 => "/literal/longer".into(),
        8 => "/p/".into(),
        9 => "/canary".into(),
        10 => "/st/sub".into(),
        11 => format!("/{}", ["l", "li", "lite", "literal", "literal/", "litera/longer", "pp", "ne", "nes", "c"][rng.below(10)]),
        12 | 13 | 14 => "/w".into(),
        15 | 16 => "/nest".into(),
        17 => format!("/p/{}", rng.below(1000)),
        18 => "/lit".into(),
        _ => String::new(),
    };
    if (p == "/lit" || p.starts_with("/p/")) && rng.chance(1, 2) {
        return p;
    }
    for _ in 0..rng.size(6) {
        p.push('/');
        match rng.below(7) {
            0 => {}
            1 => p.push_str(*rng.pick(&["..", ".", "*", ":a", ":", "a.txt", "b.bin", "sub", "%2e%2e", "~"])),
            2 if !strs.is_empty() => {
                let s = rng.pick(strs);
                p.extend(s.chars().filter(|c| PCHAR.contains(&(*c as u8)) && c.is_ascii()));
            }
            _ => p.push_str(&weird_seg(rng)),
        }
    }
    if rng.chance(1, 30) {
        let n = rng.size(40_000);
        p.push('/');
        for i in 0..n {
            p.push(if i % 7 == 6 && rng.chance(1, 3) { '/' } else { 'q' });
        }
    }
    if rng.chance(1, 25) {
        // one thing over and over
        let u = *rng.pick(&["/", "/", "/a", "/.", "/..", "/:", "/:id", "/*", "%2F", "%", "//w", "/w", "/n", "~", "/%2e%2e", "/é", ";", "./", "/st"]);
        let u = if u == "%" || u == "/é" { "%25" } else { u };
        let most = if rng.chance(1, 2) { 60_000 } else { 9_000 };
        let mut row = u.repeat(rng.range(most / 10, most) / u.len());
        if rng.chance(1, 2) {
            std::mem::swap(&mut p, &mut row);
        }
        p.push_str(&row);
        if rng.chance(1, 2) {
            p.push('x');
        }
    }
    if rng.chance(1, 10) {
        p.push('/');
    }
    if !p.starts_with('/') {
        p.insert(0, '/');
    }
    p
}
fn weird_query(rng: &mut Rng) -> String {
    let mut q = String::new();
    let n = rng.size(40);
    for i in 0..n {
        if i > 0 {
            q.push(*rng.pick(&['&', '&', '&', ';', '?']));
        }
        let name = match rng.below(4) {
            0 => weird_seg(rng),
            _ => rng.pick(&["id", "n", "big", "f", "b", "c", "s", "list", "nums", "pair", "d", "mode", "", "list[]", "list[0]", "a"]).to_string(),
        };
        q.push_str(&name);
        if rng.chance(7, 8) {
            q.push('=');
            let v = match rng.below(9) {
                0 => weird_seg(rng),
                1 => String::new(),
                2 => rng.pick(&["-1", "0", "255", "256", "99999999999999999999999", "-0", "1e400", "NaN", "inf", "true", "on", "1.5", "0x10", "+5", "%2B5", "%20", "+"]).to_string(),
                3 => "9".repeat(rng.size(2000)),
                4 => rng.pick(&["%", "%4", "%zz", "%FF%FE", "%E9", "%F0%9F%98%80", "%00", "%0d%0a", "==", "?/"]).to_string().replace("%zz", "%25zz"),
                _ => format!("{}", rng.next() as i64 >> rng.below(64)),
            };
            // a lone percent sign is not in the grammar
            let v = match v.as_str() {
                "%" | "%4" => "%25".to_string(),
                _ => v,
            };
            q.push_str(&v);
        }
    }
    if rng.chance(1, 30) {
        let u = *rng.pick(&["&", "=", "a&", "a=&", "a=1&", ";", "[", "list=1&", "list[]=&", "+", "%41", "?", "a[b]", "&&=", "list=&list=1&"]);
        let most = if rng.chance(1, 2) { 48_000 } else { 5_000 };
        q.push_str(&u.repeat(rng.range(most / 10, most) / u.len()));
    }
    q.truncate(50_000);
    while q.ends_with('%') || q.len() > 1 && q.as_bytes()[q.len() - 2] == b'%' {
        q.pop();
    }
    q
}
const TCHAR: &[u8] = b"!#$%&'*+-.^_`|~09azAZ";
fn weird_headers(rng: &mut Rng) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut h = vec![];
    let many = rng.chance(1, 12);
    for _ in 0..if many { rng.range(20, 90) } else { rng.size(8) } {
        let name: Vec<u8> = match rng.below(4) {
            0 => (0..rng.size(30).max(1)).map(|_| *rng.pick(TCHAR)).collect(),
            1 => {
                let s = dict().strs.get(rng.below(dict().strs.len().max(1))).cloned().unwrap_or_default();
                let s: Vec<u8> = s.bytes().filter(|b| TCHAR.contains(b) || b.is_ascii_alphanumeric()).collect();
                if s.is_empty() {
                    b"x".to_vec()
                } else {
                    s
                }
            }
            _ => rng
                .pick(&[
                    "User-Agent", "Cookie", "Accept", "Referer", "X-Forwarded-For", "Range", "If-None-Match", "If-Modified-Since", "Authorization", "Content-Type", "Accept-Encoding", "Origin", "Forwarded", "Via",
                    "Cache-Control", "From", "Date", "Warning", "X-Request-Id", "Content-Language", "Content-Encoding", "Accept-Language", "Max-Forwards", "Pragma", "X-Real-Ip", "Content-Range", "TE", "Keep-Alive",
                ])
                .as_bytes()
                .to_vec(),
        };
        // framing is the generator's own business
        let low = String::from_utf8_lossy(&name).to_ascii_lowercase();
        if ["content-length", "transfer-encoding", "connection", "expect", "upgrade", "host", "x-read", "trailer", "http2-settings"].contains(&low.as_str()) {
            continue;
        }
        let value: Vec<u8> = match rng.below(8) {
            0 => vec![],
            1 => (0..rng.size(60)).map(|_| rng.range(0x80, 0xff) as u8).collect(),
            2 => (0..rng.size(300)).map(|_| rng.range(0x20, 0x7e) as u8).collect(),
            3 => "é\u{1F600}ü".as_bytes().to_vec(),
            4 => rng.pick(&["\t", "a\tb", "\"", "\\", "a,b;c=d", "bytes=0-0", "bytes=9999-1", "Thu, 32 Foo 2020", "W/\"x\"", "*", "-1", "a=b; a=b; =; ;", "%s%n", "gzip;q=nan", "{}{:?}"]).as_bytes().to_vec(),
            5 => vec![b'v'; rng.size(9000)],
            _ => format!("{}", rng.next()).into_bytes(),
        };
        h.push((name, trim(&value).to_vec()));
    }
    h
}
fn weird_body(rng: &mut Rng) -> (&'static str, Vec<u8>) {
    let how = *rng.pick(&["json", "json-s", "json-l", "form", "form-s", "form-x", "raw"]);
    let mut b: Vec<u8> = match rng.below(12) {
        0 => vec![],
        1 => {
            let d = *rng.pick(&[100usize, 127, 128, 129, 1000, 20_000, 200_000]);
            let (o, c) = *rng.pick(&[("[", "]"), ("{\"a\":", "}"), ("[{\"a\":[", "")]);
            let mut s = o.repeat(d);
            s.push('1');
            s.push_str(&c.repeat(d));
            s.into_bytes()
        }
        2 => crate::p_resp::gen_json(rng, 4).to_string().into_bytes(),
        3 => rng.pick(&["1e999", "-", "\"\\ud800\"", "\"\\u0000\"", "{\"a\":1,\"a\":2}", "[1,]", "nul", "\u{feff}{}", "{\"id\":1e3}", "123456789012345678901234567890", "[]]", "{\"id\":null,\"n\":300,\"c\":\"ab\"}"]).as_bytes().to_vec(),
        4 | 5 | 6 => weird_query(rng).into_bytes(),
        7 => {
            let n = rng.size(3000);
            crate::p_resp::rand_bytes(rng, n)
        }
        8 => {
            let n = if rng.chance(1, 8) { rng.range(50_000, 500_000) } else { rng.size(2000) };
            rng.pick(&["a=1&", "a=1&", "&", "=&", "a=&", "list=1&", "a", "{\"a\":", "+"]).repeat(n).into_bytes()
        }
        9 => {
            let n = rng.size(2000);
            (0..n).map(|i| format!("k{i}={i}")).collect::<Vec<_>>().join("&").into_bytes()
        }
        _ => {
            let n = rng.size(200_000);
            vec![*rng.pick(b"a&=%+[{\"\x00\xff"); n]
        }
    };
    if rng.chance(1, 6) && !b.is_empty() {
        let k = rng.below(b.len());
        b[k] = rng.below(256) as u8;
    }
    (how, b)
}
struct Valid {
    method: String,
    target: String,
    headers: Vec<(Vec<u8>, Vec<u8>)>,
    body: Vec<u8>,
    wire: Vec<u8>,
    /// whatever follows on this connection is answered as well
    keeps: bool,
    cut: Option<usize>,
}
fn valid(rng: &mut Rng, port: u16) -> Valid {
    let method = match rng.below(10) {
        0 => rng.pick(&["HEAD", "OPTIONS", "TRACE", "PROPFIND", "BREW", "get", "Get", "M-SEARCH", "X", "QUERY", "PURGE", "LOCK"]).to_string(),
        1 => (0..rng.size(40).max(1)).map(|_| *rng.pick(TCHAR) as char).collect(),
        _ => rng.pick(&["GET", "GET", "POST", "PUT", "PATCH", "DELETE"]).to_string(),
    };
    let mut target = weird_path(rng);
    if rng.chance(2, 3) {
        target.push('?');
        target.push_str(&weird_query(rng));
    }
    let mut method = method;
    match rng.below(30) {
        0 => {
            method = "OPTIONS".into();
            target = "*".into();
        }
        1 => {
            method = "CONNECT".into();
            target = rng.pick(&["example.com:443", "127.0.0.1:1", "[::1]:443", "a:65535"]).to_string();
        }
        2 | 3 => target = format!("http://127.0.0.1:{port}{target}"),
        4 => target = format!("{}{}", rng.pick(&["HTTP://h", "https://h", "http://[::1]:8", "ftp://h", "foo://x.y"]), target),
        5 => target = "http://only.authority".into(),
        _ => {}
    }
    let headers = weird_headers(rng);
    let v10 = rng.chance(1, 12);
    let mut wire = format!("{method} {target} HTTP/1.{}\r\n", if v10 { 0 } else { 1 }).into_bytes();
    let mut keeps = !v10 && method != "CONNECT";
    match rng.below(20) {
        0 if v10 => {}
        1 => wire.extend_from_slice(b"Host:\r\n"),
        _ => wire.extend_from_slice(format!("{}: 127.0.0.1:{port}\r\n", rng.pick(&["Host", "host", "HOST"])).as_bytes()),
    }
    let mut hs = headers.clone();
    let mut body = vec![];
    let has_body = rng.chance(1, 2) && method != "CONNECT" && method != "TRACE" && method != "HEAD";
    let mut read = "raw";
    if has_body {
        let (how, b) = weird_body(rng);
        read = how;
        body = b;
        if rng.chance(1, 15) {
            read = "none";
        }
        // a body nobody reads may cost its connection; only a small one is sent without risking the answer
        let read_by_handler = read != "none" && ["GET", "POST", "PUT", "PATCH", "DELETE"].contains(&method.as_str());
        let surely = ["/p/", "/w/", "/lit?", "/nest/"].iter().any(|p| target.starts_with(p)) || target == "/lit";
        if !(read_by_handler && surely) {
            body.truncate(1500);
            keeps = false;
        } else {
            // the path may still lead nowhere
            if !(target.starts_with("/w/") || target == "/lit" || target.starts_with("/lit?")) {
                body.truncate(1500);
                keeps = false;
            }
        }
        hs.push((b"X-Read".to_vec(), read.as_bytes().to_vec()));
    }
    if rng.chance(1, 12) {
        hs.push((b"Connection".to_vec(), rng.pick(&["close", "keep-alive", "Keep-Alive, close", "foo", "te, close"]).as_bytes().to_vec()));
        keeps = false;
    }
    if rng.chance(1, 30) {
        hs.push((b"Upgrade".to_vec(), rng.pick(&["websocket", "h2c", "foo/2"]).as_bytes().to_vec()));
        hs.push((b"Connection".to_vec(), b"upgrade".to_vec()));
        keeps = false;
    }
    let mut framed = vec![];
    if has_body {
        if !v10 && rng.chance(2, 5) {
            hs.push((b"Transfer-Encoding".to_vec(), rng.pick(&["chunked", "Chunked", "chunked"]).as_bytes().to_vec()));
            let mut p = 0;
            while p < body.len() {
                let n = rng.size(20_000).max(1).min(body.len() - p);
                framed.extend_from_slice(format!("{:0w$x}{}\r\n", n, ["", ";a", ";a=b", ";a=\"q\""][rng.below(4)], w = rng.range(1, 4)).as_bytes());
                framed.extend_from_slice(&body[p..p + n]);
                framed.extend_from_slice(b"\r\n");
                p += n;
            }
            framed.extend_from_slice(b"0\r\n");
            framed.extend_from_slice(b"\r\n");
        } else {
            hs.push((b"Content-Length".to_vec(), format!("{}", body.len()).into_bytes()));
            framed = body.clone();
        }
        if !v10 && rng.chance(1, 15) {
            // the client does not wait for the interim answer
            hs.push((b"Expect".to_vec(), b"100-continue".to_vec()));
        }
    } else if rng.chance(1, 8) && method != "CONNECT" {
        hs.push((b"Content-Length".to_vec(), b"0".to_vec()));
    }
    rng.shuffle(&mut hs);
    for (k, v) in &hs {
        wire.extend_from_slice(k);
        wire.extend_from_slice([&b": "[..], b":", b":  ", b":\t"][rng.below(4)]);
        wire.extend_from_slice(v);
        if rng.chance(1, 10) {
            wire.extend_from_slice(b" ");
        }
        wire.extend_from_slice(b"\r\n");
    }
    wire.extend_from_slice(b"\r\n");
    wire.extend_from_slice(&framed);
    let _ = read;
    let cut = rng.chance(1, 4).then(|| rng.below(wire.len().min(3000)));
    Valid { method, target, headers: hs, body, wire, keeps, cut }
}
/// The final answer, interim ones skipped.
fn answer(c: &mut Conn, head: bool) -> Result<Resp, Ce> {
    for _ in 0..20 {
        let r = c.read_response(head)?;
        if r.status != 100 {
            return Ok(r);
        }
    }
    Err(Ce::Malformed("interim answers without end".into()))
}
fn well_formed(r: &Resp) -> Result<(), String> {
    if !(200..600).contains(&r.status) {
        return Err(format!("status {}", r.status));
    }
    for (k, v) in &r.headers {
        if !k.bytes().all(|b| b.is_ascii_alphanumeric() || TCHAR.contains(&b)) || v.iter().any(|&b| (b < 0x20 && b != b'\t') || b == 0x7f) {
            return Err(format!("header {k}"));
        }
    }
    if r.all("date").len() > 1 {
        return Err("two dates".into());
    }
    Ok(())
}
fn canary(srv: &Server, kept: &mut Option<Conn>, t: u64, after: &Value) -> Result<(), Violation> {
    let want = format!("pong {t}");
    let rq = req("GET", &format!("/canary/{t}"), &[], b"");
    let mut fresh = match Conn::try_open(srv.port) {
        Some(c) => c,
        None => return viol("the server no longer accepts connections", after.clone()),
    };
    let a = fresh.send(&rq).and_then(|_| fresh.read_response_within(false, Duration::from_secs(40)));
    match a {
        Ok(r) if r.status == 200 && r.text() == want => {}
        Ok(r) => return viol("after hostile input another client gets a wrong answer", json!({"status": r.status, "body": show(&r.body), "after": after})),
        Err(e) => return viol("after hostile input another client gets no answer", json!({"client_saw": format!("{e:?}"), "after": after})),
    }
    if let Some(c) = kept {
        match c.send(&rq).and_then(|_| c.read_response_within(false, Duration::from_secs(40))) {
            Ok(r) if r.status == 200 && r.text() == want => {}
            x => return viol("hostile input broke the connection of another client", json!({"client_saw": format!("{x:?}"), "after": after})),
        }
    }
    if !srv.is_running() {
        return viol("the server ended", after.clone());
    }
    Ok(())
}
fn no_panics(seen: &Mutex<usize>, after: &Value) -> Result<(), Violation> {
    let p = framework_panics();
    let mut g = seen.lock().unwrap();
    if p.len() > *g {
        let f = p[*g].clone();
        *g = p.len();
        return viol(format!("framework code panicked: {}", f.msg), json!({"at": f.loc, "thread": f.thread, "after": after}));
    }
    Ok(())
}

// ---------------------------------------------------------------- raw HTTP/2
pub fn frame(kind: u8, flags: u8, stream: u32, payload: &[u8]) -> Vec<u8> {
    let n = payload.len() as u32;
    let mut v = vec![(n >> 16) as u8, (n >> 8) as u8, n as u8, kind, flags];
    v.extend_from_slice(&stream.to_be_bytes());
    v.extend_from_slice(payload);
    v
}
fn hp_int(v: &mut Vec<u8>, n: usize) {
    if n < 127 {
        v.push(n as u8);
    } else {
        v.push(127);
        let mut r = n - 127;
        while r >= 128 {
            v.push((r % 128 + 128) as u8);
            r /= 128;
        }
        v.push(r as u8);
    }
}
pub fn hpack(h: &[(&[u8], &[u8])]) -> Vec<u8> {
    let mut v = vec![];
    for (k, x) in h {
        v.push(0);
        hp_int(&mut v, k.len());
        v.extend_from_slice(k);
        hp_int(&mut v, x.len());
        v.extend_from_slice(x);
    }
    v
}
pub const PREFACE: &[u8] = b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n";
/// Whether streams 1,3,.. got complete answers.
fn h2_read(c: &mut Conn, streams: &[u32], d: Duration) -> Result<Vec<u32>, Ce> {
    use std::io::Read;
    c.s.set_read_timeout(Some(d)).unwrap();
    let mut done = vec![];
    let mut buf = vec![];
    let mut tmp = [0u8; 16384];
    let mut p = 0;
    while done.len() < streams.len() {
        while buf.len() < p + 9 || buf.len() < p + 9 + (((buf[p] as usize) << 16) | ((buf[p + 1] as usize) << 8) | buf[p + 2] as usize) {
            match c.s.read(&mut tmp) {
                Ok(0) => return Err(Ce::Closed),
                Ok(n) => buf.extend_from_slice(&tmp[..n]),
                Err(e) if e.kind() == std::io::ErrorKind::ConnectionReset => return Err(Ce::Closed),
                Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => return Err(Ce::Timeout),
                Err(e) => return Err(Ce::Io(e.to_string())),
            }
        }
        let n = ((buf[p] as usize) << 16) | ((buf[p + 1] as usize) << 8) | buf[p + 2] as usize;
        let (kind, flags) = (buf[p + 3], buf[p + 4]);
        let sid = u32::from_be_bytes([buf[p + 5], buf[p + 6], buf[p + 7], buf[p + 8]]) & 0x7fff_ffff;
        p += 9 + n;
        match kind {
            0 | 1 if flags & 1 != 0 && streams.contains(&sid) => done.push(sid),
            3 if streams.contains(&sid) && !done.contains(&sid) => return Err(Ce::Malformed("the stream was reset".into())),
            7 => return Err(Ce::Malformed("the connection was given up (GOAWAY)".into())),
            _ => {}
        }
    }
    Ok(done)
}

// ---------------------------------------------------------------- hostile bytes
fn hostile(rng: &mut Rng, port: u16) -> (&'static str, Vec<u8>) {
    match rng.below(14) {
        0 => {
            let n = rng.size(4000);
            ("noise", crate::p_resp::rand_bytes(rng, n))
        }
        1 => {
            let n = rng.size(2000);
            ("printable noise", (0..n).map(|_| *rng.pick(b"GETPOST /HTTP1.\r\n: abc%&=?")).collect())
        }
        2 | 3 | 4 => {
            let mut w = valid(rng, port).wire;
            for _ in 0..rng.range(1, 6) {
                if w.is_empty() {
                    break;
                }
                let k = rng.below(w.len().min(400));
                match rng.below(6) {
                    0 => w[k] = rng.below(256) as u8,
                    1 => {
                        w.remove(k);
                    }
                    2 => w.insert(k, *rng.pick(b"\0\r\n :\x80\xff/%?#")),
                    3 => {
                        let e = (k + rng.size(50)).min(w.len());
                        w.drain(k..e);
                    }
                    4 => {
                        let e = (k + rng.size(50)).min(w.len());
                        let part = w[k..e].to_vec();
                        for _ in 0..rng.range(1, 5) {
                            w.splice(k..k, part.iter().copied());
                        }
                    }
                    _ => w[k] ^= 1 << rng.below(8),
                }
            }
            ("mutated request", w)
        }
        5 => {
            let w = valid(rng, port).wire;
            let k = rng.below(w.len());
            ("cut request", w[..k].to_vec())
        }
        6 => {
            let t = *rng.pick(&[
                "POST /w/x HTTP/1.1\r\nhost: t\r\ncontent-length: 99999999999999999999\r\n\r\nabc",
                "POST /w/x HTTP/1.1\r\nhost: t\r\ncontent-length: -1\r\n\r\nabc",
                "POST /w/x HTTP/1.1\r\nhost: t\r\ncontent-length: 5\r\ncontent-length: 6\r\n\r\nabcdef",
                "POST /w/x HTTP/1.1\r\nhost: t\r\ncontent-length: 5\r\ntransfer-encoding: chunked\r\n\r\n0\r\n\r\n",
                "POST /w/x HTTP/1.1\r\nhost: t\r\ntransfer-encoding: chunked\r\n\r\nFFFFFFFFFFFFFFFFF\r\n",
                "POST /w/x HTTP/1.1\r\nhost: t\r\ntransfer-encoding: chunked\r\n\r\nzz\r\n",
                "POST /w/x HTTP/1.1\r\nhost: t\r\ntransfer-encoding: gzip\r\n\r\nabc",
                "POST /w/x HTTP/1.1\r\nhost: t\r\nx-read: json\r\ncontent-length: 18446744073709551615\r\n\r\n{}",
                "POST /w/x HTTP/1.1\r\nhost: t\r\nx-read: form\r\ncontent-length: 9223372036854775807\r\n\r\na=b",
                "GET  /w HTTP/1.1\r\n\r\n",
                "GET /w\r\n",
                "GET /w HTTP/9.9\r\n\r\n",
                "GET /\u{e9} HTTP/1.1\r\nhost: t\r\n\r\n",
                "GET /w/\u{1F600}/x HTTP/1.1\r\nhost: t\r\n\r\n",
                "GET /l\u{ef}t HTTP/1.1\r\nhost: t\r\n\r\n",
                "GET w/x HTTP/1.1\r\nhost: t\r\n\r\n",
                "GET ../../x HTTP/1.1\r\nhost: t\r\n\r\n",
                "GET ?a=b HTTP/1.1\r\nhost: t\r\n\r\n",
                "GET /w/x#frag HTTP/1.1\r\nhost: t\r\n\r\n",
                "GET http:// HTTP/1.1\r\nhost: t\r\n\r\n",
                "GET : HTTP/1.1\r\nhost: t\r\n\r\n",
                "GET a:b HTTP/1.1\r\nhost: t\r\n\r\n",
                "GET * HTTP/1.1\r\nhost: t\r\n\r\n",
                "GET example.com HTTP/1.1\r\nhost: t\r\n\r\n",
                "CONNECT / HTTP/1.1\r\nhost: t\r\n\r\n",
                "CONNECT a HTTP/1.1\r\nhost: t\r\n\r\nmore bytes",
                "GET /st/%00 HTTP/1.1\r\nhost: t\r\n\r\n",
                "GET /w HTTP/1.1\r\n x: y\r\n\r\n",
                "GET /w HTTP/1.1\r\nx y: z\r\n\r\n",
                "GET /w HTTP/1.1\r\n: z\r\n\r\n",
                "\r\n\r\n\r\n\r\n",
                "PRI * HTTP/2.0\r\n\r\n",
            ]);
            ("known trouble", t.as_bytes().to_vec())
        }
        7 => {
            let n = rng.range(100, 400);
            let mut s = b"GET /w HTTP/1.1\r\n".to_vec();
            for i in 0..n {
                s.extend_from_slice(format!("h{i}: v\r\n").as_bytes());
            }
            s.extend_from_slice(b"\r\n");
            ("too many headers", s)
        }
        8 => {
            let n = *rng.pick(&[8192usize, 65_534, 65_535, 65_536, 100_000, 450_000, 900_000]);
            ("endless line", if rng.chance(1, 2) { format!("GET /{} HTTP/1.1\r\n\r\n", "a".repeat(n)).into_bytes() } else { format!("GET /w HTTP/1.1\r\nx: {}\r\n\r\n", "a".repeat(n)).into_bytes() })
        }
        _ => {
            // HTTP/2: sensible frames with damage
            let mut v = PREFACE.to_vec();
            v.extend_from_slice(&frame(4, 0, 0, &[]));
            let mut sid = 1u32;
            for _ in 0..rng.range(1, 12) {
                let path = weird_path(rng);
                let m = *rng.pick(&["GET", "POST", "CONNECT", "", "\0"]);
                let kind = rng.below(12);
                let hs: Vec<(&[u8], &[u8])> = match kind {
                    0 => vec![(b":method", m.as_bytes())],
                    1 => vec![(b":method", b"CONNECT"), (b":authority", b"x:1")],
                    2 => vec![(b":method", b"GET"), (b":scheme", b"http"), (b":path", b"")],
                    3 => vec![(b":method", b"GET"), (b":scheme", b""), (b":path", path.as_bytes()), (b":authority", b"@:")],
                    4 => vec![(b":method", b"GET"), (b":scheme", b"http"), (b":path", b"*"), (b":authority", b"t")],
                    5 => vec![(b":method", b"GET"), (b":scheme", b"http"), (b":path", b"no-slash"), (b":authority", b"t")],
                    6 => vec![(b":method", b"GET"), (b":method", b"GET"), (b":scheme", b"http"), (b":path", path.as_bytes())],
                    7 => vec![(b":path", b"/\xc3\xa9\xff"), (b":method", b"GET"), (b":scheme", b"http")],
                    8 => vec![(b":method", b"GET"), (b":scheme", b"http"), (b":path", path.as_bytes()), (b"Upper", b"x"), (b"connection", b"close")],
                    _ => vec![(b":method", m.as_bytes()), (b":scheme", b"http"), (b":path", path.as_bytes()), (b":authority", b"t"), (b"x-read", b"json"), (b"cookie", b"\xff\xfe")],
                };
                let mut hp = hpack(&hs);
                if rng.chance(1, 5) && !hp.is_empty() {
                    let k = rng.below(hp.len());
                    hp[k] = rng.below(256) as u8;
                }
                match rng.below(9) {
                    0 => v.extend_from_slice(&frame(rng.below(12) as u8, rng.below(256) as u8, rng.next() as u32, &crate::p_resp::rand_bytes(rng, 9))),
                    1 => v.extend_from_slice(&frame(3, 0, sid, &[0, 0, 0, 8])),
                    2 => v.extend_from_slice(&frame(8, 0, if rng.chance(1, 2) { 0 } else { sid }, &[0x7f, 0xff, 0xff, 0xff])),
                    3 => v.extend_from_slice(&frame(6, 0, 0, &[1; 8])),
                    4 => v.extend_from_slice(&frame(4, 0, 0, &[0, rng.below(8) as u8, rng.next() as u8, rng.next() as u8, rng.next() as u8, rng.next() as u8])),
                    5 => {
                        // headers in pieces
                        let k = rng.below(hp.len() + 1);
                        v.extend_from_slice(&frame(1, 1, sid, &hp[..k]));
                        v.extend_from_slice(&frame(9, 4, sid, &hp[k..]));
                        sid += 2;
                    }
                    6 => {
                        v.extend_from_slice(&frame(1, 4, sid, &hp));
                        let n = rng.size(3000);
                        v.extend_from_slice(&frame(0, rng.below(2) as u8, sid, &vec![b'{'; n]));
                        if rng.chance(1, 2) {
                            v.extend_from_slice(&frame(3, 0, sid, &[0, 0, 0, 8]));
                        }
                        sid += 2;
                    }
                    _ => {
                        v.extend_from_slice(&frame(1, 5, sid, &hp));
                        if rng.chance(1, 4) {
                            v.extend_from_slice(&frame(3, 0, sid, &[0, 0, 0, 8]));
                        }
                        sid += 2;
                    }
                }
            }
            if rng.chance(1, 3) {
                let k = rng.range(24, v.len() - 1);
                match rng.below(3) {
                    0 => v[k] = rng.below(256) as u8,
                    1 => v.truncate(k),
                    _ => {
                        v.remove(k);
                    }
                }
            }
            ("http2 frames", v)
        }
    }
}
/// Delivers the bytes and goes away in one of several manners.
fn deliver(rng: &mut Rng, port: u16, bytes: &[u8]) -> (&'static str, Option<Conn>) {
    let Some(mut c) = Conn::try_open(port) else { return ("not accepted", None) };
    c.s.set_write_timeout(Some(Duration::from_secs(5))).ok();
    let mut p = 0;
    let pieces = if rng.chance(1, 3) { rng.range(2, 6) } else { 1 };
    for i in 0..pieces {
        let e = if i + 1 == pieces { bytes.len() } else { rng.range(p, bytes.len()) };
        if c.send(&bytes[p..e]).is_err() {
            break;
        }
        p = e;
        if pieces > 1 {
            std::thread::sleep(Duration::from_micros(rng.range(0, 300) as u64));
        }
    }
    match rng.below(6) {
        0 => {
            c.abort();
            ("reset", None)
        }
        1 => ("close", None),
        2 => {
            c.shutdown_write();
            let _ = c.s.set_read_timeout(Some(Duration::from_millis(100)));
            let _ = c.drain();
            ("half close", None)
        }
        3 => {
            let _ = c.read_response_within(false, Duration::from_millis(20));
            c.abort();
            ("read some, reset", None)
        }
        4 => {
            let _ = c.read_response_within(false, Duration::from_millis(50));
            ("read some, close", None)
        }
        _ => ("stay", Some(c)),
    }
}

pub fn c12(cx: &Arc<Cx>) {
    cx.rule("(a) syntactically valid requests of every shape (any method token, all four target forms, any path/query bytes the grammar allows, any header names/values, HTTP/1.0 and 1.1 and 2, any body in any framing) to applications whose handlers use every decoder of the context: each must get a complete, well-formed answer; (b) hostile bytes (noise, mutated and cut requests, known trouble, oversized heads, damaged HTTP/2) from several clients at once, ending by reset, close, half close or not at all, and crowds of open or vanishing connections: afterwards the server must run, accept and answer other clients, also on connections opened before; (c) the router and the context called directly on arbitrary text; no panic may come out of the framework in any of them; an evaluation is one request or one hostile connection; non-trivial: distinct byte strings sent");
    cx.assume("status codes and contents of answers to odd requests are not judged here; panics raised on purpose in handlers are not part of this workload");
    files();
    cx.plan(5);
    let seen = Mutex::new(0usize);
    // (a)
    cx.cases("valid", cx.n(420), 8, |rng, i, rep| {
        let srv = Server::start(|| app(i as usize))?;
        for k in 0..rng.range(5, 25) {
            let v = valid(rng, srv.port);
            let d = json!({"request": show(&v.wire), "bytes": v.wire.len(), "cut": v.cut});
            rep.eval(Some(hash_of(&v.wire)));
            let mut c = srv.connect();
            let sent = match v.cut {
                Some(k) => c.send(&v.wire[..k]).and_then(|_| {
                    std::thread::sleep(Duration::from_micros(200));
                    c.send(&v.wire[k..])
                }),
                None => c.send(&v.wire),
            };
            // a server may answer and hang up before it has read everything
            let a = answer(&mut c, v.method == "HEAD");
            let r = match (a, sent) {
                (Ok(r), _) => r,
                (Err(e), s) => {
                    no_panics(&seen, &d)?;
                    return lost("a valid request", e, json!({"request": d, "sent": format!("{s:?}")}));
                }
            };
            if let Err(e) = well_formed(&r) {
                return viol("the answer to a valid request is not well-formed", json!({"problem": e, "status": r.status, "request": d}));
            }
            if r.status == 404 {
                rep.count("answers_404", 1);
            } else if r.status == 200 {
                rep.count("answers_200", 1);
            } else {
                rep.count("answers_other", 1);
            }
            if v.method == "CONNECT" {
                rep.count("connect", 1);
            }
            // the answer ends where it says it does
            if v.keeps && !r.will_close() && r.status < 400 {
                let t = rng.next();
                match c.roundtrip(&req("GET", &format!("/canary/{t}"), &[], b"")) {
                    Ok(q) if q.status == 200 && q.text() == format!("pong {t}") => rep.count("followed_up", 1),
                    x => return viol("after the answer to a valid request its connection is out of step", json!({"client_saw": format!("{x:?}"), "first": r.status, "request": d})),
                }
            }
            no_panics(&seen, &d)?;
            if i == 0 && k == 0 {
                rep.sample = Some(d);
            }
            let _ = (&v.target, &v.headers, &v.body);
        }
        let mut none = None;
        canary(&srv, &mut none, rng.next(), &json!("valid requests"))
    });
    cx.cases("valid-h2", cx.n(120), 4, |rng, i, rep| {
        let srv = Server::start(|| app(i as usize))?;
        // through a client library
        let mut reqs: Vec<h2::Req> = vec![];
        for _ in 0..rng.range(3, 12) {
            let mut t = weird_path(rng);
            t.truncate(8000);
            while t.ends_with('%') || t.len() > 1 && t.as_bytes()[t.len() - 2] == b'%' {
                t.pop();
            }
            if rng.chance(1, 2) {
                let mut q = weird_query(rng);
                q.truncate(4000);
                t = format!("{t}?{q}");
            }
            if t.parse::<hyper::Uri>().is_err() {
                continue;
            }
            let mut hs: Vec<(String, Vec<u8>)> = weird_headers(rng)
                .into_iter()
                .filter(|h| h.1.len() < 2000)
                .take(30)
                .map(|(k, v)| (String::from_utf8_lossy(&k).to_ascii_lowercase(), v))
                .filter(|(k, v)| !["te", "keep-alive", "proxy-connection"].contains(&k.as_str()) && hyper::header::HeaderName::from_bytes(k.as_bytes()).is_ok() && hyper::header::HeaderValue::from_bytes(v).is_ok())
                .collect();
            let (how, mut b) = weird_body(rng);
            b.truncate(15_000);
            hs.push(("x-read".into(), how.as_bytes().to_vec()));
            let m = rng.pick(&["GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "BREW"]).to_string();
            if m == "HEAD" || rng.chance(1, 3) {
                b.clear();
            }
            reqs.push((m, t, hs, b));
        }
        let ans = h2::all(srv.port, reqs.clone());
        for (q, a) in reqs.iter().zip(ans) {
            rep.eval(Some(hash_of(&(&q.0, &q.1, &q.2, &q.3))));
            let d = json!({"method": q.0, "target": show(q.1.as_bytes()), "body": show(&q.3), "headers": q.2.iter().map(|h| format!("{}: {}", h.0, show(&h.1))).collect::<Vec<_>>()});
            match a {
                Ok(r) => {
                    if let Err(e) = well_formed(&r) {
                        return viol("the answer to a valid request is not well-formed (HTTP/2)", json!({"problem": e, "request": d}));
                    }
                    rep.count("h2_answers", 1);
                }
                // a body nobody reads may have its stream reset after the answer; the client then reports the reset
                Err(e) if !q.3.is_empty() && e.contains("stream no longer needed") => rep.count("h2_reset_after_answer", 1),
                Err(e) => {
                    no_panics(&seen, &d)?;
                    return h2::lost2("a valid request", e, d);
                }
            }
            no_panics(&seen, &d)?;
        }
        // by hand, what client libraries do not send
        let mut c = srv.connect();
        let mut w = PREFACE.to_vec();
        w.extend_from_slice(&frame(4, 0, 0, &[]));
        w.extend_from_slice(&frame(8, 0, 0, &[0, 0x7f, 0xff, 0xff]));
        let mut sids = vec![];
        let mut sent = vec![];
        for k in 0..rng.range(1, 6) {
            let sid = 1 + 2 * k as u32;
            let p = weird_path(rng);
            let p = if p.len() > 4000 { "/w/long".to_string() } else { p };
            let hs: Vec<(&[u8], &[u8])> = match rng.below(5) {
                0 => vec![(b":method", b"CONNECT"), (b":authority", b"example.com:443")],
                1 => vec![(b":method", b"OPTIONS"), (b":scheme", b"http"), (b":path", b"*"), (b":authority", b"t")],
                2 => vec![(b":method", b"GET"), (b":scheme", b"http"), (b":path", p.as_bytes())],
                3 => vec![(b":method", b"GET"), (b":scheme", b"https"), (b":path", p.as_bytes()), (b":authority", b"t"), (b"user-agent", b"\xe9\xff"), (b"cookie", b"a=b"), (b"cookie", b"c=d"), (b"te", b"trailers")],
                _ => vec![(b":method", b"BREW"), (b":scheme", b"http"), (b":path", p.as_bytes()), (b":authority", b"t"), (b"x-empty", b"")],
            };
            sent.push(hs.iter().map(|h| format!("{}={}", show(h.0), show(h.1))).collect::<Vec<_>>().join(" "));
            // a CONNECT stream is left open by its client
            let flags = if hs[0].1 == b"CONNECT" && rng.chance(1, 2) { 4 } else { 5 };
            w.extend_from_slice(&frame(1, flags, sid, &hpack(&hs)));
            sids.push(sid);
        }
        rep.eval(Some(hash_of(&w)));
        let d = json!({"streams": sent});
        let _ = c.send(&w);
        match h2_read(&mut c, &sids, TIMEOUT) {
            Ok(v) => rep.count("h2_raw_answers", v.len() as u64),
            Err(e) => {
                no_panics(&seen, &d)?;
                return lost("a valid HTTP/2 request", e, d);
            }
        }
        no_panics(&seen, &d)?;
        let mut none = None;
        canary(&srv, &mut none, rng.next(), &json!("HTTP/2 requests"))
    });
    // (b)
    cx.cases("hostile", cx.n(110), 4, |rng, i, rep| {
        let srv = Server::start(|| app(i as usize))?;
        let mut kept = Some(srv.connect());
        let clients = rng.range(1, 4);
        let per = rng.range(10, 60);
        let n = AtomicU64::new(0);
        let stay: Mutex<Vec<Conn>> = Mutex::new(vec![]);
        let log: Mutex<Vec<(u64, &'static str, &'static str)>> = Mutex::new(vec![]);
        let last: Mutex<Vec<Value>> = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for _ in 0..clients {
                let mut r = rng.fork();
                let (srv, n, stay, log, last) = (&srv, &n, &stay, &log, &last);
                s.spawn(move || {
                    for _ in 0..per {
                        let (kind, b) = hostile(&mut r, srv.port);
                        {
                            let mut l = last.lock().unwrap();
                            if l.len() > 6 {
                                l.remove(0);
                            }
                            l.push(json!({"kind": kind, "bytes": show(&b)}));
                        }
                        let (end, c) = deliver(&mut r, srv.port, &b);
                        log.lock().unwrap().push((hash_of(&b), kind, end));
                        n.fetch_add(1, Ordering::Relaxed);
                        if let Some(c) = c {
                            let mut g = stay.lock().unwrap();
                            g.push(c);
                            if g.len() > 40 {
                                let k = r.below(g.len());
                                drop(g.swap_remove(k));
                            }
                        }
                    }
                });
            }
        });
        let log = log.into_inner().unwrap();
        for l in &log {
            rep.eval(Some(l.0));
            rep.count(
                match l.1 {
                    "http2 frames" => "hostile_http2",
                    "cut request" => "hostile_cut",
                    "mutated request" => "hostile_mutated",
                    _ => "hostile_other",
                },
                1,
            );
        }
        let d = json!({"last_sent": last.into_inner().unwrap()});
        no_panics(&seen, &d)?;
        canary(&srv, &mut kept, rng.next(), &d)?;
        rep.count("connections_left_open", stay.lock().unwrap().len() as u64);
        drop(stay);
        canary(&srv, &mut kept, rng.next(), &d)?;
        no_panics(&seen, &d)
    });
    // crowds
    cx.cases("crowd", if cx.thorough { 24 } else { 6 }, 2, |rng, i, rep| {
        let srv = Server::start(|| app(i as usize))?;
        let mut kept = Some(srv.connect());
        let total = 1400;
        let mut open = vec![];
        let kind = i % 6;
        let name = ["idle", "half a head", "half a body", "reset after a head", "noise", "http2 preface only"][kind as usize];
        for k in 0..total {
            let Some(mut c) = Conn::try_open(srv.port) else {
                return viol("the server no longer accepts connections", json!({"after": k, "crowd": name}));
            };
            let _ = match kind {
                0 => Ok(()),
                1 => c.send(b"GET /w/x HTTP/1.1\r\nhost: t\r\nx-a"),
                2 => c.send(b"POST /w/x HTTP/1.1\r\nhost: t\r\ncontent-length: 100\r\nx-read: json\r\n\r\n{\"a\":"),
                3 => c.send(format!("GET /w/{k} HTTP/1.1\r\nhost: t\r\n\r\n").as_bytes()),
                4 => {
                    let n = rng.range(1, 50);
                    c.send(&crate::p_resp::rand_bytes(rng, n))
                }
                _ => c.send(PREFACE),
            };
            if kind == 3 {
                c.abort();
            } else if kind == 4 {
                drop(c);
            } else {
                open.push(c);
            }
            rep.eval(None);
        }
        rep.distinct.push(hash_of(&(i, total)));
        let d = json!({"crowd": name, "connections": total, "still_open": open.len()});
        for _ in 0..20 {
            canary(&srv, &mut kept, rng.next(), &d)?;
        }
        rep.count("crowd_connections", total);
        rep.count("crowd_open", open.len() as u64);
        for (k, c) in open.into_iter().enumerate() {
            if k % 2 == 0 {
                c.abort();
            }
        }
        canary(&srv, &mut kept, rng.next(), &d)?;
        no_panics(&seen, &d)?;
        rep.sample = Some(d);
        Ok(())
    });
    // (c)
    cx.cases("direct", cx.n(3000), 8, |rng, _, rep| {
        let mut r = Router::new();
        let h = |c: Context| async move { c.build("x").ok() };
        let pats = ["/", "/lit", "/literal/longer", "/li/:a", "/p/:a/:b", "/w/*", "/é/:x", "/éa/*", "/日本/:y/z", "/p/:a", "/plain"];
        for p in pats {
            if rng.chance(2, 3) {
                r.get(p, h);
            }
        }
        for _ in 0..30 {
            let t: String = match rng.below(5) {
                0 => {
                    let n = rng.size(40);
                    String::from_utf8_lossy(&crate::p_resp::rand_bytes(rng, n)).into_owned()
                }
                1 => (0..rng.size(30)).map(|_| *rng.pick(&['/', 'é', 'l', 'i', 't', '日', '本', ':', '*', ' ', '.', 'p', 'w', '\0', '\u{301}', 'è'])).collect(),
                2 => {
                    // a pattern with characters of it replaced, dropped or doubled
                    let mut v: Vec<char> = rng.pick(&pats).chars().collect();
                    for _ in 0..rng.range(1, 4) {
                        let k = rng.below(v.len().max(1));
                        if k < v.len() {
                            match rng.below(3) {
                                0 => v[k] = *rng.pick(&['/', 'è', 'é', '日', 'x', '本']),
                                1 => {
                                    v.remove(k);
                                }
                                _ => v.insert(k, v[k]),
                            }
                        }
                    }
                    v.into_iter().collect()
                }
                _ => weird_path(rng),
            };
            rep.eval(Some(hash_of(&t)));
            let got = refusable(|| {
                let v = r.search_route(&t);
                v.map(|v| v.get_params().len())
            });
            if let Err(p) = got {
                return viol(format!("looking up a path panics: {}", p.msg), json!({"path": t, "at": p.loc}));
            }
        }
        // the decoders, called as a handler calls them
        for _ in 0..6 {
            let (how, b) = weird_body(rng);
            let mut q = weird_query(rng);
            if rng.chance(1, 4) {
                q = q.chars().filter(|c| c.is_ascii_alphanumeric() || *c == '=' || *c == '&' || *c == '%').collect();
            }
            let Ok(rq) = hyper::Request::builder().uri(format!("/x?{q}")).header("x-read", how).body(Body::from(b.clone())) else { continue };
            rep.eval(Some(hash_of(&(&b, &q, how))));
            let mut params = HashMap::new();
            params.insert("a".to_string(), weird_seg(rng));
            params.insert("*".to_string(), q.clone());
            let got = refusable(|| {
                let c = Context::new(rq, params);
                block_on(probe(c)).is_ok()
            });
            if let Err(p) = got {
                return viol(format!("decoding panics: {}", p.msg), json!({"as": how, "body": show(&b), "query": show(q.as_bytes()), "at": p.loc}));
            }
        }
        Ok(())
    });
    cx.need("answers_200", 800);
    cx.need("answers_404", 200);
    cx.need("connect", 20);
    cx.need("followed_up", 300);
    cx.need("h2_answers", 200);
    cx.need("h2_raw_answers", 100);
    cx.need("hostile_http2", 500);
    cx.need("hostile_mutated", 300);
    cx.need("crowd_open", 2000);
}
