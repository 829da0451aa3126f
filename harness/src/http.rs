//! Serving real applications on loopback and talking to them at the byte level.
use crate::core::*;
use obsidian::App;
use serde_json::json;
use std::io::{ErrorKind, Read, Write};
use std::net::TcpStream;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::OnceLock;
use std::time::{Duration, Instant};
use tokio::runtime::Runtime;
use tokio::task::JoinHandle;

pub const WORKERS: usize = 4;
pub const TIMEOUT: Duration = Duration::from_secs(60);

pub fn rt() -> &'static Runtime {
    static R: OnceLock<Runtime> = OnceLock::new();
    R.get_or_init(|| {
        tokio::runtime::Builder::new_multi_thread()
            .worker_threads(WORKERS)
            .thread_name("srv")
            .enable_all()
            .build()
            .unwrap()
    })
}

pub fn free_port() -> u16 {
    static NEXT: AtomicU32 = AtomicU32::new(0);
    let base = std::process::id().wrapping_mul(761) % 12000;
    for _ in 0..12000 {
        let p = 20000 + ((base + NEXT.fetch_add(1, Ordering::Relaxed)) % 12000) as u16;
        if std::net::TcpListener::bind(("127.0.0.1", p)).is_ok() {
            return p;
        }
    }
    panic!("no free port");
}

pub struct Server {
    pub port: u16,
    handle: JoinHandle<()>,
}
impl Drop for Server {
    fn drop(&mut self) {
        self.handle.abort();
    }
}
impl Server {
    /// Serves the application built by `make` (called again when the port was taken meanwhile).
    pub fn start<T, F>(make: F) -> Result<Server, Violation>
    where
        T: Clone + Send + Sync + 'static,
        F: Fn() -> App<T>,
    {
        let mut last = String::new();
        for _ in 0..4 {
            let port = free_port();
            let app = make();
            let handle = rt().spawn(app.listen(port));
            let t = Instant::now();
            loop {
                if handle.is_finished() {
                    last = "listen() ended at once".into();
                    break;
                }
                match TcpStream::connect(("127.0.0.1", port)) {
                    Ok(_) => return Ok(Server { port, handle }),
                    Err(e) => last = format!("connect: {e}"),
                }
                if t.elapsed() > TIMEOUT {
                    break;
                }
                std::thread::sleep(Duration::from_micros(300));
            }
            handle.abort();
        }
        let p: Vec<_> = framework_panics().iter().rev().take(2).map(|p| format!("{} at {}", p.msg, p.loc)).collect();
        viol("the application does not start serving", json!({"last": last, "panics": p}))
    }
    pub fn connect(&self) -> Conn {
        Conn::open(self.port)
    }
    pub fn is_running(&self) -> bool {
        !self.handle.is_finished()
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Ce {
    Closed,
    Truncated(String),
    Timeout,
    Malformed(String),
    Io(String),
}
#[derive(Debug, Clone, PartialEq)]
pub struct Resp {
    pub status: u16,
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: Vec<u8>,
}
impl Resp {
    pub fn all(&self, name: &str) -> Vec<&[u8]> {
        self.headers.iter().filter(|h| h.0 == name).map(|h| &h.1[..]).collect()
    }
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.body).into_owned()
    }
    pub fn will_close(&self) -> bool {
        self.all("connection").iter().any(|v| v.eq_ignore_ascii_case(b"close"))
    }
}
pub struct Conn {
    pub s: TcpStream,
    pub buf: Vec<u8>,
    pos: usize,
    /// "100 Continue" is not an answer.
    pub skip_100: bool,
}
impl Conn {
    pub fn open(port: u16) -> Conn {
        let mut n = 0;
        loop {
            match TcpStream::connect(("127.0.0.1", port)) {
                Ok(s) => {
                    s.set_nodelay(true).unwrap();
                    s.set_read_timeout(Some(TIMEOUT)).unwrap();
                    s.set_write_timeout(Some(TIMEOUT)).unwrap();
                    return Conn { s, buf: vec![], pos: 0, skip_100: true };
                }
                Err(e) => {
                    n += 1;
                    if n > 2000 {
                        panic!("cannot connect: {e}");
                    }
                    std::thread::sleep(Duration::from_millis(5));
                }
            }
        }
    }
    pub fn try_open(port: u16) -> Option<Conn> {
        let s = TcpStream::connect(("127.0.0.1", port)).ok()?;
        s.set_nodelay(true).ok()?;
        s.set_read_timeout(Some(TIMEOUT)).ok()?;
        s.set_write_timeout(Some(TIMEOUT)).ok()?;
        Some(Conn { s, buf: vec![], pos: 0, skip_100: true })
    }
    pub fn send(&mut self, b: &[u8]) -> Result<(), Ce> {
        self.s.write_all(b).map_err(|e| Ce::Io(e.to_string()))
    }
    fn fill(&mut self) -> Result<usize, Ce> {
        if self.pos > 1 << 16 {
            self.buf.drain(..self.pos);
            self.pos = 0;
        }
        let mut tmp = [0u8; 16384];
        loop {
            return match self.s.read(&mut tmp) {
                Ok(n) => {
                    self.buf.extend_from_slice(&tmp[..n]);
                    Ok(n)
                }
                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
                Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => Err(Ce::Timeout),
                Err(e) if e.kind() == ErrorKind::ConnectionReset => Ok(0),
                Err(e) => Err(Ce::Io(e.to_string())),
            };
        }
    }
    /// True when a complete head could be read without blocking forever (used by non-blocking polls).
    pub fn has_buffered(&self) -> bool {
        self.pos < self.buf.len()
    }
    /// The read timeout only applies to this call.
    pub fn read_response_within(&mut self, head: bool, d: Duration) -> Result<Resp, Ce> {
        self.s.set_read_timeout(Some(d)).unwrap();
        let save = (self.pos, self.buf.len());
        let r = self.read_response(head);
        if r == Err(Ce::Timeout) && self.buf.len() >= save.1 {
            // keep what was read; parse again later
            self.pos = self.pos.min(save.0.max(self.pos));
        }
        self.s.set_read_timeout(Some(TIMEOUT)).unwrap();
        r
    }
    pub fn read_response(&mut self, head: bool) -> Result<Resp, Ce> {
        loop {
            let r = self.read_any(head)?;
            if r.status != 100 || !self.skip_100 {
                return Ok(r);
            }
        }
    }
    fn read_any(&mut self, head: bool) -> Result<Resp, Ce> {
        self.buf.drain(..self.pos);
        self.pos = 0;
        // head
        let end = loop {
            if let Some(i) = find(&self.buf, b"\r\n\r\n") {
                break i;
            }
            if self.fill()? == 0 {
                return if self.buf.is_empty() {
                    Err(Ce::Closed)
                } else {
                    Err(Ce::Truncated(format!("head: {}", show(&self.buf))))
                };
            }
        };
        let headb = self.buf[..end].to_vec();
        let mut p = end + 4;
        let mut lines = split_lines(&headb).into_iter();
        let first = lines.next().unwrap_or_default();
        if !(first.starts_with(b"HTTP/1.1 ") || first.starts_with(b"HTTP/1.0 ")) || first.len() < 12 {
            return Err(Ce::Malformed(show(&first)));
        }
        let status: u16 = std::str::from_utf8(&first[9..12])
            .ok()
            .and_then(|s| s.parse().ok())
            .ok_or_else(|| Ce::Malformed(show(&first)))?;
        let mut headers = vec![];
        for l in lines {
            let c = l.iter().position(|&b| b == b':').ok_or_else(|| Ce::Malformed(show(&l)))?;
            let name = String::from_utf8_lossy(&l[..c]).to_ascii_lowercase();
            if name.is_empty() || name.contains(' ') {
                return Err(Ce::Malformed(show(&l)));
            }
            headers.push((name, trim(&l[c + 1..]).to_vec()));
        }
        let mut r = Resp { status, headers, body: vec![] };
        if !(head || status / 100 == 1 || status == 204 || status == 304) {
            let te = r.all("transfer-encoding").iter().any(|v| v.eq_ignore_ascii_case(b"chunked"));
            let cl = r.all("content-length");
            if te && !cl.is_empty() {
                return Err(Ce::Malformed("both content-length and chunked".into()));
            }
            if te {
                loop {
                    let e = loop {
                        if let Some(i) = find(&self.buf[p..], b"\r\n") {
                            break p + i;
                        }
                        if self.fill()? == 0 {
                            return Err(Ce::Truncated("chunk size".into()));
                        }
                    };
                    let n = std::str::from_utf8(&self.buf[p..e])
                        .ok()
                        .and_then(|s| usize::from_str_radix(s.trim(), 16).ok())
                        .ok_or_else(|| Ce::Malformed("chunk size".into()))?;
                    p = e + 2;
                    while self.buf.len() < p + n + 2 {
                        if self.fill()? == 0 {
                            return Err(Ce::Truncated("chunk".into()));
                        }
                    }
                    r.body.extend_from_slice(&self.buf[p..p + n]);
                    if &self.buf[p + n..p + n + 2] != b"\r\n" {
                        return Err(Ce::Malformed("chunk end".into()));
                    }
                    p += n + 2;
                    if n == 0 {
                        break;
                    }
                }
            } else if cl.len() == 1 {
                let n: usize = std::str::from_utf8(cl[0]).ok().and_then(|s| s.parse().ok()).ok_or_else(|| Ce::Malformed("content-length".into()))?;
                while self.buf.len() < p + n {
                    if self.fill()? == 0 {
                        return Err(Ce::Truncated(format!("body {} of {}", self.buf.len() - p, n)));
                    }
                }
                r.body = self.buf[p..p + n].to_vec();
                p += n;
            } else if cl.is_empty() {
                while self.fill()? != 0 {}
                r.body = self.buf[p..].to_vec();
                p = self.buf.len();
            } else {
                return Err(Ce::Malformed("several content-lengths".into()));
            }
        }
        self.pos = p;
        Ok(r)
    }
    pub fn roundtrip(&mut self, req: &[u8]) -> Result<Resp, Ce> {
        self.send(req)?;
        self.read_response(false)
    }
    /// Everything until the peer closes (bounded by the read timeout).
    pub fn drain(&mut self) -> Result<Vec<u8>, Ce> {
        while self.fill()? != 0 {}
        Ok(self.buf.split_off(self.pos))
    }
    pub fn shutdown_write(&self) {
        let _ = self.s.shutdown(std::net::Shutdown::Write);
    }
    /// Close with RST instead of FIN.
    pub fn abort(self) {
        use std::os::fd::AsRawFd;
        let l = libc::linger { l_onoff: 1, l_linger: 0 };
        unsafe {
            libc::setsockopt(
                self.s.as_raw_fd(),
                libc::SOL_SOCKET,
                libc::SO_LINGER,
                &l as *const _ as *const libc::c_void,
                std::mem::size_of::<libc::linger>() as u32,
            );
        }
    }
}
pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}
fn split_lines(b: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut rest = b;
    while let Some(i) = find(rest, b"\r\n") {
        out.push(rest[..i].to_vec());
        rest = &rest[i + 2..];
    }
    out.push(rest.to_vec());
    out
}
pub fn trim(b: &[u8]) -> &[u8] {
    let mut b = b;
    while let [b' ' | b'\t', r @ ..] = b {
        b = r;
    }
    while let [r @ .., b' ' | b'\t'] = b {
        b = r;
    }
    b
}

/// Header lines clients send every day. None of them means anything to the library.
const EVERYDAY: &[(&str, &[&str])] = &[
    ("user-agent", &["Mozilla/5.0 (X11; Linux x86_64; rv:109.0) Gecko/20100101 Firefox/117.0", "curl/8.4.0", "kube-probe/1.27", "Googlebot/2.1 (+http://www.google.com/bot.html)", "ELB-HealthChecker/2.0"]),
    ("accept", &["*/*", "text/html,application/xhtml+xml;q=0.9,*/*;q=0.8", "application/json", "text/event-stream", "image/*;q=0"]),
    ("accept-encoding", &["gzip, deflate, br", "identity", "gzip;q=1.0, *;q=0", "br"]),
    ("accept-language", &["en-US,en;q=0.5", "de"]),
    ("accept-charset", &["utf-8", "iso-8859-1"]),
    ("cookie", &["a=b; session=0123456789abcdef", "x", "a=\"b\"; a=c"]),
    ("authorization", &["Basic dXNlcjpwYXNz", "Bearer abc.def.ghi"]),
    ("proxy-authorization", &["Basic dXNlcjpwYXNz"]),
    ("cache-control", &["no-cache", "no-store", "max-age=0", "only-if-cached"]),
    ("pragma", &["no-cache"]),
    ("connection", &["keep-alive", "Keep-Alive, x-some-hop", "Upgrade, HTTP2-Settings"]),
    ("keep-alive", &["timeout=5, max=100"]),
    ("upgrade", &["websocket", "h2c", "TLS/1.2"]),
    ("http2-settings", &["AAMAAABkAAQCAAAAAAIAAAAA"]),
    ("upgrade-insecure-requests", &["1"]),
    ("expect", &["100-continue", "100-Continue"]),
    ("range", &["bytes=0-3", "bytes=-5", "bytes=1000000-", "lines=1-2"]),
    ("if-range", &["\"abc\"", "Wed, 21 Oct 2015 07:28:00 GMT"]),
    ("if-none-match", &["*", "\"abc\"", "W/\"0815\""]),
    ("if-match", &["*", "\"abc\""]),
    ("if-modified-since", &["Wed, 21 Oct 2099 07:28:00 GMT", "Wed, 21 Oct 2015 07:28:00 GMT"]),
    ("if-unmodified-since", &["Wed, 21 Oct 2015 07:28:00 GMT"]),
    ("origin", &["http://evil.example", "null"]),
    ("referer", &["http://t/other/page?x=1"]),
    ("sec-fetch-mode", &["cors", "no-cors", "navigate"]),
    ("sec-fetch-site", &["cross-site", "same-origin"]),
    ("sec-websocket-key", &["dGhlIHNhbXBsZSBub25jZQ=="]),
    ("sec-websocket-version", &["13"]),
    ("access-control-request-method", &["DELETE"]),
    ("access-control-request-headers", &["x-a, x-b"]),
    ("dnt", &["1"]),
    ("te", &["trailers", "gzip"]),
    ("via", &["1.1 proxy.example"]),
    ("max-forwards", &["0", "10"]),
    ("forwarded", &["for=192.0.2.60;proto=http;by=203.0.113.43"]),
    ("x-forwarded-for", &["127.0.0.1", "10.0.0.1, 10.0.0.2"]),
    ("x-forwarded-host", &["other.example"]),
    ("x-forwarded-proto", &["https"]),
    ("x-forwarded-prefix", &["/api"]),
    ("x-real-ip", &["127.0.0.1"]),
    ("x-http-method-override", &["DELETE", "GET", "PUT"]),
    ("x-http-method", &["DELETE"]),
    ("x-method-override", &["POST"]),
    ("x-original-url", &["/admin"]),
    ("x-rewrite-url", &["/"]),
    ("x-request-id", &["1", "00000000-0000-0000-0000-000000000000"]),
    ("x-correlation-id", &["1"]),
    ("idempotency-key", &["1"]),
    ("traceparent", &["00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01"]),
    ("x-requested-with", &["XMLHttpRequest"]),
    ("x-csrf-token", &["abc"]),
    ("purpose", &["prefetch"]),
    ("sec-purpose", &["prefetch"]),
    ("save-data", &["on"]),
    ("early-data", &["1"]),
    ("prefer", &["return=minimal", "respond-async"]),
    ("priority", &["u=0, i"]),
    ("content-language", &["en"]),
    ("content-encoding", &["identity"]),
    ("date", &["Wed, 21 Oct 2015 07:28:00 GMT"]),
    ("from", &["a@b.example"]),
    ("warning", &["199 - \"x\""]),
    ("x-empty", &[""]),
    ("x-timeout", &["0", "1"]),
    ("x-debug", &["1", "true"]),
    ("x-no-log", &["1"]),
    ("x-forwarded-port", &["443"]),
    ("content-type", &["text/plain", "application/json", "application/x-www-form-urlencoded", "multipart/form-data; boundary=x"]),
];
/// A few everyday lines, chosen by `h`; none of the names in `have`.
pub fn everyday(h: u64, have: &dyn Fn(&str) -> bool, h2: bool) -> Vec<(String, String)> {
    let mut rng = Rng::new(h);
    let n = match rng.below(6) {
        0 | 1 => 0,
        2 | 3 => 1,
        4 => 3,
        _ => rng.range(4, 12),
    };
    let mut out: Vec<(String, String)> = vec![];
    for _ in 0..n {
        let (k, v) = if rng.chance(1, 8) && !dict().names.is_empty() {
            (rng.pick(&dict().names).clone(), rng.pick(&["1", "true", "close", "*", "text/plain", "0"]).to_string())
        } else {
            let (k, vs) = rng.pick(EVERYDAY);
            (k.to_string(), rng.pick(vs).to_string())
        };
        if out.iter().any(|x| x.0 == k) || have(&k) {
            continue;
        }
        if h2 && ["connection", "keep-alive", "upgrade", "http2-settings", "te", "expect", "proxy-authorization", "cookie"].contains(&k.as_str()) {
            continue;
        }
        // pieces of an upgrade come together
        if k == "http2-settings" || k == "upgrade" {
            if out.iter().any(|x| x.0 == "connection") || have("connection") {
                continue;
            }
            out.push(("connection".into(), "Upgrade, HTTP2-Settings".into()));
        }
        out.push((k, v));
    }
    for x in &mut out {
        if !h2 && rng.chance(1, 5) {
            x.0 = x.0.split('-').map(|p| p[..1].to_ascii_uppercase() + &p[1..]).collect::<Vec<_>>().join("-");
        }
    }
    out
}
/// The same as lines of a request head.
pub fn everyday_lines(h: u64, have: &[&str]) -> String {
    everyday(h, &|k| have.contains(&k), false).iter().map(|(k, v)| format!("{k}: {v}\r\n")).collect()
}

/// One request as bytes, with some everyday lines.
pub fn req(method: &str, target: &str, headers: &[(&str, &str)], body: &[u8]) -> Vec<u8> {
    let mut v = format!("{method} {target} HTTP/1.1\r\nhost: t\r\n").into_bytes();
    for (k, x) in headers {
        v.extend_from_slice(format!("{k}: {x}\r\n").as_bytes());
    }
    let h = hash_of(&(method, target, headers, body));
    for (k, x) in everyday(h, &|k| headers.iter().any(|h| h.0.eq_ignore_ascii_case(k)), false) {
        v.extend_from_slice(format!("{k}: {x}\r\n").as_bytes());
    }
    if !body.is_empty() {
        v.extend_from_slice(format!("content-length: {}\r\n", body.len()).as_bytes());
    }
    v.extend_from_slice(b"\r\n");
    v.extend_from_slice(body);
    v
}
/// The same request with chunked framing cut at the given sizes.
pub fn chunked(body: &[u8], sizes: &[usize]) -> Vec<u8> {
    let mut out = vec![];
    let mut p = 0;
    for &n in sizes {
        let n = n.min(body.len() - p);
        if n == 0 {
            continue;
        }
        out.extend_from_slice(format!("{:x}\r\n", n).as_bytes());
        out.extend_from_slice(&body[p..p + n]);
        out.extend_from_slice(b"\r\n");
        p += n;
    }
    if p < body.len() {
        out.extend_from_slice(format!("{:X}\r\n", body.len() - p).as_bytes());
        out.extend_from_slice(&body[p..]);
        out.extend_from_slice(b"\r\n");
    }
    out.extend_from_slice(b"0\r\n\r\n");
    out
}
pub fn lost<T>(what: &str, e: Ce, detail: serde_json::Value) -> Result<T, Violation> {
    viol(format!("{what}: no complete response"), json!({"client_saw": format!("{e:?}"), "case": detail}))
}
