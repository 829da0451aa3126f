//! C29: where an application serves, in which runtimes, and that it goes on.
use crate::core::*;
use crate::h2;
use crate::http::*;
use crate::p_conc::together;
use crate::p_resp::Own;
use hyper::body::HttpBody;
use hyper::Body;
use obsidian::context::Context;
use obsidian::middleware::logger::Logger;
use obsidian::router::{Response, Router};
use obsidian::{App, ContextResult, StatusCode};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::os::fd::FromRawFd;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc::{channel, Receiver};
use std::sync::Arc;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- the application
#[derive(Clone)]
struct Label(String);
async fn who(c: Context) -> ContextResult {
    let l = c.get::<Label>().map(|l| l.0.clone()).unwrap_or_default();
    c.build(l).ok()
}
async fn param(c: Context) -> ContextResult {
    let x: String = c.param("x")?;
    c.build(format!("param {x}")).with_status(StatusCode::ACCEPTED).ok()
}
async fn form(mut c: Context) -> ContextResult {
    let f: HashMap<String, String> = c.form().await?;
    c.build(format!("form {}", f.get("a").cloned().unwrap_or_default())).ok()
}
async fn echo_json(mut c: Context) -> ContextResult {
    let v: Value = c.json().await?;
    c.build_json(v).ok()
}
async fn sleeps(c: Context) -> ContextResult {
    tokio::time::sleep(Duration::from_millis(3)).await;
    c.build("slept").ok()
}
async fn aside(c: Context) -> ContextResult {
    let a = tokio::spawn(async { 40 }).await.unwrap();
    let b = tokio::task::spawn_blocking(|| 2).await.unwrap();
    c.build(format!("{}", a + b)).ok()
}
async fn pieces(c: Context) -> ContextResult {
    let (mut tx, b) = Body::channel();
    tokio::spawn(async move {
        for i in 0..20 {
            let _ = tx.send_data(format!("{i};").into()).await;
            tokio::task::yield_now().await;
        }
    });
    c.build(Response::new(Own(b))).ok()
}
async fn there_and_back(mut c: Context) -> ContextResult {
    let mut b = c.take_body();
    let mut n = 0;
    while let Some(Ok(d)) = b.data().await {
        n += d.len();
    }
    c.build(format!("{n} bytes")).ok()
}
async fn fails(_: Context) -> ContextResult {
    panic!("{DELIBERATE} in a handler");
}
async fn file(c: Context) -> ContextResult {
    c.build_file(&format!("{FILES}/a.txt")).await.ok()
}
const FILES: &str = "serve-files";
fn app(label: &str, logger: bool) -> App<Label> {
    let mut a: App<Label> = App::new();
    a.set_app_state(Label(label.to_string()));
    if logger {
        a.use_service(Logger::new());
    }
    let mut r = Router::new();
    r.get("/:x", param);
    a.use_router("/p", r);
    a.get("/", who);
    a.post("/form", form);
    a.post("/json", echo_json);
    a.get("/sleep", sleeps);
    a.get("/aside", aside);
    a.get("/pieces", pieces);
    a.put("/count", there_and_back);
    a.get("/fails", fails);
    a.get("/file", file);
    a.use_static_to("/st", FILES);
    a
}
/// A request with its answer: method, target, body, status, body (nothing: no answer).
fn ask(rng: &mut Rng, label: &str) -> (&'static str, String, Vec<u8>, Option<(u16, Vec<u8>)>) {
    let id = rng.below(100_000);
    match rng.below(14) {
        0 | 1 => ("GET", "/".into(), vec![], Some((200, label.as_bytes().to_vec()))),
        2 => ("GET", format!("/p/{id}"), vec![], Some((202, format!("param {id}").into_bytes()))),
        3 => ("POST", "/form".into(), format!("b=2&a={id}").into_bytes(), Some((200, format!("form {id}").into_bytes()))),
        4 => ("POST", "/json".into(), format!("[{id},null]").into_bytes(), Some((200, format!("[{id},null]").into_bytes()))),
        5 => ("GET", "/sleep".into(), vec![], Some((200, b"slept".to_vec()))),
        6 => ("GET", "/aside".into(), vec![], Some((200, b"42".to_vec()))),
        7 => ("GET", "/pieces".into(), vec![], Some((200, (0..20).map(|i| format!("{i};")).collect::<String>().into_bytes()))),
        8 => {
            let n = rng.size(200_000);
            ("PUT", "/count".into(), vec![b'x'; n], Some((200, format!("{n} bytes").into_bytes())))
        }
        9 => ("GET", "/file".into(), vec![], Some((200, b"the file".to_vec()))),
        10 | 11 => ("GET", "/st/a.txt".into(), vec![], Some((200, b"the file".to_vec()))),
        12 if rng.chance(1, 4) => ("GET", "/fails".into(), vec![], None),
        _ => ("GET", format!("/none/{id}"), vec![], Some((404, b"404 Not Found".to_vec()))),
    }
}
/// Talks to the server at the port, which is the one with the label.
fn talk(port: u16, label: &str, rng: &mut Rng, conns: usize, each: usize, answers: &AtomicU64) -> Result<(), Violation> {
    let mut jobs: Vec<Box<dyn FnOnce() -> Result<(), Violation> + Send + '_>> = vec![];
    for _ in 0..conns {
        let mut rng = rng.fork();
        let two = rng.chance(1, 4);
        jobs.push(Box::new(move || {
            let bad = |t: &str, why: String| viol("an answer is not that of the application serving here", json!({"target": t, "application": label, "got": why}));
            if two {
                let (mut reqs, mut wants) = (vec![], vec![]);
                for _ in 0..each {
                    let (m, t, b, want) = ask(&mut rng, label);
                    if let Some(want) = want {
                        reqs.push((m.to_string(), t, vec![], b));
                        wants.push(want);
                    }
                }
                let targets: Vec<String> = reqs.iter().map(|r| r.1.clone()).collect();
                let got = h2::all(port, reqs);
                for (i, want) in wants.iter().enumerate() {
                    match got.get(i) {
                        Some(Ok(r)) if (r.status, &r.body) == (want.0, &want.1) => {}
                        r => return bad(&targets[i], format!("{:?}", r.map(|r| r.as_ref().map(|r| (r.status, show(&r.body)))))),
                    }
                    answers.fetch_add(1, Ordering::Relaxed);
                }
                return Ok(());
            }
            let mut c = Conn::open(port);
            for _ in 0..each {
                let (m, t, b, want) = ask(&mut rng, label);
                let got = match c.send(&req(m, &t, &[], &b)) {
                    Ok(()) => c.read_response(false),
                    Err(e) => Err(e),
                };
                match (got, want) {
                    (Ok(r), Some(w)) if (r.status, &r.body) == (w.0, &w.1) => {}
                    (Ok(r), Some(_)) => return bad(&t, format!("{} {}", r.status, show(&r.body))),
                    (_, None) => c = Conn::open(port),
                    (Err(e), Some(_)) => return bad(&t, format!("{e:?}")),
                }
                answers.fetch_add(1, Ordering::Relaxed);
            }
            Ok(())
        }));
    }
    together(jobs)
}

// ---------------------------------------------------------------- lives
const RUNTIMES: usize = 7;
fn runtime(kind: usize) -> tokio::runtime::Runtime {
    use tokio::runtime::Builder;
    match kind {
        0 | 3 => Builder::new_current_thread().enable_all().build(),
        1 => Builder::new_multi_thread().worker_threads(1).enable_all().build(),
        4 => Builder::new_multi_thread().worker_threads(2).max_blocking_threads(1).enable_all().build(),
        6 => Builder::new_current_thread().max_blocking_threads(1).enable_all().build(),
        _ => Builder::new_multi_thread().worker_threads(4).enable_all().build(),
    }
    .unwrap()
}
#[derive(Debug, PartialEq)]
enum End {
    Stopped,
    Returned,
    Panicked(String),
}
struct Life {
    port: u16,
    label: String,
    stop: Option<tokio::sync::oneshot::Sender<()>>,
    end: Receiver<End>,
}
/// Serves in a thread of its own.
fn live(kind: usize, label: &str, logger: bool, port: u16) -> Life {
    let (stop, stopped) = tokio::sync::oneshot::channel();
    let (tx, end) = channel();
    let a = app(label, logger);
    std::thread::Builder::new()
        .name("life".into())
        .spawn(move || {
            // a refusal of the port is a panic
            let r = refusable(|| {
                let rt = runtime(kind);
                let r = match kind {
                    // in a task
                    1 | 4 => rt.block_on(async {
                        let mut h = tokio::spawn(a.listen(port));
                        let r = tokio::select! {
                            r = &mut h => match r {
                                Ok(()) => End::Returned,
                                Err(e) => End::Panicked(e.to_string()),
                            },
                            _ = stopped => End::Stopped,
                        };
                        if r == End::Stopped {
                            h.abort();
                            let _ = h.await;
                        }
                        r
                    }),
                    3 => tokio::task::LocalSet::new().block_on(&rt, async {
                        tokio::select! {
                            _ = a.listen(port) => End::Returned,
                            _ = stopped => End::Stopped,
                        }
                    }),
                    _ => rt.block_on(async {
                        tokio::select! {
                            _ = a.listen(port) => End::Returned,
                            _ = stopped => End::Stopped,
                        }
                    }),
                };
                rt.shutdown_background();
                r
            });
            let _ = tx.send(r.unwrap_or_else(|p| End::Panicked(p.msg)));
        })
        .unwrap();
    Life { port, label: label.into(), stop: Some(stop), end }
}
impl Life {
    /// Serving, or the way it ended.
    fn up(&self, patience: Duration) -> Result<(), End> {
        let t = Instant::now();
        loop {
            if let Ok(e) = self.end.try_recv() {
                return Err(e);
            }
            if let Some(mut c) = Conn::try_open(self.port) {
                let r = c.send(&req("GET", "/", &[], b"")).and_then(|_| c.read_response(false));
                if r.map_or(false, |r| r.body == self.label.as_bytes()) {
                    return Ok(());
                }
            }
            if t.elapsed() > patience {
                return Err(End::Stopped);
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }
    fn going(&self) -> Result<(), Violation> {
        match self.end.try_recv() {
            Ok(e) => viol("serving ended by itself", json!({"how": format!("{e:?}")})),
            Err(_) => Ok(()),
        }
    }
    fn stop(mut self) -> Result<(), Violation> {
        if let Some(s) = self.stop.take() {
            let _ = s.send(());
        }
        match self.end.recv_timeout(TIMEOUT) {
            Ok(End::Stopped) => Ok(()),
            Ok(e) => viol("serving ended by itself", json!({"how": format!("{e:?}")})),
            Err(_) => viol("serving does not stop when it is dropped", json!({})),
        }
    }
}
/// Local addresses listening at the port, as the kernel has them.
fn listening(port: u16) -> Option<Vec<String>> {
    let mut v = vec![];
    for f in ["/proc/net/tcp", "/proc/net/tcp6"] {
        let Ok(t) = std::fs::read_to_string(f) else {
            if f.ends_with('6') {
                continue;
            }
            return None;
        };
        for l in t.lines().skip(1) {
            let w: Vec<&str> = l.split_whitespace().collect();
            if w.len() > 3 && w[3] == "0A" && w[1].ends_with(&format!(":{port:04X}")) {
                v.push(w[1].rsplit_once(':').unwrap().0.to_string());
            }
        }
    }
    Some(v)
}
fn foreign(any: bool, reuseport: bool, port: u16) -> Option<TcpListener> {
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        if fd < 0 {
            return None;
        }
        let l = TcpListener::from_raw_fd(fd);
        let one: libc::c_int = 1;
        let set = |o| libc::setsockopt(fd, libc::SOL_SOCKET, o, &one as *const _ as *const libc::c_void, 4);
        set(libc::SO_REUSEADDR);
        if reuseport {
            set(libc::SO_REUSEPORT);
        }
        let mut a: libc::sockaddr_in = std::mem::zeroed();
        a.sin_family = libc::AF_INET as _;
        a.sin_port = port.to_be();
        a.sin_addr.s_addr = if any { 0 } else { u32::from_ne_bytes([127, 0, 0, 1]) };
        if libc::bind(fd, &a as *const _ as *const libc::sockaddr, std::mem::size_of_val(&a) as _) != 0 || libc::listen(fd, 64) != 0 {
            return None;
        }
        Some(l)
    }
}
fn refused(l: Life, who: &str) -> Result<(), Violation> {
    match l.end.recv_timeout(Duration::from_secs(20)) {
        Ok(End::Panicked(_)) | Ok(End::Returned) => Ok(()),
        r => viol("a taken port is not refused", json!({"taken_by": who, "listen": format!("{r:?}"), "port": l.port})),
    }
}
fn lives(rng: &mut Rng, rep: &mut Rep) -> Result<(), Violation> {
    let answers = AtomicU64::new(0);
    let mut n = 0;
    let mut label = || {
        n += 1;
        format!("life {n}")
    };
    let kind = rng.below(RUNTIMES);
    let mut story = vec![];
    // a port nobody has
    let mut life = None;
    for _ in 0..5 {
        let port = free_port();
        let l = live(kind, &label(), rng.chance(1, 4), port);
        match l.up(TIMEOUT) {
            Ok(()) => {
                life = Some(l);
                break;
            }
            Err(e) => story.push(format!("{e:?}")),
        }
    }
    let Some(mut life) = life else {
        return viol("the application does not start serving", json!({"runtime": kind, "ends": story}));
    };
    story = vec![format!("runtime {kind}")];
    let port = life.port;
    for _ in 0..rng.range(2, 6) {
        if let Some(v) = listening(port) {
            if v != ["0100007F"] {
                return viol("the application does not listen on 127.0.0.1 alone", json!({"kernel": v, "story": story}));
            }
            rep.count("addresses_seen", 1);
        }
        for other in ["127.0.0.2", "127.1.2.3", "::1"] {
            if TcpStream::connect((other, port)).is_ok() {
                return viol("the application is reached by another address", json!({"address": other}));
            }
        }
        match rng.below(5) {
            0 | 1 => {
                story.push("requests".into());
                talk(port, &life.label, rng, *rng.clone().pick(&[1, 3, 8, 30]), 12, &answers)?;
            }
            2 => {
                let k = rng.below(RUNTIMES);
                story.push(format!("another application, runtime {k}"));
                let other = live(k, "an intruder", false, port);
                talk(port, &life.label, rng, 6, 6, &answers)?;
                refused(other, "another application")?;
                talk(port, &life.label, rng, 6, 6, &answers)?;
                rep.count("ports_refused", 1);
            }
            3 => {
                let (any, reuse) = (rng.chance(1, 2), rng.chance(1, 2));
                let k = rng.below(RUNTIMES);
                story.push(format!("a foreign listener: any {any}, reuseport {reuse}, runtime {k}"));
                let logger = rng.chance(1, 4);
                life.stop()?;
                if let Some(f) = foreign(any, reuse, port) {
                    refused(live(k, "an intruder", false, port), "a foreign listener")?;
                    let mut c = TcpStream::connect(("127.0.0.1", port)).unwrap();
                    let (mut s, _) = f.accept().unwrap();
                    s.write_all(b"foreign").unwrap();
                    drop(s);
                    let mut got = vec![];
                    let _ = c.read_to_end(&mut got);
                    if got != b"foreign" {
                        return viol("a taken port is not refused", json!({"got": show(&got)}));
                    }
                    rep.count("ports_refused", 1);
                }
                life = again(k, &label(), logger, port, &story)?;
                talk(port, &life.label, rng, 4, 6, &answers)?;
            }
            _ => {
                let k = rng.below(RUNTIMES);
                let logger = rng.chance(1, 4);
                story.push(format!("a new life in runtime {k}"));
                // connections in all states
                let mut open: Vec<Conn> = (0..rng.below(20)).map(|_| Conn::open(port)).collect();
                for (i, c) in open.iter_mut().enumerate() {
                    match i % 4 {
                        0 => {}
                        1 => {
                            let _ = c.roundtrip(&req("GET", "/", &[], b""));
                        }
                        2 => {
                            let _ = c.send(b"PUT /count HTTP/1.1\r\nhost: t\r\ncontent-length: 1000\r\n\r\nabc");
                        }
                        _ => {
                            let _ = c.send(b"GET / HTTP/1.1\r\nho");
                        }
                    }
                }
                life.stop()?;
                if rng.chance(1, 2) {
                    open.clear();
                }
                life = again(k, &label(), logger, port, &story)?;
                talk(port, &life.label, rng, 4, 6, &answers)?;
                rep.count("restarts", 1);
            }
        }
        life.going()?;
        rep.count("acts", 1);
    }
    talk(port, &life.label, rng, 4, 10, &answers)?;
    life.going()?;
    life.stop()?;
    rep.count("answers", answers.into_inner());
    rep.eval(Some(hash_of(&story)));
    rep.sample = Some(json!(story));
    Ok(())
}
/// The port was given up: it can be had again.
fn again(kind: usize, label: &str, logger: bool, port: u16, story: &[String]) -> Result<Life, Violation> {
    let t = Instant::now();
    loop {
        let l = live(kind, label, logger, port);
        match l.up(TIMEOUT) {
            Ok(()) => return Ok(l),
            Err(_) if t.elapsed() < Duration::from_secs(8) => std::thread::sleep(Duration::from_millis(100)),
            Err(e) => return viol("the port cannot be had again", json!({"end": format!("{e:?}"), "story": story})),
        }
    }
}

// ---------------------------------------------------------------- out of descriptors
/// The process that serves with few descriptors. Prints its port and then how it goes.
pub fn starved() {
    let mut args = std::env::args().skip(2);
    let limit: u64 = args.next().unwrap().parse().unwrap();
    let kind: usize = args.next().unwrap().parse().unwrap();
    let dir = args.next().unwrap();
    std::env::set_current_dir(&dir).unwrap();
    let mut out = unsafe {
        let o = libc::dup(1);
        let n = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
        use std::os::fd::AsRawFd;
        libc::dup2(n.as_raw_fd(), 1);
        libc::dup2(n.as_raw_fd(), 2);
        std::fs::File::from_raw_fd(o)
    };
    let rl = libc::rlimit { rlim_cur: limit, rlim_max: limit };
    unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &rl) };
    for _ in 0..5 {
        let l = live(kind, "few", false, free_port());
        if l.up(TIMEOUT).is_ok() {
            writeln!(out, "{}", l.port).unwrap();
            let mut s = String::new();
            let _ = std::io::stdin().read_line(&mut s);
            match l.end.try_recv() {
                Ok(e) => writeln!(out, "ended: {e:?}").unwrap(),
                Err(_) => writeln!(out, "serving").unwrap(),
            }
            return;
        }
    }
}
struct Kill(Child);
impl Drop for Kill {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}
fn starving(rng: &mut Rng, rep: &mut Rep) -> Result<(), Violation> {
    let limit = rng.range(40, 150);
    let kind = rng.below(RUNTIMES);
    let story = json!({"descriptors": limit, "runtime": kind});
    let child = Command::new(std::env::current_exe().unwrap()).args(["starved", &limit.to_string(), &kind.to_string(), scratch()]).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("child");
    let mut child = Kill(child);
    let mut lines = BufReader::new(child.0.stdout.take().unwrap()).lines();
    let Some(Ok(port)) = lines.next() else {
        return viol("the application does not start serving", story);
    };
    let port: u16 = port.parse().unwrap();
    let pid = child.0.id();
    let fds = || std::fs::read_dir(format!("/proc/{pid}/fd")).map(|d| d.count()).unwrap_or(0);
    let gone = |what: &str, why: String| viol(what.to_string(), json!({"case": story, "why": why}));
    // what starts on first use has started
    let mut kept: Vec<Conn> = vec![];
    for _ in 0..4 {
        let mut c = Conn::open(port);
        for t in ["/", "/st/a.txt", "/file"] {
            match c.roundtrip(&req("GET", t, &[], b"")) {
                Ok(r) if r.status == 200 => {}
                r => return gone("the application does not serve", format!("{t}: {:?}", r.map(|r| r.status))),
            }
        }
        kept.push(c);
    }
    for round in 0..2 {
        let mut flood: Vec<Conn> = vec![];
        for i in 0..limit + 60 {
            if let Some(mut c) = Conn::try_open(port) {
                if i % 3 == 0 {
                    let _ = c.send(&req("GET", "/", &[], b""));
                }
                flood.push(c);
            }
        }
        let t = Instant::now();
        while fds() + 1 < limit && t.elapsed() < Duration::from_secs(10) {
            std::thread::sleep(Duration::from_millis(5));
        }
        if fds() + 1 >= limit {
            rep.count("starved", 1);
        }
        // those connected are served
        for c in kept.iter_mut() {
            for _ in 0..5 {
                match c.roundtrip(&req("GET", "/", &[], b"")) {
                    Ok(r) if r.status == 200 && r.body == b"few" => {}
                    r => return gone("a connection is lost while descriptors are short", format!("round {round}: {:?}", r.map(|r| r.status))),
                }
                match c.roundtrip(&req("GET", "/st/a.txt", &[], b"")) {
                    Ok(r) if r.status == 200 && r.body == b"the file" => {}
                    Ok(r) if r.status >= 400 => rep.count("files_refused", 1),
                    r => return gone("a connection is lost while descriptors are short", format!("round {round}: {:?}", r.map(|r| r.status))),
                }
                rep.count("answers", 2);
            }
        }
        if rng.chance(1, 2) {
            std::thread::sleep(Duration::from_millis(rng.below(1500) as u64));
        }
        drop(flood);
        // and the others again
        let answers = AtomicU64::new(0);
        let mut r = rng.fork();
        for _ in 0..3 {
            let Some(mut c) = Conn::try_open(port) else {
                return gone("nothing is served after descriptors were short", format!("round {round}: no connection"));
            };
            match c.send(&req("GET", "/", &[], b"")).and_then(|_| c.read_response(false)) {
                Ok(r) if r.status == 200 && r.body == b"few" => {}
                r => return gone("nothing is served after descriptors were short", format!("round {round}: {:?}", r.map(|r| r.status))),
            }
        }
        let t = Instant::now();
        while fds() > limit / 2 && t.elapsed() < Duration::from_secs(30) {
            std::thread::sleep(Duration::from_millis(5));
        }
        if fds() > limit / 2 {
            return gone("descriptors of closed connections are kept", format!("round {round}: {} of {limit}", fds()));
        }
        talk(port, "few", &mut r, 4, 8, &answers)?;
        rep.count("answers", answers.into_inner());
    }
    let _ = child.0.stdin.take().unwrap().write_all(b"\n");
    match lines.next() {
        Some(Ok(s)) if s == "serving" => {}
        s => return gone("serving ended by itself", format!("{s:?}")),
    }
    rep.eval(Some(hash_of(&story.to_string())));
    rep.sample = Some(story);
    Ok(())
}
pub fn c29(cx: &Arc<Cx>) {
    cx.rule("applications live and die on a port in seven kinds of tokio runtime (one thread, a local set, one worker, one blocking thread, ...), the kernel's table says where they listen, other applications and foreign sockets (any address, SO_REUSEPORT) try for the same port, a mix of requests over HTTP/1.1 and 2 is answered by the one that is there, and the port is had again at once by the next; and processes with 40-150 descriptors are flooded with connections, during which those connected are served and after which everybody is; an evaluation is one port's history or one starved process; distinct: histories");
    cx.assume("the address is judged by /proc/net/tcp and by other loopback addresses, the only ones here");
    cx.assume("before descriptors run short one file was served: async-std's threads start on first use");
    std::fs::create_dir_all(format!("{}/{FILES}", scratch())).unwrap();
    std::fs::write(format!("{}/{FILES}/a.txt", scratch()), b"the file").unwrap();
    std::env::set_current_dir(scratch()).expect("scratch");
    cx.plan(2);
    cx.cases("lives", cx.n(120), 6, |rng, _, rep| lives(rng, rep));
    cx.cases("starved", cx.n(10), 5, |rng, _, rep| starving(rng, rep));
    cx.need("addresses_seen", 0);
    cx.need("ports_refused", 40);
    cx.need("restarts", 40);
    cx.need("starved", 4);
    cx.need("answers", 3000);
}
