//! C15: static mounts serve the files' bytes. C16: and nothing from outside their directory.
use crate::core::*;
use crate::h2;
use crate::http::*;
use crate::p_resp::rand_bytes;
use obsidian::context::Context;
use obsidian::router::Router;
use obsidian::App;
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

/// Working directory of the run: everything the library may read by relative paths is below it.
pub fn cwd() -> &'static str {
    static D: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let d = format!("{}/w/cwd", scratch());
        std::fs::create_dir_all(&d).unwrap();
        std::env::set_current_dir(&d).unwrap();
        d
    })
}
pub fn fresh(tag: &str) -> String {
    static N: AtomicU64 = AtomicU64::new(0);
    format!("{tag}{}", N.fetch_add(1, Ordering::Relaxed))
}
const NAMES: [&str; 40] = [
    "a", "b.txt", "index.html", "app.js", "x.tar.gz", ".hidden", "...", "..a", "a..", "a..b", "....", "*", ":id", "~", "a~1", "a+b", "a&b=c", "a;b", "a,b", "(a)", "a'b", "!", "$x", "@2x", "a=b", "-", "--", "_",
    "a|b", "a\\b", "[x]", "^", "`q`", "UPPER.TXT", "upper.txt", "0", "null", "a.b.c.d", "{x}", "static",
];
fn file_name(rng: &mut Rng) -> String {
    match rng.below(10) {
        0 => {
            let n = rng.range(100, 255);
            "n".repeat(n)
        }
        1..=4 => format!("f{}.{}", rng.below(30), *rng.pick(&["txt", "bin", "html", "css"])),
        _ => rng.pick(&NAMES).to_string(),
    }
}
fn usable(p: &str) -> bool {
    p.parse::<obsidian::Uri>().map_or(false, |u| u.path() == p && u.query().is_none())
}
fn content(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(12) {
        0 => 0,
        1 => 1,
        2 => {
            let b = *rng.pick(&[512usize, 1024, 4096, 8192, 16384, 65536, 131072, 1 << 20]);
            b + rng.below(3) - 1
        }
        3 if rng.chance(1, 8) => rng.range(1 << 20, 6 << 20),
        _ => rng.range(2, 3000),
    };
    match rng.below(5) {
        0 => (0..n).map(|i| b"text\r\n line\n"[i % 12]).collect(),
        1 => vec![0xff; n],
        2 => {
            let mut v = b"\xef\xbb\xbf".to_vec();
            v.extend(rand_bytes(rng, n));
            v
        }
        3 => "é🦀".bytes().cycle().take(n).collect(),
        _ => rand_bytes(rng, n),
    }
}
/// Files of a served directory: relative path -> content. Directories are listed with a `/`.
type Tree = BTreeMap<String, Vec<u8>>;
fn gen_tree(rng: &mut Rng, abs: &str) -> (Tree, Vec<String>) {
    let mut t = Tree::new();
    let mut dirs = vec![String::new()];
    std::fs::create_dir_all(abs).unwrap();
    for _ in 0..rng.range(1, 12) {
        let d = rng.pick(&dirs).clone();
        let mut n = file_name(rng);
        while n == ".." || n == "." {
            n = file_name(rng);
        }
        let p = format!("{d}{n}");
        if p.len() > 900 || t.contains_key(&p) || dirs.contains(&format!("{p}/")) || !usable(&format!("/{p}")) {
            continue;
        }
        if rng.chance(1, 3) {
            std::fs::create_dir_all(format!("{abs}/{p}")).unwrap();
            dirs.push(format!("{p}/"));
        } else {
            let c = content(rng);
            std::fs::write(format!("{abs}/{p}"), &c).unwrap();
            t.insert(p, c);
        }
    }
    (t, dirs)
}
/// How one mount is registered.
#[derive(Clone, Debug)]
struct Mount {
    /// path of the mount as requested, no trailing slash ("" is the root)
    at: String,
    /// path given to the innermost router
    inner: String,
    /// routers around it, outermost first: (path, scope)
    outer: Vec<(String, bool)>,
    /// the directory as given
    dir: String,
    /// use_static: the directory is the route
    own: bool,
}
fn spell_dir(rng: &mut Rng, d: &str) -> String {
    match rng.below(8) {
        0 => format!("./{d}"),
        1 => format!("{d}/"),
        2 => format!("./{d}//"),
        3 => format!("../cwd/{d}"),
        4 => d.replace('/', "//"),
        5 => d.replace('/', "/./"),
        _ => d.to_string(),
    }
}
fn spell_route(rng: &mut Rng, p: &str) -> String {
    let t = p.trim_matches('/');
    match rng.below(5) {
        0 => t.to_string(),
        1 => format!("/{t}/"),
        2 => format!("/{}", t.replace('/', "//")),
        _ => format!("/{t}"),
    }
}
fn gen_mount(rng: &mut Rng, dir: &str, k: usize, root_ok: bool) -> Mount {
    let own = rng.chance(1, 4);
    let seg = |rng: &mut Rng| rng.pick(&["s", "static", "st", "files", "a", "assets", "a.b", "stat", "f~"]).to_string();
    let mut outer = vec![];
    let mut at = String::new();
    // the first segment keeps the mounts of a case apart
    let n = rng.below(3);
    for i in 0..n {
        let mut p = seg(rng);
        if i == 0 {
            p = format!("{p}{k}");
        }
        if rng.chance(1, 4) {
            p += &format!("/{}", seg(rng));
        }
        at += &format!("/{p}");
        outer.push((p, i == 0 && rng.chance(1, 3)));
    }
    let inner;
    if own {
        inner = dir.to_string();
        at += &format!("/{dir}");
    } else {
        let mut p = if rng.chance(1, 8) && (root_ok || n > 0) { String::new() } else { seg(rng) };
        if n == 0 && !p.is_empty() {
            p = format!("{p}{k}");
        }
        if !p.is_empty() && rng.chance(1, 4) {
            p += &format!("/{}", seg(rng));
        }
        if !p.is_empty() {
            at += &format!("/{p}");
        }
        inner = p;
    }
    Mount {
        at,
        inner: if own { inner } else { spell_route(rng, &inner) },
        outer,
        dir: if own { dir.to_string() } else { spell_dir(rng, dir) },
        own,
    }
}
fn add_static(r: &mut Router, m: &Mount) {
    if m.own {
        r.use_static(&m.dir)
    } else {
        r.use_static_to(&m.inner, &m.dir)
    }
}
fn install(a: &mut App, m: &Mount) {
    if m.outer.is_empty() {
        if m.own {
            a.use_static(&m.dir)
        } else {
            a.use_static_to(&m.inner, &m.dir)
        }
        return;
    }
    let mk = || {
        let mut r = Router::new();
        add_static(&mut r, m);
        for (p, _) in m.outer[1..].iter().rev() {
            let mut o = Router::new();
            o.use_router(&format!("/{p}"), r);
            r = o;
        }
        r
    };
    if m.outer[0].1 {
        a.scope(&m.outer[0].0, |r: &mut Router| {
            if m.outer.len() == 1 {
                add_static(r, m);
            } else {
                // the same nesting below the scope's router
                let mut inner = Router::new();
                add_static(&mut inner, m);
                for (p, _) in m.outer[2..].iter().rev() {
                    let mut o = Router::new();
                    o.use_router(&format!("/{p}"), inner);
                    inner = o;
                }
                r.use_router(&format!("/{}", m.outer[1].0), inner);
            }
        });
    } else {
        a.use_router(&format!("/{}", m.outer[0].0), mk());
    }
}
struct Served {
    mounts: Vec<Mount>,
    abs: Vec<String>,
    trees: Vec<Tree>,
    dirs: Vec<Vec<String>>,
    base: String,
}
impl Drop for Served {
    fn drop(&mut self) {
        let d = format!("{}/{}", cwd(), self.base);
        if self.base.starts_with("d") && d.starts_with(scratch()) {
            let _ = std::fs::remove_dir_all(d);
        }
    }
}
fn setup(rng: &mut Rng) -> Served {
    let base = fresh("d");
    let mut s = Served {
        mounts: vec![],
        abs: vec![],
        trees: vec![],
        dirs: vec![],
        base: base.clone(),
    };
    let n = rng.range(1, 3);
    let mut root = true;
    for k in 0..n {
        let dir = format!("{base}/{}{k}", *rng.pick(&["pub", "public", "www/html", "a.b", "static"]));
        let abs = format!("{}/{dir}", cwd());
        let (t, d) = gen_tree(rng, &abs);
        let m = gen_mount(rng, &dir, k, root);
        if m.at.is_empty() {
            root = false;
        }
        s.mounts.push(m);
        s.abs.push(abs);
        s.trees.push(t);
        s.dirs.push(d);
    }
    s
}
fn app(s: &Served, order: &[usize], extra: bool) -> App {
    let mut a: App = App::new();
    if extra {
        a.get("/ping", |c: Context| async move { c.build("pong").ok() });
    }
    for k in order {
        install(&mut a, &s.mounts[*k]);
    }
    if extra {
        a.get("/other/:id", |c: Context| async move { c.build("other").ok() });
        a.post("/zz/*", |c: Context| async move { c.build("zz").ok() });
    }
    a
}
fn bytes_brief(b: &[u8]) -> String {
    format!("{} bytes: {}", b.len(), show(&b[..b.len().min(80)]))
}

pub fn c15(cx: &Arc<Cx>) {
    cx.rule("random directory trees (unusual names, 0 bytes to 6 MB, binary and text) behind 1-3 static mounts in random places (root, nested routers, scopes, use_static, spellings of route and directory), served over HTTP/1.1 and 2; every answer compared with the file system, before and after files are changed, created and removed; an evaluation is one request; non-trivial: it names a file or directory that exists or existed");
    cx.assume("names that would need percent-encoding are not judged (the library does not decode paths)");
    cwd();
    cx.plan(1);
    cx.cases("serve", cx.n(640), 8, |rng, _, rep| {
        let mut s = setup(rng);
        let mut order: Vec<usize> = (0..s.mounts.len()).collect();
        rng.shuffle(&mut order);
        let extra = rng.chance(1, 2);
        let srv = Server::start(|| app(&s, &order, extra))?;
        let mut conn = srv.connect();
        for _ in 0..40 {
            let k = rng.below(s.mounts.len());
            // change something now and then
            if rng.chance(1, 6) {
                let abs = s.abs[k].clone();
                let names: Vec<String> = s.trees[k].keys().cloned().collect();
                match rng.below(3) {
                    0 if !names.is_empty() => {
                        let p = rng.pick(&names).clone();
                        let c = content(rng);
                        std::fs::write(format!("{abs}/{p}"), &c).unwrap();
                        s.trees[k].insert(p, c);
                    }
                    1 if !names.is_empty() => {
                        let p = rng.pick(&names).clone();
                        std::fs::remove_file(format!("{abs}/{p}")).unwrap();
                        s.trees[k].remove(&p);
                    }
                    _ => {
                        let p = format!("{}new{}.dat", rng.pick(&s.dirs[k]), rng.below(5));
                        if p.len() < 1000 {
                            let c = content(rng);
                            std::fs::write(format!("{abs}/{p}"), &c).unwrap();
                            s.trees[k].insert(p, c);
                        }
                    }
                }
                rep.count("changes", 1);
            }
            let names: Vec<String> = s.trees[k].keys().cloned().collect();
            let m = &s.mounts[k];
            let mut want: Option<Vec<u8>> = None;
            let mut real = false;
            let rel = match rng.below(10) {
                0 => {
                    real = true;
                    rng.pick(&s.dirs[k]).trim_end_matches('/').to_string()
                }
                1 => {
                    let f = file_name(rng);
                    format!("{}{}", rng.pick(&s.dirs[k]), f)
                }
                2 if !names.is_empty() => format!("{}{}", rng.pick(&names), *rng.pick(&["x", ".bak", "~"])),
                3 if !names.is_empty() => format!("{}/below", rng.pick(&names)),
                4 if !names.is_empty() => {
                    let n = rng.pick(&names).clone();
                    n[..n.len() - 1].to_string()
                }
                _ if !names.is_empty() => rng.pick(&names).clone(),
                _ => "nothing".into(),
            };
            if let Some(c) = s.trees[k].get(&rel) {
                want = Some(c.clone());
                real = true;
            }
            if rel == ".." || rel.split('/').any(|x| x == ".." || x == ".") || rel.len() > 2000 {
                continue;
            }
            let mut path = format!("{}/{}", m.at, rel);
            if rel.is_empty() && !m.at.is_empty() {
                path = m.at.clone();
            }
            if !usable(&path) || (m.at.is_empty() && (path == "/ping" || path.starts_with("/other/") || path.starts_with("/zz"))) {
                continue;
            }
            // another mount may be a longer match
            if s.mounts.iter().enumerate().any(|(j, o)| j != k && o.at.len() > m.at.len() && (path == o.at || path.starts_with(&format!("{}/", o.at)))) {
                continue;
            }
            let q = if rng.chance(1, 6) { *rng.pick(&["?v=1", "?../x", "?", "?a=/b"]) } else { "" };
            let meth = if rng.chance(1, 12) { *rng.pick(&["POST", "PUT", "DELETE", "PATCH", "OPTIONS"]) } else { "GET" };
            let hs: Vec<(&str, &str)> = match rng.below(8) {
                0 => vec![("range", "bytes=0-1")],
                1 => vec![("if-none-match", "*"), ("accept-encoding", "gzip")],
                2 => vec![("accept", "text/html"), ("if-modified-since", "Wed, 21 Oct 2099 07:28:00 GMT")],
                _ => vec![],
            };
            let d = json!({"method": meth, "path": show(path.as_bytes()), "mount": format!("{m:?}"), "exists": want.is_some()});
            let h2 = rng.chance(1, 6);
            let r = if h2 {
                match h2::one(srv.port, &(meth.into(), format!("{path}{q}"), hs.iter().map(|h| (h.0.to_string(), h.1.as_bytes().to_vec())).collect(), vec![])) {
                    Ok(r) => r,
                    Err(e) => return h2::lost2("a static file", e, d),
                }
            } else {
                match conn.roundtrip(&req(meth, &format!("{path}{q}"), &hs, b"")) {
                    Ok(r) => r,
                    Err(e) => return lost("a static file", e, d),
                }
            };
            if r.will_close() {
                conn = srv.connect();
            }
            rep.eval(if real { Some(hash_of(&(&path, meth, want.as_ref().map(|w| hash_of(w))))) } else { None });
            rep.sample = Some(d.clone());
            if meth != "GET" {
                rep.count("other_methods", 1);
                if r.status != 404 {
                    return viol("another method on a static mount is not 404", json!({"status": r.status, "case": d}));
                }
            } else if let Some(w) = want {
                rep.count("files_served", 1);
                rep.count("bytes_compared", w.len() as u64);
                if std::str::from_utf8(&w).is_err() {
                    rep.count("binary_files", 1);
                }
                if m.at.is_empty() {
                    rep.count("root_mounts", 1);
                }
                if !m.outer.is_empty() {
                    rep.count("nested_mounts", 1);
                }
                if r.status != 200 {
                    return viol("an existing static file is not answered with 200", json!({"status": r.status, "body": show(&r.body), "case": d}));
                }
                if r.body != w {
                    return viol("a static file arrives with other bytes", json!({"observed": bytes_brief(&r.body), "expected": bytes_brief(&w), "case": d}));
                }
            } else {
                rep.count("absent", 1);
                if r.status != 404 {
                    return viol("a static path without a file is not answered with 404", json!({"status": r.status, "body": bytes_brief(&r.body), "case": d}));
                }
            }
        }
        Ok(())
    });
    cx.need("files_served", 1000);
    cx.need("binary_files", 300);
    cx.need("absent", 500);
    cx.need("other_methods", 100);
    cx.need("nested_mounts", 300);
    cx.need("root_mounts", 30);
    cx.need("changes", 100);
}

/// Ways of writing a step up; the first one is what the library must refuse at the very least.
const UPS: [&str; 22] = [
    "..", "%2e%2e", "%2E%2E", ".%2e", "%2e.", "%252e%252e", "..%2f", "..%5c", "..\\", "..;", "..%00", "%c0%ae%c0%ae", ".. ", "..%20", "..%2f..", "../", "..//", "../.", "./..", "..;/", "%u002e%u002e", "..%09",
];
pub fn c16(cx: &Arc<Cx>) {
    cx.rule("random walks below and out of directories served by 1-3 mounts (every directory of the walk exists, up to several levels), 22 spellings of a step up mixed with '.', empty, encoded and absolute-looking parts, targets being canary files outside the mount (siblings, parents, other mounts, prefix-named neighbours, absolute paths); no answer may hold a canary of another place, and the answers for an existing and an absent outside file must agree; an evaluation is one request; non-trivial: the spelled path, decoded, leaves the mount");
    cx.assume("symbolic links inside a served directory are the operator's choice and not judged");
    cwd();
    cx.plan(1);
    cx.cases("escape", cx.n(400), 8, |rng, _, rep| {
        let base = fresh("d");
        let top = format!("{}/{base}", cwd());
        let n = rng.range(1, 3);
        let mut s = Served {
            mounts: vec![],
            abs: vec![],
            trees: vec![],
            dirs: vec![],
            base: base.clone(),
        };
        let mut root = true;
        let mut subs: Vec<Vec<String>> = vec![];
        for k in 0..n {
            let dir = format!("{base}/{}{k}", *rng.pick(&["pub", "www/html", "a/b/c", "s"]));
            let abs = format!("{}/{dir}", cwd());
            let mut sub = vec![String::new()];
            for p in ["sub/", "sub/deep/", "sub/deep/er/", "x/", "x/y/"] {
                std::fs::create_dir_all(format!("{abs}/{p}")).unwrap();
                sub.push(p.to_string());
            }
            for p in &sub {
                std::fs::write(format!("{abs}/{p}in.txt"), format!("CANARY-{base}-{k}-in")).unwrap();
                std::fs::write(format!("{abs}/{p}other{k}.txt"), format!("CANARY-{base}-{k}-other")).unwrap();
            }
            let m = gen_mount(rng, &dir, k, root);
            if m.at.is_empty() {
                root = false;
            }
            s.mounts.push(m);
            s.abs.push(abs);
            subs.push(sub);
        }
        // outside: next to each directory, above it, neighbours sharing its name's start, the working directory
        let mut outside: Vec<String> = vec![];
        for abs in &s.abs {
            let up = abs.rsplit_once('/').unwrap().0.to_string();
            outside.push(format!("{up}/secret.txt"));
            outside.push(format!("{abs}-private/secret.txt"));
            outside.push(format!("{abs}2/sub/secret.txt"));
            outside.push(format!("{up}/other/dir/secret.txt"));
        }
        outside.push(format!("{top}/secret.txt"));
        outside.push(format!("{top}/etc/secret.txt"));
        outside.push(format!("{}/{base}-up/secret.txt", cwd()));
        for o in &outside {
            std::fs::create_dir_all(o.rsplit_once('/').unwrap().0).unwrap();
            std::fs::write(o, format!("CANARY-{base}-outside")).unwrap();
        }
        let order: Vec<usize> = (0..n).collect();
        let srv = Server::start(|| app(&s, &order, false))?;
        let mut conn = srv.connect();
        for _ in 0..60 {
            let k = rng.below(n);
            let m = s.mounts[k].clone();
            // target: a path of real directories from the mount's directory out to the file
            let target = match rng.below(6) {
                0 if n > 1 => {
                    let j = (k + 1 + rng.below(n - 1)) % n;
                    format!("{}/{}other{j}.txt", s.abs[j], rng.pick(&subs[j]))
                }
                _ => rng.pick(&outside).clone(),
            };
            // start below the mount, walk up and down
            let mut walk: Vec<String> = vec![];
            let start = rng.pick(&subs[k]).clone();
            walk.extend(start.split('/').filter(|x| !x.is_empty()).map(|x| x.to_string()));
            let mut depth = walk.len();
            for _ in 0..rng.below(4) {
                // an excursion: up and back into a directory that exists
                if depth > 0 && rng.chance(1, 2) {
                    let back = {
                        let mut st: Vec<&str> = vec![];
                        for w in &walk {
                            if w == "\0" {
                                st.pop();
                            } else {
                                st.push(w);
                            }
                        }
                        st.last().unwrap().to_string()
                    };
                    walk.push("\0".into());
                    walk.push(back);
                } else if depth == 0 {
                    walk.push("x".into());
                    depth += 1;
                }
            }
            let here: Vec<&str> = s.abs[k].split('/').filter(|x| !x.is_empty()).collect();
            let there: Vec<&str> = target.split('/').filter(|x| !x.is_empty()).collect();
            let common = here.iter().zip(&there).take_while(|(a, b)| a == b).count();
            let mut ups = depth + here.len() - common;
            if rng.chance(1, 10) {
                // all the way to the root of the file system and down again
                ups = depth + here.len() + rng.below(3);
            }
            let down: Vec<String> = there[if ups > depth + here.len() - common { 0 } else { common }..].iter().map(|x| x.to_string()).collect();
            let (name, dirs_down) = down.split_last().unwrap();
            let mixed = rng.chance(1, 3);
            let one = rng.chance(1, 2);
            let up0 = if one { ".." } else { *rng.pick(&UPS) };
            let mut spelled: Vec<String> = vec![];
            let put = |rng: &mut Rng, spelled: &mut Vec<String>, w: &str| {
                if rng.chance(1, 12) {
                    spelled.push(rng.pick(&[".", "", "%2e", "./.", "%2e/"]).to_string());
                }
                if w == "\0" {
                    spelled.push(if mixed { rng.pick(&UPS).to_string() } else { up0.to_string() });
                } else if rng.chance(1, 15) {
                    spelled.push(format!("%{:02x}{}", w.as_bytes()[0], &w[1..]));
                } else {
                    spelled.push(w.to_string());
                }
            };
            for w in &walk {
                put(rng, &mut spelled, w);
            }
            let absolute = rng.chance(1, 8);
            if absolute {
                // an absolute path after the mount
                spelled = vec![rng.pick(&["", "/", "%2f", "%2F", "\\", "file:", "file://"]).to_string()];
                for w in &there[..there.len() - 1] {
                    put(rng, &mut spelled, w);
                }
            } else {
                for _ in 0..ups {
                    put(rng, &mut spelled, "\0");
                }
                for w in dirs_down {
                    put(rng, &mut spelled, w);
                }
            }
            let sep = if rng.chance(1, 12) { *rng.pick(&["%2f", "//", "%5c", "\\", "/./"]) } else { "/" };
            let tail = if rng.chance(1, 15) { *rng.pick(&["/", "%00", "%00.png", ".", "/.", "#", "?x", "%20", "::$DATA"]) } else { "" };
            let head = if rng.chance(1, 10) { m.at.replacen('/', "//", 1) } else { m.at.clone() };
            let make = |file: &str| {
                let mut p = format!("{head}/{}", spelled.join(sep));
                p.push_str(sep);
                p.push_str(file);
                p.push_str(tail);
                p
            };
            let absent = format!("absent{}", &name[name.len().min(6)..]);
            let (p1, p2) = (make(name), make(&absent));
            if p1.parse::<obsidian::Uri>().is_err() || p1.contains('#') || p1.contains(' ') {
                rep.count("not_representable", 1);
                continue;
            }
            let mode = rng.below(8);
            let mut ask = |p: &str| -> Result<Resp, Violation> {
                let d = json!({"path": show(p.as_bytes())});
                match mode {
                    0 => match h2::one(srv.port, &("GET".into(), p.into(), vec![], vec![])) {
                        Ok(r) => Ok(r),
                        Err(e) => h2::lost2("a static path", e, d),
                    },
                    m => {
                        let t = if m == 1 { format!("http://t{p}") } else { p.to_string() };
                        match conn.roundtrip(&req("GET", &t, &[], b"")) {
                            Ok(r) => {
                                if r.will_close() {
                                    conn = srv.connect();
                                }
                                Ok(r)
                            }
                            Err(e) => lost("a static path", e, d),
                        }
                    }
                }
            };
            let (a, b) = (ask(&p1)?, ask(&p2)?);
            let d = json!({"mount": format!("{m:?}"), "path": show(p1.as_bytes()), "twin": show(p2.as_bytes()), "target": target});
            rep.eval(Some(hash_of(&(&p1, mode == 0))));
            rep.count("escapes_tried", 1);
            if !mixed && one && !absolute && sep == "/" && tail.is_empty() {
                rep.count("plain_escapes_to_existing_files", 1);
            }
            for r in [&a, &b] {
                let t = r.text();
                if t.contains("CANARY-") && !t.contains(&format!("CANARY-{base}-{k}-")) {
                    return viol("a static mount returned a file from outside its directory", json!({"status": r.status, "body": show(&r.body), "case": d}));
                }
            }
            // outside targets: present or not must look the same
            let norm = |r: &Resp, f: &str| {
                let mut h: Vec<_> = r.headers.iter().filter(|h| h.0 != "date" && h.0 != "content-length").cloned().collect();
                h.sort();
                (r.status, h, r.text().replace(f, "NAME"))
            };
            if norm(&a, name) != norm(&b, &absent) {
                return viol(
                    "a static mount reveals whether a file outside its directory exists",
                    json!({"existing": [a.status, show(&a.body)], "absent": [b.status, show(&b.body)], "case": d}),
                );
            }
            rep.sample = Some(d);
        }
        // the mounts do serve: the walks above were not refused for some other reason
        for k in 0..n {
            let sub = rng.pick(&subs[k]);
            let p = format!("{}/{}in.txt", s.mounts[k].at, sub);
            let r = match conn.roundtrip(&req("GET", &p, &[], b"")) {
                Ok(r) => r,
                Err(e) => return lost("a static file", e, json!({"path": p})),
            };
            if r.text() == format!("CANARY-{base}-{k}-in") {
                rep.count("inside_files_served", 1);
            }
        }
        let up = format!("{}/{base}-up", cwd());
        if up.starts_with(scratch()) {
            let _ = std::fs::remove_dir_all(up);
        }
        Ok(())
    });
    cx.need("escapes_tried", 3000);
    cx.need("plain_escapes_to_existing_files", 500);
    cx.need("inside_files_served", 50);
}
