//! C26: routers and applications are values of their own.
use crate::core::*;
use crate::h2;
use crate::http::*;
use crate::p_conc::together;
use crate::p_static::{cwd, fresh};
use crate::spec::*;
use obsidian::context::Context;
use obsidian::router::Router;
use obsidian::{App, ContextResult, EndpointExecutor};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn opt(rng: &mut Rng) -> GenOpt {
    GenOpt {
        unicode: rng.chance(1, 4),
        params: true,
        wild: true,
        mws: true,
        mounts: true,
        max_items: 12,
        bad: false,
    }
}
const MOST: usize = 300;

// ---------------------------------------------------------------- histories of routers
fn show_hit(h: &Option<Hit>) -> Value {
    match h {
        None => json!("nothing"),
        Some(h) => json!({"handler": h.handler, "middleware": h.mws, "parameters": h.params, "pattern": format!("/{}", h.pattern.join("/"))}),
    }
}
fn agrees(seen: &Seen, exp: &Option<Hit>, names: &Names) -> bool {
    match exp {
        None => !seen.found && seen.trace.is_empty(),
        Some(h) => seen.found && seen.trace == expected_trace(h, names) && seen.params == h.params && seen.body.as_deref() == Some(format!("h{}", h.handler).as_bytes()),
    }
}
struct Held {
    go: Box<dyn FnOnce() -> Seen>,
    exp: Option<Hit>,
    what: String,
    since: usize,
}
fn history(rng: &mut Rng, rep: &mut Rep) -> Result<(), Violation> {
    let o = opt(rng);
    let uni = o.unicode;
    // one vocabulary for all of them
    let mut ids = Ids(0);
    let mut pats: Vec<Segs> = vec![];
    let mut stock: Vec<Item> = vec![];
    for _ in 0..rng.range(2, 5) {
        stock.extend(gen_items(rng, &o, &mut ids, 0, &mut pats));
    }
    rng.shuffle(&mut stock);
    let names = names_of(&stock);
    let mut pool: Vec<(Router, Model)> = vec![(Router::new(), Model::new())];
    let mut log: Vec<String> = vec![];
    let mut held: Vec<Held> = vec![];
    let mut shape = 0u64;
    let steps = rng.range(4, 60);
    for step in 0..steps {
        let i = rng.below(pool.len());
        match rng.below(12) {
            0 if pool.len() < 7 => {
                pool.push((Router::new(), Model::new()));
                log.push(format!("{}: new", pool.len() - 1));
            }
            1 | 2 if pool.len() < 7 => {
                let c = (pool[i].0.clone(), pool[i].1.clone());
                pool.push(c);
                rep.count("clones", 1);
                shape = hash_of(&(shape, 1, i));
                log.push(format!("{}: clone of {i}", pool.len() - 1));
            }
            3 if pool.len() > 1 && rng.chance(1, 2) => {
                pool.swap_remove(i);
                rep.count("drops", 1);
                shape = hash_of(&(shape, 2, i));
                log.push(format!("drop {i}; the last one is now {i}"));
            }
            4 | 5 => {
                // a copy of one (or of itself) becomes part of another
                let j = rng.below(pool.len());
                let mut p = if pats.is_empty() { vec![] } else { rng.pick(&pats).clone() };
                p.retain(|s| !s.contains('*'));
                p.truncate(3);
                if rng.chance(1, 3) {
                    p.push(format!("m{}", rng.below(9)));
                }
                let path = spell(rng, &p);
                let mut m = pool[i].1.clone();
                if m.mount(&path, pool[j].1.clone()).is_err() || m.repeats() || m.locs.len() > MOST {
                    continue;
                }
                let sub = pool[j].0.clone();
                if let Err(e) = refusable(|| pool[i].0.use_router(&path, sub)) {
                    // refusals are C05's and C07's
                    rep.count("refused", 1);
                    let _ = e;
                    return Ok(());
                }
                pool[i].1 = m;
                rep.count("mounts_of_copies", 1);
                shape = hash_of(&(shape, 3, i, j));
                log.push(format!("{i}: mount a copy of {j} at {path}"));
            }
            _ => {
                let Some(it) = stock.pop() else { continue };
                let mut m = pool[i].1.clone();
                if m.apply(&it).is_err() || m.repeats() || m.locs.len() > MOST || has_repeats(&it) {
                    continue;
                }
                if apply(&mut pool[i].0, &it, &names).is_err() {
                    rep.count("refused", 1);
                    return Ok(());
                }
                pool[i].1 = m;
                // the same registration may follow elsewhere
                if rng.chance(1, 2) {
                    stock.insert(rng.below(stock.len() + 1), it.clone());
                }
                shape = hash_of(&(shape, 4, i));
                log.push(format!("{i}: {}", items_json(&[it])));
            }
        }
        // every router still is what its own history made it
        for _ in 0..3 {
            let k = rng.below(pool.len());
            let from = rng.below(pool.len());
            let own: Vec<Segs> = pool[from].1.locs.keys().cloned().collect();
            let path = gen_path(rng, &own, uni);
            let m = probe_method(rng, &pool[from].1, &path);
            let exp = pool[k].1.dispatch(m, &path);
            if rng.chance(1, 6) {
                // found now, run later
                held.push(Held {
                    go: Box::new(look_up(&pool[k].0, m, &path)),
                    exp,
                    what: format!("{} {path} of router {k}", METHODS[m]),
                    since: step,
                });
                continue;
            }
            let seen = dispatch_router(&pool[k].0, m, &path);
            rep.eval((pool.len() > 1).then(|| hash_of(&(shape, k, m, &path))));
            rep.count("probes", 1);
            if exp.is_none() && pool.iter().any(|(_, o)| o.dispatch(m, &path).is_some()) {
                rep.count("known_to_another_router_only", 1);
            }
            if !agrees(&seen, &exp, &names) {
                return viol(
                    "a router does not answer by its own registrations alone",
                    json!({"router": k, "request": format!("{} {path}", METHODS[m]), "expected": show_hit(&exp), "observed": format!("{seen:?}"), "history": log}),
                );
            }
        }
        if !held.is_empty() && rng.chance(1, 3) {
            let h = held.swap_remove(rng.below(held.len()));
            let later = step - h.since;
            check_held(h, &names, &log, rep, later, shape)?;
        }
    }
    // and the end of all of them
    if rng.chance(1, 3) {
        pool.clear();
        log.push("drop all".into());
    }
    for h in std::mem::take(&mut held) {
        let later = steps - h.since;
        check_held(h, &names, &log, rep, later, shape)?;
    }
    for (k, (r, model)) in pool.iter().enumerate() {
        for p in model.locs.keys() {
            let path = format!("/{}", p.iter().map(|s| if s.starts_with(':') || s == "*" { "vv" } else { s }).collect::<Vec<_>>().join("/"));
            let m = probe_method(rng, model, &path);
            let exp = model.dispatch(m, &path);
            let seen = dispatch_router(r, m, &path);
            rep.eval((pool.len() > 1).then(|| hash_of(&(shape, k, m, &path))));
            if !agrees(&seen, &exp, &names) {
                return viol(
                    "a router does not answer by its own registrations alone",
                    json!({"router": k, "request": format!("{} {path}", METHODS[m]), "expected": show_hit(&exp), "observed": format!("{seen:?}"), "history": log}),
                );
            }
        }
    }
    rep.count("histories", 1);
    if rep.sample.is_none() {
        log.truncate(12);
        rep.sample = Some(json!({"first_steps": log, "routers": pool.len()}));
    }
    Ok(())
}
fn check_held(h: Held, names: &Names, log: &[String], rep: &mut Rep, later: usize, shape: u64) -> Result<(), Violation> {
    let seen = (h.go)();
    rep.eval(Some(hash_of(&(shape, &h.what, later))));
    rep.count("dispatched_after_changes", 1);
    if !agrees(&seen, &h.exp, names) {
        return viol(
            "what was found for a request changed before it ran",
            json!({"request": h.what, "steps_later": later, "expected": show_hit(&h.exp), "observed": format!("{seen:?}"), "history": log}),
        );
    }
    Ok(())
}
fn has_repeats(it: &Item) -> bool {
    Model::of(std::slice::from_ref(it)).0.repeats()
}
fn probe_method(rng: &mut Rng, m: &Model, path: &str) -> usize {
    if let Some(p) = m.locate(path) {
        let ms: Vec<usize> = m.locs[p].routes.keys().copied().collect();
        if !ms.is_empty() && rng.chance(4, 5) {
            return *rng.pick(&ms);
        }
    }
    rng.below(5)
}

// ---------------------------------------------------------------- applications side by side
/// One application of a group that have everything in common but what it is.
struct One {
    items: Vec<Item>,
    names: Names,
    model: Model,
    state: Option<String>,
    dir: String,
    files: BTreeMap<String, Vec<u8>>,
    logger: bool,
    /// where the router all of them mount is, and what this one added to its copy
    shared_at: String,
    shared_extra: Option<u32>,
    calls: Arc<AtomicU64>,
}
struct Count(Arc<AtomicU64>);
#[async_trait::async_trait]
impl obsidian::middleware::Middleware for Count {
    async fn handle<'a>(&'a self, c: Context, ex: EndpointExecutor<'a>) -> ContextResult {
        self.0.fetch_add(1, Ordering::SeqCst);
        ex.next(c).await
    }
}
fn shared_router() -> Router {
    let mut r = Router::new();
    r.use_service(RecMw(900_001));
    r.get("/both", |c: Context| async move {
        emit(&c, Ev::Handler(900_002, vec![]));
        c.build("both").ok()
    });
    r.post("/p/:x", |c: Context| async move {
        emit(&c, Ev::Handler(900_003, vec![]));
        let x = c.param::<String>("x").unwrap_or_default();
        c.build(x).ok()
    });
    r
}
fn make(o: &One, shared: &Router) -> App<String> {
    let mut a: App<String> = if o.logger { App::default() } else { App::new() };
    a.use_service(Count(o.calls.clone()));
    if let Some(s) = &o.state {
        a.set_app_state(s.clone());
    }
    for i in &o.items {
        let _ = apply_app(&mut a, i, &o.names);
    }
    a.get("/who", |c: Context| async move {
        let s = c.get::<String>().cloned();
        c.build(s.unwrap_or_else(|| "nobody".into())).ok()
    });
    a.use_static_to("/files", &o.dir);
    let mut mine = shared.clone();
    if let Some(id) = o.shared_extra {
        mine.use_service(RecMw(id));
        mine.get("/mine", move |c: Context| async move {
            emit(&c, Ev::Handler(id, vec![]));
            c.build(format!("mine {id}")).ok()
        });
    }
    a.use_router(&o.shared_at, mine);
    a
}
fn group(rng: &mut Rng, n: usize) -> (Vec<One>, Router) {
    let o = GenOpt { unicode: false, ..opt(rng) };
    let mut ids = Ids(0);
    let mut pool = vec![];
    let mut out: Vec<One> = vec![];
    let group = fresh("g");
    let file_names: Vec<String> = (0..3).map(|k| format!("{}{k}.{}", if rng.chance(1, 3) { "sub/" } else { "" }, *rng.pick(&["txt", "html", "bin"]))).collect();
    for k in 0..n {
        // sometimes exactly the paths of another one, with other handlers
        let inner = if k > 0 && rng.chance(1, 3) {
            renumber(inner_of(&out[rng.below(k)].items), &mut ids)
        } else {
            let mut pl = pool.clone();
            let v = gen_items(rng, &o, &mut ids, 0, &mut pl);
            pool = pl;
            v
        };
        let items = accepted(vec![Item::Mount {
            path: "/app".into(),
            scope: rng.chance(1, 2),
            items: inner,
        }]);
        let dir = format!("{group}/d{k}");
        let abs = format!("{}/{dir}", cwd());
        std::fs::create_dir_all(format!("{abs}/sub")).unwrap();
        let mut files = BTreeMap::new();
        for f in &file_names {
            if rng.chance(4, 5) {
                // the same length, often the same moment
                let c = format!("file {f} of {group} number {k:03}").into_bytes();
                std::fs::write(format!("{abs}/{f}"), &c).unwrap();
                files.insert(f.clone(), c);
            }
        }
        out.push(One {
            names: names_of(&items),
            model: Model::of(&items).0,
            items,
            state: rng.chance(3, 4).then(|| format!("state {} of {group}", k)),
            dir,
            files,
            logger: rng.chance(1, 3),
            shared_at: if rng.chance(1, 2) { "/shared".into() } else { format!("/shared{k}") },
            shared_extra: rng.chance(1, 2).then(|| 910_000 + k as u32),
            calls: Default::default(),
        });
    }
    (out, shared_router())
}
fn inner_of(items: &[Item]) -> Vec<Item> {
    match items.first() {
        Some(Item::Mount { items, .. }) => items.clone(),
        _ => vec![],
    }
}
fn renumber(items: Vec<Item>, ids: &mut Ids) -> Vec<Item> {
    items
        .into_iter()
        .map(|i| match i {
            Item::Route { m, path, .. } => Item::Route { m, path, id: ids.next() },
            Item::MwRoot { .. } => Item::MwRoot { id: ids.next() },
            Item::Mw { path, .. } => Item::Mw { path, id: ids.next() },
            Item::Mount { path, scope, items } => Item::Mount { path, scope, items: renumber(items, ids) },
        })
        .collect()
}
/// What a request must come to, in the application it is sent to.
struct Ask {
    m: usize,
    path: String,
    want: Want,
    rid: u64,
}
#[derive(Debug)]
enum Want {
    Hit(Option<Hit>),
    Body(u16, Vec<u8>, Vec<Ev>),
}
fn ask(rng: &mut Rng, all: &[One], k: usize) -> Ask {
    let o = &all[k];
    let other = &all[rng.below(all.len())];
    let rid = next_rid();
    let get = |path: String, want| Ask { m: 0, path, want, rid };
    match rng.below(8) {
        0 => get("/who".into(), Want::Body(200, o.state.clone().unwrap_or("nobody".into()).into_bytes(), vec![])),
        1 | 2 => {
            // any file one of them has
            let names: Vec<&String> = all.iter().flat_map(|x| x.files.keys()).collect();
            if names.is_empty() {
                return get("/who".into(), Want::Body(200, o.state.clone().unwrap_or("nobody".into()).into_bytes(), vec![]));
            }
            let f = (*rng.pick(&names)).clone();
            let want = match o.files.get(&f) {
                Some(c) => Want::Body(200, c.clone(), vec![]),
                None => Want::Body(404, vec![], vec![]),
            };
            get(format!("/files/{f}"), want)
        }
        3 => {
            // the shared router, maybe where only another one has it
            let at = &other.shared_at;
            if at != &o.shared_at {
                return get(format!("{at}/both"), Want::Body(404, vec![], vec![]));
            }
            let mut t: Vec<Ev> = vec![Ev::Enter(900_001)];
            t.extend(o.shared_extra.map(Ev::Enter));
            let mut ends: Vec<Ev> = o.shared_extra.map(Ev::Exit).into_iter().collect();
            ends.push(Ev::Exit(900_001));
            match rng.below(3) {
                0 => {
                    t.push(Ev::Handler(900_002, vec![]));
                    t.extend(ends);
                    get(format!("{at}/both"), Want::Body(200, b"both".to_vec(), t))
                }
                1 => {
                    t.push(Ev::Handler(900_003, vec![]));
                    t.extend(ends);
                    let v = format!("v{}", rng.below(1000));
                    Ask {
                        m: 1,
                        path: format!("{at}/p/{v}"),
                        want: Want::Body(200, v.into_bytes(), t),
                        rid,
                    }
                }
                _ => match o.shared_extra {
                    Some(id) => {
                        t.push(Ev::Handler(id, vec![]));
                        t.extend(ends);
                        get(format!("{at}/mine"), Want::Body(200, format!("mine {id}").into_bytes(), t))
                    }
                    None => get(format!("{at}/mine"), Want::Body(404, vec![], vec![])),
                },
            }
        }
        _ => {
            let pats: Vec<Segs> = other.model.locs.keys().cloned().collect();
            let mut path = gen_path(rng, &pats, false);
            // the group's own places are judged above
            if !is_below_app(&path) || !path.parse::<obsidian::Uri>().map_or(false, |u| u.path() == path) {
                path = format!("/app/x{}", rng.below(9));
            }
            let m = probe_method(rng, &other.model, &path);
            let want = Want::Hit(o.model.dispatch(m, &path));
            Ask { m, path, want, rid }
        }
    }
}
fn is_below_app(p: &str) -> bool {
    segs(p).first().map_or(false, |s| s == "app")
}
fn judge(o: &One, k: usize, a: &Ask, r: &Resp) -> Result<(), Violation> {
    let got = take_trace(a.rid);
    let bad = |what: &str, want: Value| {
        viol(
            what,
            json!({"application": k, "request": format!("{} {}", METHODS[a.m], a.path), "expected": want, "status": r.status, "body": show(&r.body), "ran": format!("{got:?}"),
                "routes": items_json(&o.items)}),
        )
    };
    let what = "an application does not answer as it would alone";
    match &a.want {
        Want::Hit(None) => {
            if r.status != 404 || !got.is_empty() {
                return bad(what, json!(404));
            }
        }
        Want::Hit(Some(h)) => {
            if r.status != 200 || got != expected_trace(h, &o.names) || r.body != format!("h{}", h.handler).into_bytes() {
                return bad(what, show_hit(&Some(h.clone())));
            }
        }
        Want::Body(404, _, _) => {
            if r.status != 404 || !got.is_empty() {
                return bad(what, json!(404));
            }
        }
        Want::Body(s, b, t) => {
            if r.status != *s || &r.body != b || &got != t {
                return bad(what, json!({"status": s, "body": show(b), "runs": format!("{t:?}")}));
            }
        }
    }
    Ok(())
}
fn wire(a: &Ask) -> Vec<u8> {
    req(METHODS[a.m], &a.path, &[("x-rid", &a.rid.to_string())], b"")
}
/// How often the root middleware must have run for the answered request.
fn passes(a: &Ask) -> bool {
    match &a.want {
        Want::Hit(h) => h.is_some(),
        Want::Body(s, _, _) => *s == 200 || a.path.starts_with("/files/"),
    }
}
struct Talk<'a> {
    apps: &'a [One],
    ports: &'a [u16],
    sent: &'a [AtomicU64],
}
/// One client of all of them, in any order.
fn client(t: &Talk, rng: &mut Rng, n: usize, two: bool, order: &Mutex<Vec<u8>>) -> Result<u64, Violation> {
    let mut conns: Vec<Option<Conn>> = t.ports.iter().map(|_| None).collect();
    let mut twos: Vec<Option<h2::H2>> = t.ports.iter().map(|_| None).collect();
    for _ in 0..n {
        let k = rng.below(t.ports.len());
        let a = ask(rng, t.apps, k);
        let d = json!({"application": k, "request": format!("{} {}", METHODS[a.m], a.path)});
        order.lock().unwrap().push(k as u8);
        let r = if two {
            let q = (METHODS[a.m].to_string(), a.path.clone(), vec![("x-rid".to_string(), a.rid.to_string().into_bytes())], vec![]);
            let x = h2::crt().block_on(async {
                if twos[k].is_none() {
                    twos[k] = Some(h2::open(t.ports[k]).await?);
                }
                h2::call(&mut twos[k].as_mut().unwrap().tx, t.ports[k], &q, None).await
            });
            match x {
                Ok(r) => r,
                Err(e) => return h2::lost2("a request to one of several applications", e, d),
            }
        } else {
            match conns[k].get_or_insert_with(|| Conn::open(t.ports[k])).roundtrip(&wire(&a)) {
                Ok(r) => r,
                Err(e) => return lost("a request to one of several applications", e, d),
            }
        };
        judge(&t.apps[k], k, &a, &r)?;
        if passes(&a) {
            t.sent[k].fetch_add(1, Ordering::SeqCst);
        }
        if rng.chance(1, 10) {
            conns[k] = None;
            twos[k] = None;
        }
    }
    Ok(n as u64)
}
fn counts(all: &[One], sent: &[AtomicU64]) -> Result<(), Violation> {
    for (k, o) in all.iter().enumerate() {
        let (ran, s) = (o.calls.load(Ordering::SeqCst), sent[k].load(Ordering::SeqCst));
        if ran != s {
            return viol("an application's middleware ran for requests of another one, or not for its own", json!({"application": k, "ran": ran, "requests": s}));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- applications one after another
/// Serves one application on a runtime of its own; false when the port is not to be had.
fn serve_on(port: u16, app: App<String>, threads: usize) -> Option<tokio::runtime::Runtime> {
    let rt = if threads == 0 {
        tokio::runtime::Builder::new_multi_thread().worker_threads(1).thread_name("srv").enable_all().build().unwrap()
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(threads).thread_name("srv").enable_all().build().unwrap()
    };
    let h = rt.spawn(app.listen(port));
    let t = Instant::now();
    while t.elapsed() < Duration::from_secs(20) {
        if h.is_finished() {
            return None;
        }
        if std::net::TcpStream::connect(("127.0.0.1", port)).is_ok() {
            // somebody else's listener?
            std::thread::sleep(Duration::from_millis(2));
            return if h.is_finished() { None } else { Some(rt) };
        }
        std::thread::sleep(Duration::from_micros(500));
    }
    None
}

pub fn c26(cx: &Arc<Cx>) {
    cx.rule("histories: random sequences of creating, copying, changing, mounting copies of (also of itself, in several places) and dropping up to 7 routers of one path vocabulary, each next to its own model; any router is asked for paths of any of them after every step, results of look-ups are dispatched later, after changes and drops. served: groups of 2-5 applications with the same paths, states, files and a router in common, asked at the same time over HTTP/1.1 and 2; and such applications served one after another on one port; an evaluation is one dispatch or request; non-trivial: more than one router or application exists");
    cwd();
    cx.plan(3);
    cx.cases("histories", cx.n(16_000), 8, |rng, _, rep| history(rng, rep));
    cx.cases("together", cx.n(220), 4, |rng, _, rep| {
        let n = rng.range(2, 5);
        let (apps, shared) = group(rng, n);
        let mut servers = vec![];
        for o in &apps {
            servers.push(Server::start(|| make(o, &shared))?);
        }
        // the original is of no use to them
        drop(shared);
        let ports: Vec<u16> = servers.iter().map(|s| s.port).collect();
        let sent: Vec<AtomicU64> = apps.iter().map(|_| AtomicU64::new(0)).collect();
        let order: Mutex<Vec<u8>> = Default::default();
        let done = AtomicU64::new(0);
        for round in 0..2 {
            let live = ports.len() - if round == 1 { 1 } else { 0 };
            if round == 1 {
                // one of them ends
                servers.pop();
            }
            if live == 0 {
                break;
            }
            let t = Talk { apps: &apps, ports: &ports[..live], sent: &sent };
            let mut jobs: Vec<Box<dyn FnOnce() -> Result<(), Violation> + Send + '_>> = vec![];
            for c in 0..rng.range(1, 5) {
                let mut r = rng.fork();
                let (t, done, order) = (&t, &done, &order);
                let per = rng.range(10, 40);
                jobs.push(Box::new(move || {
                    done.fetch_add(client(t, &mut r, per, c == 2, order)?, Ordering::Relaxed);
                    Ok(())
                }));
            }
            together(jobs)?;
        }
        counts(&apps, &sent)?;
        let n = done.load(Ordering::Relaxed);
        rep.evals += n;
        rep.distinct.push(hash_of(&*order.lock().unwrap()));
        rep.count("answers_side_by_side", n);
        rep.count("groups", 1);
        rep.sample = Some(json!({"applications": apps.len(), "requests": n, "routes_of_the_first": items_json(&apps[0].items)}));
        Ok(())
    });
    let base = 32000 - 300 - (std::process::id() % 40) as u16 * 7;
    cx.cases("in_turn", cx.n(60), 4, |rng, case, rep| {
        let n = rng.range(2, 4);
        let (apps, shared) = group(rng, n);
        let port = base + (case % 250) as u16;
        let order: Mutex<Vec<u8>> = Default::default();
        for (k, o) in apps.iter().enumerate() {
            let Some(rt) = serve_on(port, make(o, &shared), rng.below(3)) else {
                rep.count("port_not_available", 1);
                return Ok(());
            };
            let mut c = Conn::open(port);
            for _ in 0..rng.range(8, 20) {
                let a = ask(rng, &apps, k);
                match c.roundtrip(&wire(&a)) {
                    Ok(r) => judge(o, k, &a, &r)?,
                    Err(e) => return lost("a request to an application served after another", e, json!({"application": k, "request": format!("{} {}", METHODS[a.m], a.path)})),
                }
                order.lock().unwrap().push(k as u8);
                rep.eval(Some(hash_of(&(case, k, a.m, &a.path))));
                rep.count(if k == 0 { "answers_of_the_first" } else { "answers_after_another" }, 1);
            }
            drop(c);
            rt.shutdown_timeout(Duration::from_secs(20));
        }
        Ok(())
    });
    cx.need("clones", 5000);
    cx.need("mounts_of_copies", 2000);
    cx.need("known_to_another_router_only", 5000);
    cx.need("dispatched_after_changes", 5000);
    cx.need("answers_side_by_side", 3000);
    cx.need("answers_after_another", 100);
}
