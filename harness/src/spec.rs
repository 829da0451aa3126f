//! Application descriptions: how to build the real thing from them, and an independent model of
//! what it must do (a flat list of patterns; no prefix tree, no sharing with the library).
use crate::core::*;
use async_trait::async_trait;
use obsidian::context::Context;
use obsidian::middleware::Middleware;
use obsidian::router::Router;
use obsidian::{App, ContextResult, EndpointExecutor, Method};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

pub const METHODS: [&str; 5] = ["GET", "POST", "PUT", "PATCH", "DELETE"];
pub fn method(m: usize) -> Method {
    Method::from_bytes(METHODS[m].as_bytes()).unwrap()
}

#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Item {
    Route { m: usize, path: String, id: u32 },
    /// middleware on the current router as a whole
    MwRoot { id: u32 },
    Mw { path: String, id: u32 },
    /// scope: through App::scope (only meaningful directly in an application)
    Mount { path: String, scope: bool, items: Vec<Item> },
}

// ---------------------------------------------------------------- events
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Enter(u32),
    Exit(u32),
    Handler(u32, Vec<(String, Option<String>)>),
}
#[derive(Clone, Default)]
pub struct Trace(pub Arc<Mutex<Vec<Ev>>>);

static TRACES: OnceLock<Vec<Mutex<HashMap<u64, Vec<Ev>>>>> = OnceLock::new();
fn shard(rid: u64) -> &'static Mutex<HashMap<u64, Vec<Ev>>> {
    let t = TRACES.get_or_init(|| (0..64).map(|_| Default::default()).collect());
    &t[(rid % 64) as usize]
}
pub fn rid_of(ctx: &Context) -> Option<u64> {
    ctx.headers().get("x-rid")?.to_str().ok()?.parse().ok()
}
fn emit_to(tr: &Option<Trace>, rid: Option<u64>, ev: Ev) {
    if let Some(t) = tr {
        t.0.lock().unwrap().push(ev);
    } else if let Some(r) = rid {
        shard(r).lock().unwrap().entry(r).or_default().push(ev);
    }
}
pub fn emit(ctx: &Context, ev: Ev) {
    emit_to(&ctx.get::<Trace>().cloned(), rid_of(ctx), ev)
}
/// Handle that can still emit after the context was moved on.
#[derive(Clone)]
pub struct Emitter(Option<Trace>, Option<u64>);
impl Emitter {
    pub fn of(ctx: &Context) -> Self {
        Emitter(ctx.get::<Trace>().cloned(), rid_of(ctx))
    }
    pub fn emit(&self, ev: Ev) {
        emit_to(&self.0, self.1, ev)
    }
}
pub fn take_trace(rid: u64) -> Vec<Ev> {
    shard(rid).lock().unwrap().remove(&rid).unwrap_or_default()
}
pub fn next_rid() -> u64 {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(1);
    N.fetch_add(1, Ordering::Relaxed)
}

pub struct RecMw(pub u32);
#[async_trait]
impl Middleware for RecMw {
    async fn handle<'a>(&'a self, context: Context, ex: EndpointExecutor<'a>) -> ContextResult {
        let e = Emitter::of(&context);
        e.emit(Ev::Enter(self.0));
        let r = ex.next(context).await;
        e.emit(Ev::Exit(self.0));
        r
    }
}

/// Parameter names read by every handler.
pub type Names = Arc<Vec<String>>;

async fn endpoint(ctx: Context, id: u32, names: Names) -> ContextResult {
    let ps: Vec<(String, Option<String>)> = names.iter().map(|n| (n.clone(), ctx.param::<String>(n).ok())).collect();
    emit(&ctx, Ev::Handler(id, ps));
    ctx.build(format!("h{id}")).ok()
}

pub trait Reg {
    fn route(&mut self, m: usize, path: &str, h: impl obsidian::router::Handler);
    fn mw(&mut self, path: &str, h: impl Middleware);
    fn mw_root(&mut self, h: impl Middleware);
    fn mount(&mut self, path: &str, r: Router);
}
macro_rules! reg {
    ($t:ty, $($g:tt)*) => {
        impl $($g)* Reg for $t {
            fn route(&mut self, m: usize, path: &str, h: impl obsidian::router::Handler) {
                match m {
                    0 => self.get(path, h),
                    1 => self.post(path, h),
                    2 => self.put(path, h),
                    3 => self.patch(path, h),
                    _ => self.delete(path, h),
                }
            }
            fn mw(&mut self, path: &str, h: impl Middleware) { self.use_service_to(path, h) }
            fn mw_root(&mut self, h: impl Middleware) { self.use_service(h) }
            fn mount(&mut self, path: &str, r: Router) { self.use_router(path, r) }
        }
    };
}
reg!(Router,);
reg!(App<T>, <T: Clone + Send + Sync + 'static>);

/// Registers one item; Err is the panic that refused it. Mounted routers are built leniently:
/// refused inner items are left out, as the model does.
pub fn apply<R: Reg>(r: &mut R, it: &Item, names: &Names) -> Result<(), PanicRec> {
    match it {
        Item::Route { m, path, id } => {
            let (id, names) = (*id, names.clone());
            refusable(|| r.route(*m, path, move |ctx: Context| endpoint(ctx, id, names.clone())))
        }
        Item::MwRoot { id } => refusable(|| r.mw_root(RecMw(*id))),
        Item::Mw { path, id } => refusable(|| r.mw(path, RecMw(*id))),
        Item::Mount { path, items, .. } => {
            let mut sub = Router::new();
            for i in items {
                let _ = apply(&mut sub, i, names);
            }
            refusable(|| r.mount(path, sub))
        }
    }
}
pub fn apply_app<T: Clone + Send + Sync + 'static>(app: &mut App<T>, it: &Item, names: &Names) -> Result<(), PanicRec> {
    if let Item::Mount { path, scope: true, items } = it {
        return refusable(|| {
            app.scope(path, |sub: &mut Router| {
                for i in items {
                    let _ = apply(sub, i, names);
                }
            })
        });
    }
    apply(app, it, names)
}
pub fn build_router(items: &[Item], names: &Names) -> (Router, Vec<bool>) {
    let mut r = Router::new();
    let v = items.iter().map(|i| apply(&mut r, i, names).is_ok()).collect();
    (r, v)
}
pub fn build_app(items: &[Item], names: &Names) -> (App, Vec<bool>) {
    let mut r: App = App::new();
    let v = items.iter().map(|i| apply_app(&mut r, i, names).is_ok()).collect();
    (r, v)
}

// ---------------------------------------------------------------- model
pub type Segs = Vec<String>;
pub fn segs(path: &str) -> Segs {
    path.split('/').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()
}
fn is_param(s: &str) -> bool {
    s.starts_with(':')
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Loc {
    pub routes: BTreeMap<usize, u32>,
    pub mws: Vec<u32>,
}
impl Loc {
    fn used(&self) -> bool {
        !self.routes.is_empty() || !self.mws.is_empty()
    }
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Model {
    /// every path that exists as a prefix of a registered one
    pub locs: BTreeMap<Segs, Loc>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Hit {
    pub pattern: Segs,
    pub handler: u32,
    pub mws: Vec<u32>,
    pub params: BTreeMap<String, String>,
}
impl Model {
    pub fn new() -> Self {
        let mut m = Model::default();
        m.locs.insert(vec![], Loc::default());
        m
    }
    fn children<'a>(&'a self, p: &'a [String]) -> impl Iterator<Item = &'a String> + 'a {
        self.locs.keys().filter(move |k| k.len() == p.len() + 1 && k.starts_with(p)).map(move |k| &k[p.len()])
    }
    fn make(&mut self, path: &Segs) -> Result<(), String> {
        for (i, s) in path.iter().enumerate() {
            if s.contains('*') && (s != "*" || i + 1 != path.len()) {
                return Err("misplaced *".into());
            }
        }
        for i in 0..path.len() {
            let (parent, seg) = (&path[..i], &path[i]);
            if !self.locs.contains_key(&path[..=i]) {
                let kids: Vec<&String> = self.children(parent).collect();
                if (is_param(seg) && !kids.is_empty()) || kids.iter().any(|k| is_param(k)) {
                    return Err(format!("{seg} next to {:?}", kids));
                }
                self.locs.insert(path[..=i].to_vec(), Loc::default());
            }
        }
        Ok(())
    }
    pub fn apply(&mut self, it: &Item) -> Result<(), String> {
        match it {
            Item::Route { m, path, id } => {
                let p = segs(path);
                self.make(&p)?;
                let l = self.locs.get_mut(&p).unwrap();
                if l.routes.contains_key(m) {
                    return Err("duplicate".into());
                }
                l.routes.insert(*m, *id);
            }
            Item::MwRoot { id } => self.locs.get_mut(&vec![]).unwrap().mws.push(*id),
            Item::Mw { path, id } => {
                let p = segs(path);
                self.make(&p)?;
                self.locs.get_mut(&p).unwrap().mws.push(*id);
            }
            Item::Mount { path, items, .. } => {
                let mut sub = Model::new();
                for i in items {
                    let _ = sub.apply(i);
                }
                self.mount(path, sub)?;
            }
        }
        Ok(())
    }
    /// Another table becomes part of this one.
    pub fn mount(&mut self, path: &str, sub: Model) -> Result<(), String> {
        let p = segs(path);
        if p.is_empty() {
            let root = &self.locs[&vec![]];
            if !root.routes.is_empty() || self.locs.len() > 1 {
                return Err("occupied root".into());
            }
            let mut mws = root.mws.clone();
            *self = sub;
            let r = self.locs.get_mut(&vec![]).unwrap();
            mws.append(&mut r.mws);
            r.mws = mws;
            return Ok(());
        }
        self.make(&p)?;
        if self.locs[&p].used() || self.children(&p).next().is_some() {
            return Err("occupied".into());
        }
        for (k, v) in sub.locs {
            self.locs.insert([&p[..], &k[..]].concat(), v);
        }
        Ok(())
    }
    /// A parameter name is declared twice on one path.
    pub fn repeats(&self) -> bool {
        self.locs.keys().any(|k| {
            let mut ps: Vec<_> = k.iter().filter(|s| is_param(s)).collect();
            let n = ps.len();
            ps.sort();
            ps.dedup();
            ps.len() != n
        })
    }
    pub fn of(items: &[Item]) -> (Model, Vec<bool>) {
        let mut m = Model::new();
        let v = items.iter().map(|i| m.apply(i).is_ok()).collect();
        (m, v)
    }
    /// The pattern a request path belongs to: the exact one, else the longest wildcard prefix.
    pub fn locate(&self, path: &str) -> Option<&Segs> {
        let q = segs(path);
        let fits = |p: &[String]| p.iter().zip(&q).all(|(a, b)| is_param(a) || a == b);
        let mut best: Option<&Segs> = None;
        for (p, l) in &self.locs {
            if !l.used() {
                continue;
            }
            match p.split_last() {
                Some((w, pre)) if w == "*" => {
                    let longer = q.len() > pre.len();
                    let bare = q.len() == pre.len() && pre.last().map_or(false, |s| !is_param(s));
                    if (longer || bare) && fits(pre) && best.map_or(true, |b| b.len() < p.len()) {
                        best = Some(p);
                    }
                }
                _ => {
                    if p.len() == q.len() && fits(p) {
                        return Some(p);
                    }
                }
            }
        }
        best
    }
    pub fn dispatch(&self, m: usize, path: &str) -> Option<Hit> {
        let p = self.locate(path)?;
        let handler = *self.locs[p].routes.get(&m)?;
        let mut mws = vec![];
        for i in 0..=p.len() {
            if let Some(l) = self.locs.get(&p[..i]) {
                mws.extend(&l.mws);
            }
        }
        let q = segs(path);
        let mut params = BTreeMap::new();
        for (a, b) in p.iter().zip(&q) {
            if is_param(a) {
                params.insert(a[1..].to_string(), b.clone());
            }
        }
        Some(Hit {
            pattern: p.clone(),
            handler,
            mws,
            params,
        })
    }
}

pub fn expected_trace(h: &Hit, names: &Names) -> Vec<Ev> {
    let mut t: Vec<Ev> = h.mws.iter().map(|&m| Ev::Enter(m)).collect();
    t.push(Ev::Handler(h.handler, names.iter().map(|n| (n.clone(), h.params.get(n).cloned())).collect()));
    t.extend(h.mws.iter().rev().map(|&m| Ev::Exit(m)));
    t
}

/// What in-process dispatch through the public router API did.
#[derive(Debug, Clone, PartialEq)]
pub struct Seen {
    pub found: bool,
    pub trace: Vec<Ev>,
    pub body: Option<Vec<u8>>,
    pub status: u16,
    pub params: BTreeMap<String, String>,
}
pub fn dispatch_router(r: &Router, m: usize, path: &str) -> Seen {
    look_up(r, m, path)()
}
/// Looks the path up now; what was found is dispatched when the result is called.
pub fn look_up(r: &Router, m: usize, path: &str) -> impl FnOnce() -> Seen {
    let found = r.search_route(path);
    move || {
    let none = Seen {
        found: false,
        trace: vec![],
        body: None,
        status: 404,
        params: BTreeMap::new(),
    };
    let Some(v) = found else { return none };
    let meth = method(m);
    let Some(route) = v.get_route(&meth) else { return none };
    let tr = Trace::default();
    let mut rq = obsidian::Request::new(obsidian::Body::empty());
    *rq.method_mut() = meth;
    rq.extensions_mut().insert(tr.clone());
    let params = v.get_params();
    let ctx = Context::new(rq, params.clone());
    let out = block_on(EndpointExecutor::new(&route.handler, v.get_middlewares()).next(ctx));
    let (status, body) = match out {
        Ok(c) => match c.take_response() {
            Some(r) => {
                let s = r.status().as_u16();
                (s, Some(block_on(hyper::body::to_bytes(r.body())).unwrap().to_vec()))
            }
            None => (200, None),
        },
        Err(e) => (500, Some(e.to_string().into_bytes())),
    };
    let trace = tr.0.lock().unwrap().clone();
    Seen {
        found: true,
        trace,
        body,
        status,
        params: params.into_iter().filter(|(k, _)| k != "*").collect(),
    }
    }
}

// ---------------------------------------------------------------- generation
const WORDS: [&str; 34] = [
    "a", "ab", "abc", "abcd", "abd", "b", "ba", "bab", "aa", "aab", "user", "users", "use", "us", "u", "used", "x", "xy", "admin", "adm", "a-b", "a.b",
    "a_b", "~a", "A", "Ab", "1", "12", "123", "a:b", "a:", "%20", "%2F", "a%2Fb",
];
/// Names as applications have them, and the same with one difference.
const LONG: [&str; 22] = [
    "administrator", "Administrator", "administraTor", "ADMINISTRATOR", "administrators", "administration", "authentication", "getting-started", "getting_started",
    "Getting-Started", "getting-started.html", "index.html", "index.htm", "index.HTML", ".well-known", "favicon.ico", "robots.txt", "users.json", "users.xml",
    "v1.2.3-beta+4", "$metadata", "~someone",
];
const UNI: [&str; 12] = ["é", "éa", "è", "ノ", "ノーマル", "ノート", "テスト", "テーブル", "🦀", "🦀a", "a🦀", "ñ"];
pub struct GenOpt {
    pub unicode: bool,
    pub params: bool,
    pub wild: bool,
    pub mws: bool,
    pub mounts: bool,
    pub max_items: usize,
    /// malformed wildcards, ambiguous neighbours
    pub bad: bool,
}
pub fn literal(rng: &mut Rng, o: &GenOpt) -> String {
    match rng.below(10) {
        0..=4 => rng.pick(&WORDS).to_string(),
        5 | 6 => {
            let n = rng.range(1, 4);
            (0..n).map(|_| *rng.pick(&['a', 'b', 'c'])).collect()
        }
        7 if o.unicode => {
            if rng.chance(1, 2) {
                rng.pick(&UNI).to_string()
            } else {
                let n = rng.range(1, 3);
                (0..n).map(|_| *rng.pick(&['a', 'é', 'è', 'ノ', '🦀'])).collect()
            }
        }
        8 => {
            let d = &dict().strs;
            if !d.is_empty() {
                let s = rng.pick(d).clone();
                if is_uri_seg(&s) && !s.contains('*') && !s.starts_with(':') {
                    return s;
                }
            }
            "z".into()
        }
        9 if rng.chance(1, 3) => rng.pick(&LONG).to_string(),
        9 if rng.chance(1, 5) => {
            let n = rng.size(300).max(1);
            (0..n).map(|_| *rng.pick(&['a', 'b'])).collect()
        }
        _ => rng.pick(&WORDS[..10]).to_string(),
    }
}
pub fn is_uri_seg(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b"-._~:@!$&'()+,;=%".contains(&b))
}
const PNAMES: [&str; 8] = ["id", "name", "x", "y", "user_id", "id2", "i", "long-name.1"];
fn gen_seg(rng: &mut Rng, o: &GenOpt, last: bool) -> String {
    match rng.below(12) {
        0 | 1 if o.params => format!(":{}", rng.pick(&PNAMES)),
        2 if o.wild && last => "*".into(),
        3 if o.bad && rng.chance(1, 3) => rng.pick(&["*", "a*", "*a", "a*b", "**", ":*"]).to_string(),
        _ => literal(rng, o),
    }
}
fn related(rng: &mut Rng, pool: &[Segs], o: &GenOpt) -> Segs {
    let mut p: Segs = if pool.is_empty() || rng.chance(1, 4) { vec![] } else { rng.pick(pool).clone() };
    if p.last().map_or(false, |s| s == "*") && !rng.chance(1, 8) {
        p.pop();
    }
    match rng.below(8) {
        0 | 1 => {
            let n = rng.below(p.len() + 1);
            p.truncate(n);
        }
        2 => {
            // extend or cut a literal: the neighbourhood prefix trees split on
            if let Some(s) = p.last_mut() {
                if !is_param(s) && s != "*" {
                    if rng.chance(1, 2) {
                        s.push_str(&literal(rng, o));
                    } else {
                        let n = s.chars().count();
                        let k = rng.range(1, n.max(1));
                        *s = s.chars().take(k).collect();
                    }
                }
            }
        }
        3 => {
            // split a segment in two
            if let Some(s) = p.pop() {
                let cs: Vec<char> = s.chars().collect();
                if cs.len() > 1 && cs[0] != ':' {
                    let k = rng.range(1, cs.len() - 1);
                    let (a, b): (String, String) = (cs[..k].iter().collect(), cs[k..].iter().collect());
                    p.push(a);
                    if !b.starts_with(':') {
                        p.push(b);
                    }
                } else {
                    p.push(s);
                }
            }
        }
        _ => {}
    }
    let extra = match rng.below(60) {
        0 => rng.size(60),
        _ => *rng.pick(&[0, 0, 1, 1, 1, 2, 2, 3, 5]),
    };
    for i in 0..extra {
        p.push(gen_seg(rng, o, i + 1 == extra));
    }
    // parameter names are unique within one pattern
    let mut seen = vec![];
    for s in p.iter_mut() {
        if is_param(s) {
            while seen.contains(s) {
                s.push('0');
            }
            seen.push(s.clone());
        }
    }
    p
}
pub fn spell(rng: &mut Rng, p: &[String]) -> String {
    if rng.chance(2, 3) {
        return format!("/{}", p.join("/"));
    }
    let sl = |rng: &mut Rng| if rng.chance(1, 4) { "//" } else { "/" };
    let mut s = String::new();
    if rng.chance(1, 2) {
        s.push_str(sl(rng));
    }
    for (i, x) in p.iter().enumerate() {
        if i > 0 {
            s.push_str(sl(rng));
        }
        s.push_str(x);
    }
    if rng.chance(1, 2) {
        s.push_str(sl(rng));
    }
    s
}
pub struct Ids(pub u32);
impl Ids {
    pub fn next(&mut self) -> u32 {
        self.0 += 1;
        self.0
    }
}
pub fn gen_items(rng: &mut Rng, o: &GenOpt, ids: &mut Ids, depth: usize, pool: &mut Vec<Segs>) -> Vec<Item> {
    let n = match rng.below(6) {
        0 => rng.range(1, 3),
        1..=3 => rng.range(2, 8),
        _ => rng.range(1, o.max_items.max(1)),
    };
    let n = if depth > 0 { n.min(6) } else { n };
    let n = if rng.chance(1, 60) { rng.size(300).max(n) } else { n };
    // now and then one kind of registration dominates
    let lean = rng.below(12);
    let mut out = vec![];
    let mut local: Vec<Segs> = pool.clone();
    for _ in 0..n {
        let k = match lean {
            0 if rng.chance(4, 5) => 13,
            1 if rng.chance(4, 5) => 0,
            2 if rng.chance(2, 3) => 18,
            _ => rng.below(20),
        };
        if o.mounts && depth < 5 && k >= 17 {
            let mut p = related(rng, &local, o);
            p.retain(|s| !s.contains('*'));
            if rng.chance(1, 12) {
                p.clear();
            }
            let mut sp = if rng.chance(1, 2) { local.clone() } else { vec![] };
            let items = gen_items(rng, o, ids, depth + 1, &mut sp);
            local.push(p.clone());
            let scope = depth == 0 && rng.chance(1, 2);
            let path = if scope { spell(rng, &p) } else { spell(rng, &p) };
            out.push(Item::Mount { path, scope, items });
        } else if o.mws && k >= 13 {
            let id = ids.next();
            if rng.chance(1, 3) {
                out.push(Item::MwRoot { id });
            } else {
                let p = related(rng, &local, o);
                local.push(p.clone());
                out.push(Item::Mw { path: spell(rng, &p), id });
            }
        } else {
            let p = related(rng, &local, o);
            local.push(p.clone());
            let m = if rng.chance(1, 2) { 0 } else { rng.below(5) };
            out.push(Item::Route {
                m,
                path: spell(rng, &p),
                id: ids.next(),
            });
        }
    }
    *pool = local;
    out
}
/// Drops what the model refuses and patterns in which a parameter name repeats.
pub fn accepted(items: Vec<Item>) -> Vec<Item> {
    fn prune(items: Vec<Item>, prefix: &Segs) -> Vec<Item> {
        let mut m = Model::new();
        let mut out = vec![];
        for it in items {
            let full = |p: &str| -> bool {
                let all = [&prefix[..], &segs(p)[..]].concat();
                let ps: Vec<_> = all.iter().filter(|s| is_param(s)).collect();
                let mut u = ps.clone();
                u.sort();
                u.dedup();
                u.len() == ps.len()
            };
            let it = match it {
                Item::Mount { path, scope, items } => {
                    if !full(&path) {
                        continue;
                    }
                    let pre = [&prefix[..], &segs(&path)[..]].concat();
                    Item::Mount {
                        items: prune(items, &pre),
                        path,
                        scope,
                    }
                }
                Item::Route { ref path, .. } | Item::Mw { ref path, .. } if !full(path) => continue,
                x => x,
            };
            if m.apply(&it).is_ok() {
                out.push(it);
            } else {
                // the failed attempt must not leave half-made prefixes in this bookkeeping model
                m = Model::of(&out).0;
            }
        }
        out
    }
    prune(items, &vec![])
}
pub fn names_of(items: &[Item]) -> Names {
    fn walk(items: &[Item], v: &mut Vec<String>) {
        for i in items {
            match i {
                Item::Route { path, .. } | Item::Mw { path, .. } => v.extend(segs(path).into_iter().filter(|s| is_param(s)).map(|s| s[1..].to_string())),
                Item::Mount { path, items, .. } => {
                    v.extend(segs(path).into_iter().filter(|s| is_param(s)).map(|s| s[1..].to_string()));
                    walk(items, v)
                }
                _ => {}
            }
        }
    }
    let mut v = vec!["undeclared".to_string(), "".to_string(), ":id".to_string()];
    walk(items, &mut v);
    v.sort();
    v.dedup();
    Arc::new(v)
}
fn value(rng: &mut Rng, uni: bool) -> String {
    let s = match rng.below(9) {
        0 => rng.range(0, 99999).to_string(),
        1 => "%E3%83%8E%20x".into(),
        2 => ":id".into(),
        3 => "*".into(),
        4 => "a+b&c=d".into(),
        5 => {
            let n = rng.size(3000).max(1);
            (0..n).map(|_| *rng.pick(&['v', 'w', '%', '.'])).collect()
        }
        6 => "..".into(),
        7 if uni => rng.pick(&UNI).to_string(),
        _ => literal(
            rng,
            &GenOpt {
                unicode: uni,
                params: false,
                wild: false,
                mws: false,
                mounts: false,
                max_items: 0,
                bad: false,
            },
        ),
    };
    s
}
/// A request path near the patterns of the model.
pub fn gen_path(rng: &mut Rng, pats: &[Segs], uni: bool) -> String {
    let mut q: Segs = vec![];
    if !pats.is_empty() && !rng.chance(1, 20) {
        for s in rng.pick(pats) {
            if is_param(s) {
                q.push(value(rng, uni));
            } else if s == "*" {
                let n = if rng.chance(1, 40) { rng.size(400) } else { *rng.pick(&[0, 1, 1, 1, 2, 3, 6]) };
                for _ in 0..n {
                    q.push(value(rng, uni));
                }
            } else {
                q.push(s.clone());
            }
        }
    } else {
        for _ in 0..rng.below(5) {
            q.push(value(rng, uni));
        }
    }
    // mutate
    for _ in 0..*rng.pick(&[0, 0, 0, 1, 1, 2]) {
        let i = rng.below(q.len() + 1);
        match rng.below(13) {
            0 if i < q.len() => {
                q.remove(i);
            }
            1 if i < q.len() => {
                let s = q[i].clone();
                q.insert(i, s);
            }
            2 if i < q.len() => {
                let cs: Vec<char> = q[i].chars().collect();
                if cs.len() > 1 {
                    let k = rng.range(1, cs.len() - 1);
                    q[i] = cs[..k].iter().collect();
                    q.insert(i + 1, cs[k..].iter().collect());
                }
            }
            3 if i + 1 < q.len() => {
                let s = q.remove(i + 1);
                q[i].push_str(&s);
            }
            4 if i < q.len() => {
                let n = q[i].chars().count();
                let k = rng.range(1, n.max(1));
                q[i] = q[i].chars().take(k).collect();
            }
            5 if i < q.len() => {
                let v = value(rng, uni);
                q[i].push_str(&v);
            }
            6 if i < q.len() => q[i] = value(rng, uni),
            7 => q.insert(i, value(rng, uni)),
            9 if i < q.len() => {
                // one letter in the other case
                let mut cs: Vec<char> = q[i].chars().collect();
                let k = rng.below(cs.len());
                if let Some(c) = cs.get_mut(k).filter(|c| c.is_ascii_alphabetic()) {
                    *c = (*c as u8 ^ 0x20) as char;
                }
                q[i] = cs.into_iter().collect();
            }
            10 if i < q.len() => {
                // one character for another
                let mut cs: Vec<char> = q[i].chars().collect();
                let k = rng.below(cs.len());
                if let Some(c) = cs.get_mut(k) {
                    *c = *rng.pick(&['-', '_', '.', '+', '~', 'a', 'z', '0', 'B', ':']);
                }
                q[i] = cs.into_iter().collect();
            }
            11 if i < q.len() => q[i].push_str(*rng.pick(&[".html", ".json", ";v=1", ";jsessionid=0", "%20", "%00", "+", ".", "~", ",x", "%2F"])),
            12 if i < q.len() => {
                // a multiple of 256 longer or shorter
                let n = q[i].len();
                if n >= 256 && rng.chance(1, 2) && q[i].is_char_boundary(n - 256) {
                    q[i].truncate(n - 256);
                } else {
                    let l = 256 * rng.range(1, 2);
                    q[i].push_str(&"a".repeat(l));
                }
            }
            _ if !pats.is_empty() => {
                let p = rng.pick(pats);
                if !p.is_empty() {
                    let s = rng.pick(p).clone();
                    q.insert(i, s);
                }
            }
            _ => {}
        }
    }
    q.retain(|s| !s.is_empty());
    let mut s = spell(rng, &q);
    if !s.starts_with('/') {
        s.insert(0, '/');
    }
    s
}
/// Tables of a size no test has: wide, dense, deep, with long segments.
pub fn gen_giant(rng: &mut Rng, mws: bool, ids: &mut Ids) -> Vec<Item> {
    let mut ps: Vec<Segs> = vec![];
    let prefix: Segs = if rng.chance(1, 2) { vec![] } else { vec!["api".into(), "v1".into()] };
    match rng.below(4) {
        0 => {
            // hundreds of children with nothing in common below one parent
            let n = rng.range(200, 900) as u32;
            for i in 0..n {
                let c = char::from_u32(0x4e00 + i * 7).unwrap();
                let mut p = prefix.clone();
                p.push(format!("{c}{}", if rng.chance(1, 3) { "x" } else { "" }));
                match rng.below(6) {
                    0 => p.push(":id".into()),
                    1 => p.push("*".into()),
                    2 => p.push("list".into()),
                    _ => {}
                }
                ps.push(p);
            }
            if rng.chance(1, 2) {
                ps.push([&prefix[..], &["*".to_string()]].concat());
            }
        }
        1 => {
            // every word over few letters
            let k = rng.range(4, 6);
            let mut level: Vec<String> = vec!["".into()];
            for _ in 0..k {
                level = level.iter().flat_map(|w| ["a", "b", "c"].map(|c| format!("{w}{c}"))).collect();
                for w in &level {
                    if rng.chance(3, 4) {
                        let mut p = prefix.clone();
                        p.push(w.clone());
                        if rng.chance(1, 8) {
                            p.push(if rng.chance(1, 2) { ":id".into() } else { "*".into() });
                        }
                        ps.push(p);
                    }
                }
            }
        }
        2 => {
            // long chains of segments
            for _ in 0..rng.range(1, 4) {
                let mut p = prefix.clone();
                let w = *rng.pick(&["a", "ab", "seg"]);
                let n = rng.range(100, 300);
                let bare = rng.range(0, n - 1);
                for i in 0..n {
                    p.push(match rng.below(8) {
                        0 if i > bare => format!(":p{i}"),
                        0 => format!("{w}{}", rng.below(3)),
                        _ => w.into(),
                    });
                    if rng.chance(1, 3) || i + 1 == n {
                        ps.push(p.clone());
                    }
                }
                p.push("*".into());
                ps.push(p);
            }
        }
        _ => {
            // long segments with long common beginnings
            let l = *rng.pick(&[100usize, 255, 256, 257, 1000, 4000]);
            let base: String = (0..l).map(|_| *rng.pick(&['a', 'b', '-'])).collect();
            for _ in 0..rng.range(20, 120) {
                let mut p = prefix.clone();
                let k = rng.range(1, l);
                let mut w: String = base[..k].into();
                if k + 256 < l && rng.chance(1, 3) {
                    // lengths that agree in their last byte
                    let mut p = prefix.clone();
                    p.push(base[..k + 256].into());
                    ps.push(p);
                    let mut p = prefix.clone();
                    p.push(w.clone());
                    ps.push(p);
                }
                for _ in 0..rng.size(l) {
                    w.push(*rng.pick(&['a', 'b', '-']));
                }
                p.push(w);
                if rng.chance(1, 4) {
                    p.push(rng.pick(&["*", ":id", "x"]).to_string());
                }
                ps.push(p);
            }
        }
    }
    rng.shuffle(&mut ps);
    let mut out = vec![];
    for p in ps {
        if mws && rng.chance(1, 3) {
            let mut q = p.clone();
            q.truncate(rng.range(0, p.len()));
            out.push(if q.is_empty() { Item::MwRoot { id: ids.next() } } else { Item::Mw { path: spell(rng, &q), id: ids.next() } });
        }
        out.push(Item::Route { m: if rng.chance(3, 4) { 0 } else { rng.below(5) }, path: spell(rng, &p), id: ids.next() });
    }
    out
}
pub fn items_json(items: &[Item]) -> Value {
    json!(items.iter().map(item_str).collect::<Vec<_>>())
}
fn item_str(i: &Item) -> Value {
    match i {
        Item::Route { m, path, id } => json!(format!("{} {} -> h{}", METHODS[*m], path, id)),
        Item::MwRoot { id } => json!(format!("use_service m{}", id)),
        Item::Mw { path, id } => json!(format!("use_service_to {} m{}", path, id)),
        Item::Mount { path, scope, items } => json!({ format!("{} {}", if *scope {"scope"} else {"use_router"}, path): items_json(items) }),
    }
}
