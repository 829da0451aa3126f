//! C01-C05, C07: the router against an independent model, in-process and on the wire.
use crate::core::*;
use crate::http::*;
use crate::spec::*;
use obsidian::context::Context;
use obsidian::router::Router;
use obsidian::{App, ContextResult};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::str::FromStr;
use std::sync::Arc;

fn opt(unicode: bool) -> GenOpt {
    GenOpt {
        unicode,
        params: true,
        wild: true,
        mws: true,
        mounts: true,
        max_items: 24,
        bad: false,
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Aspect {
    Handler,
    Params,
    Mws,
    All,
}
fn handler_of(t: &[Ev]) -> Vec<u32> {
    t.iter().filter_map(|e| if let Ev::Handler(h, _) = e { Some(*h) } else { None }).collect()
}
/// Judges one observed dispatch against the expected one.
fn judge(aspect: Aspect, exp: &Option<Hit>, found: bool, trace: &[Ev], names: &Names) -> Result<(), (String, Value)> {
    let fail = |what: &str| {
        Err((
            what.to_string(),
            json!({"expected": format!("{exp:?}"), "observed": format!("{:?}", trace), "answered": found}),
        ))
    };
    match exp {
        None => {
            if !trace.is_empty() && aspect != Aspect::Params {
                return fail("something ran for a request no route matches");
            }
            if found && matches!(aspect, Aspect::Handler | Aspect::All) {
                return fail("a request no route matches was answered by a route");
            }
        }
        Some(h) => {
            let hs = handler_of(trace);
            if matches!(aspect, Aspect::Handler | Aspect::All) {
                if !found {
                    return fail("a matching route was not found");
                }
                if hs != [h.handler] {
                    return fail("the wrong handler ran");
                }
            }
            // the other aspects are judged when the right handler was reached
            if hs != [h.handler] {
                return Ok(());
            }
            let want = expected_trace(h, names);
            if matches!(aspect, Aspect::Mws | Aspect::All) {
                let f = |t: &[Ev]| t.iter().map(|e| match e {
                    Ev::Handler(i, _) => (2, *i),
                    Ev::Enter(i) => (0, *i),
                    Ev::Exit(i) => (1, *i),
                }).collect::<Vec<_>>();
                if f(&want) != f(trace) {
                    return fail("the wrong middleware ran, or in the wrong order");
                }
            }
            if matches!(aspect, Aspect::Params | Aspect::All) {
                let f = |t: &[Ev]| t.iter().find_map(|e| if let Ev::Handler(_, p) = e { Some(p.clone()) } else { None });
                if f(&want) != f(trace) {
                    return fail("the path parameters are wrong");
                }
            }
        }
    }
    Ok(())
}
fn patterns(m: &Model) -> Vec<Segs> {
    m.locs.keys().cloned().collect()
}
fn kind(m: &Model, path: &str, exp: &Option<Hit>) -> u64 {
    // non-trivial: the answer is a parameter/wildcard/shared-prefix decision or a 404 next to routes
    let near = m.locs.keys().any(|p| p.iter().zip(segs(path)).any(|(a, b)| a != &b && a.chars().next() == b.chars().next()));
    let k = match exp {
        Some(h) => {
            let wild = h.pattern.iter().any(|s| s == "*");
            let par = h.pattern.iter().any(|s| s.starts_with(':'));
            (1, wild, par, h.mws.len())
        }
        None => (0, m.locate(path).is_some(), near, 0),
    };
    if !near && k.0 == 0 && !k.1 {
        return 0;
    }
    hash_of(&(k, path, m.locs.len()))
}
fn method_for(rng: &mut Rng, m: &Model, path: &str) -> usize {
    if let Some(p) = m.locate(path) {
        let ms: Vec<usize> = m.locs[p].routes.keys().copied().collect();
        if !ms.is_empty() && rng.chance(4, 5) {
            return *rng.pick(&ms);
        }
    }
    rng.below(5)
}

fn inproc(cx: &Arc<Cx>, phase: &str, n: u64, aspect: Aspect) {
    cx.cases(phase, n, 8, |rng, _, rep| {
        let uni = rng.chance(1, 3);
        let mut o = opt(uni);
        if aspect == Aspect::Handler && rng.chance(1, 3) {
            o.mws = false;
        }
        let items = accepted(gen_items(rng, &o, &mut Ids(0), 0, &mut vec![]));
        let names = names_of(&items);
        let (model, _) = Model::of(&items);
        let (router, ok) = build_router(&items, &names);
        if ok.contains(&false) {
            rep.count("tables_refused", 1);
            return Ok(());
        }
        rep.count("tables", 1);
        // the router a server uses is a clone
        let router = if rng.chance(1, 3) { router.clone() } else { router };
        let pats = patterns(&model);
        for _ in 0..40 {
            let path = gen_path(rng, &pats, uni);
            let m = method_for(rng, &model, &path);
            let exp = model.dispatch(m, &path);
            let seen = dispatch_router(&router, m, &path);
            observe(rep, &model, &path, &exp, aspect);
            if let Err((what, d)) = judge(aspect, &exp, seen.found, &seen.trace, &names) {
                return viol(what, json!({"request": format!("{} {}", METHODS[m], path), "why": d, "table": items_json(&items)}));
            }
            if seen.found && matches!(aspect, Aspect::Handler) {
                let want = format!("h{}", exp.as_ref().map_or(0, |h| h.handler)).into_bytes();
                if seen.body.as_ref() != Some(&want) {
                    return viol("the response is not the matched handler's", json!({"request": path, "table": items_json(&items)}));
                }
            }
            if aspect == Aspect::Params {
                if let Some(h) = &exp {
                    if handler_of(&seen.trace) == [h.handler] {
                        let extra: Vec<_> = seen.params.iter().filter(|(k, v)| h.params.get(*k) != Some(v)).collect();
                        if !extra.is_empty() || seen.params.len() != h.params.len() {
                            return viol(
                                "the set of path parameters is wrong",
                                json!({"request": path, "observed": seen.params, "expected": h.params, "table": items_json(&items)}),
                            );
                        }
                    }
                }
            }
        }
        if items.len() > 2 {
            rep.sample = Some(json!({"table": items_json(&items)}));
        }
        Ok(())
    });
}
/// Large tables, nearly every route of which is asked for.
fn giant(cx: &Arc<Cx>, n: u64, aspect: Aspect) {
    cx.cases("giant", n, 8, |rng, _, rep| {
        let items = accepted(gen_giant(rng, aspect == Aspect::Mws, &mut Ids(0)));
        let names = names_of(&items);
        let (model, _) = Model::of(&items);
        let (router, ok) = build_router(&items, &names);
        if ok.contains(&false) {
            rep.count("tables_refused", 1);
            return Ok(());
        }
        rep.count("giant_tables", 1);
        rep.count("giant_registrations", items.len() as u64);
        let mut pats = patterns(&model);
        rng.shuffle(&mut pats);
        for i in 0..pats.len().min(600) {
            let path = match rng.chance(2, 3) {
                // the pattern itself
                true => format!("/{}", pats[i].iter().map(|s| if s.starts_with(':') || s == "*" { "v1" } else { s }).collect::<Vec<_>>().join("/")),
                false => gen_path(rng, &pats, true),
            };
            let m = method_for(rng, &model, &path);
            let exp = model.dispatch(m, &path);
            let seen = dispatch_router(&router, m, &path);
            observe(rep, &model, &path, &exp, aspect);
            if let Err((what, d)) = judge(aspect, &exp, seen.found, &seen.trace, &names) {
                return viol(what, json!({"request": format!("{} {}", METHODS[m], path), "why": d, "registrations": items.len()}));
            }
        }
        rep.sample = Some(json!({"giant_table_of": items.len(), "first": items_json(&items[..items.len().min(3)])}));
        Ok(())
    });
}
fn observe(rep: &mut Rep, model: &Model, path: &str, exp: &Option<Hit>, aspect: Aspect) {
    let k = kind(model, path, exp);
    rep.eval(if k != 0 { Some(k) } else { None });
    match exp {
        Some(h) => {
            rep.count("matched", 1);
            if h.pattern.last().map_or(false, |s| s == "*") {
                rep.count("matched_wildcard", 1);
            }
            if aspect == Aspect::Params && !h.params.is_empty() {
                rep.count("params_checked", h.params.len() as u64);
            }
            if aspect == Aspect::Mws {
                rep.count("middleware_runs", h.mws.len() as u64);
                if h.mws.len() > 2 {
                    rep.count("stacked_chains", 1);
                }
            }
        }
        None => rep.count(if model.locate(path).is_some() { "no_method_404" } else { "unmatched_404" }, 1),
    }
}

fn wire(cx: &Arc<Cx>, phase: &str, n: u64, aspect: Aspect) {
    cx.cases(phase, n, 8, |rng, _, rep| {
        let items = accepted(gen_items(rng, &opt(false), &mut Ids(0), 0, &mut vec![]));
        let names = names_of(&items);
        let (model, _) = Model::of(&items);
        if build_app(&items, &names).1.contains(&false) {
            rep.count("tables_refused", 1);
            return Ok(());
        }
        let srv = Server::start(|| build_app(&items, &names).0)?;
        rep.count("served_tables", 1);
        let pats = patterns(&model);
        let mut c = srv.connect();
        for _ in 0..25 {
            let path = gen_path(rng, &pats, false);
            let (ms, exp) = match rng.below(12) {
                0 => (*rng.pick(&["HEAD", "OPTIONS", "TRACE", "CONNECTX", "get", "GETS", "LINK"]), None),
                _ => {
                    let m = method_for(rng, &model, &path);
                    (METHODS[m], model.dispatch(m, &path))
                }
            };
            let target = if rng.chance(1, 4) { format!("{path}?{}", rng.pick(&["", "a=b", "/x/y", "?", "a=/../*"])) } else { path.clone() };
            let rid = next_rid();
            let r = {
                c.send(&req(ms, &target, &[("x-rid", &rid.to_string())], b"")).ok();
                c.read_response(ms == "HEAD")
            };
            let ctx = || json!({"request": format!("{ms} {target}"), "table": items_json(&items)});
            let r = match r {
                Ok(r) => r,
                Err(e) => return lost("routing a request", e, ctx()),
            };
            let trace = take_trace(rid);
            observe(rep, &model, &path, &exp, aspect);
            if let Err((what, d)) = judge(aspect, &exp, !trace.is_empty(), &trace, &names) {
                return viol(what, json!({"why": d, "on_wire": ctx(), "status": r.status}));
            }
            if aspect == Aspect::Handler {
                let (st, body) = match &exp {
                    Some(h) => (200, format!("h{}", h.handler)),
                    None => (404, if ms == "HEAD" { "".into() } else { "404 Not Found".into() }),
                };
                if r.status != st || r.text() != body {
                    return viol(
                        "the client got the wrong answer",
                        json!({"status": r.status, "body": show(&r.body), "expected": format!("{st} {body}"), "on_wire": ctx()}),
                    );
                }
            }
            if r.will_close() {
                c = srv.connect();
            }
        }
        rep.sample = Some(json!({"served": items_json(&items)}));
        Ok(())
    });
}

const RULE: &str = "random route tables (shared prefixes, splits and joins of segments, parameters, wildcards, middleware, mounts; literals of the library as segments; also tables of hundreds to a thousand routes: wide, dense, deep, long segments) and requests derived from them by mutation; an evaluation is one request dispatched by the real router or server and compared with the flat pattern model; non-trivial: it matched, or missed next to a pattern with a shared first character or with a handler for another method";

pub fn c01(cx: &Arc<Cx>) {
    cx.rule(RULE);
    cx.plan(3);
    inproc(cx, "inproc", cx.n(20000), Aspect::Handler);
    wire(cx, "wire", cx.n(700), Aspect::Handler);
    giant(cx, cx.n(160), Aspect::Handler);
    cx.need("giant_tables", 20);
    cx.need("matched", 1000);
    cx.need("matched_wildcard", 50);
    cx.need("unmatched_404", 500);
    cx.need("no_method_404", 50);
    cx.need("served_tables", 20);
}
pub fn c05(cx: &Arc<Cx>) {
    cx.rule(RULE);
    cx.plan(3);
    inproc(cx, "inproc", cx.n(20000), Aspect::Mws);
    wire(cx, "wire", cx.n(700), Aspect::Mws);
    giant(cx, cx.n(160), Aspect::Mws);
    cx.need("giant_tables", 20);
    cx.need("middleware_runs", 2000);
    cx.need("stacked_chains", 200);
    cx.need("served_tables", 20);
}

// ------------------------------------------------------------------ C02
fn perm(rng: &mut Rng, items: &[Item]) -> Vec<Item> {
    let mut idx: Vec<usize> = (0..items.len()).collect();
    match rng.below(4) {
        0 => idx.reverse(),
        1 => {
            let k = |i: &usize| match &items[*i] {
                Item::Route { path, .. } | Item::Mw { path, .. } => segs(path),
                _ => vec![],
            };
            idx.sort_by_key(k);
            if rng.chance(1, 2) {
                idx.reverse();
            }
        }
        _ => rng.shuffle(&mut idx),
    }
    // middleware of one path keeps its relative order
    let place = |i: &Item| match i {
        Item::Mw { path, .. } => Some(segs(path)),
        Item::MwRoot { .. } => Some(vec![]),
        _ => None,
    };
    let mut by: HashMap<Segs, Vec<usize>> = HashMap::new();
    for (n, i) in items.iter().enumerate() {
        if let Some(p) = place(i) {
            by.entry(p).or_default().push(n);
        }
    }
    let mut taken: HashMap<Segs, usize> = HashMap::new();
    idx.iter()
        .map(|&n| match place(&items[n]) {
            Some(p) => {
                let k = taken.entry(p.clone()).or_insert(0);
                *k += 1;
                items[by[&p][*k - 1]].clone()
            }
            None => items[n].clone(),
        })
        .collect()
}
/// Registers in order and stops at the first refusal, as a program would.
fn build_all(items: &[Item], names: &Names) -> Result<Router, (usize, String)> {
    let mut r = Router::new();
    for (n, i) in items.iter().enumerate() {
        apply(&mut r, i, names).map_err(|p| (n, p.msg))?;
    }
    Ok(r)
}
pub fn c02(cx: &Arc<Cx>) {
    cx.rule("random sets of flat routes and middleware (a third with a conflict in them) registered in several permutations that keep the relative order of one path's middleware; an evaluation is one permutation built and, when accepted, one request answered by all of them and compared; non-trivial: the permutation differs from the first order");
    cx.plan(1);
    cx.cases("permute", cx.n(30000), 8, |rng, _, rep| {
        let uni = rng.chance(1, 3);
        let mut o = opt(uni);
        o.mounts = false;
        let conflict = rng.chance(1, 3);
        o.bad = conflict && rng.chance(1, 3);
        let mut items = gen_items(rng, &o, &mut Ids(0), 0, &mut vec![]);
        items.truncate(if rng.chance(1, 8) { 40 } else { 12 });
        if !conflict {
            items = accepted(items);
        } else {
            items.retain(|i| match i {
                Item::Route { path, .. } | Item::Mw { path, .. } => {
                    let mut s: Vec<_> = segs(path).into_iter().filter(|s| s.starts_with(':')).collect();
                    let n = s.len();
                    s.sort();
                    s.dedup();
                    s.len() == n
                }
                _ => true,
            });
        }
        if items.len() < 2 {
            return Ok(());
        }
        let names = names_of(&items);
        let first = build_all(&items, &names);
        let mut others = vec![];
        for _ in 0..6 {
            let p = perm(rng, &items);
            let r = build_all(&p, &names);
            rep.eval(if p != items { Some(hash_of(&p)) } else { None });
            if r.is_ok() != first.is_ok() {
                return viol(
                    "the order of registration decides whether the routes are accepted",
                    json!({"order_a": items_json(&items), "a_refused": first.err().map(|e| e.1), "order_b": items_json(&p), "b_refused": r.err().map(|e| e.1)}),
                );
            }
            if p != items {
                rep.count(if r.is_ok() { "orders_accepted" } else { "orders_refused" }, 1);
            }
            if let Ok(r) = r {
                others.push((p, r));
            }
        }
        let Ok(first) = first else { return Ok(()) };
        let pats = patterns(&Model::of(&items).0);
        for k in 0..40 {
            let path = gen_path(rng, &pats, uni);
            let m = if rng.chance(2, 3) { method_for(rng, &Model::of(&items).0, &path) } else { k % 5 };
            let a = dispatch_router(&first, m, &path);
            if a.found {
                rep.count("answers_compared", others.len() as u64);
            } else {
                rep.count("misses_compared", others.len() as u64);
            }
            for (p, r) in &others {
                rep.eval(None);
                let b = dispatch_router(r, m, &path);
                if a != b {
                    return viol(
                        "the order of registration decides how a request is answered",
                        json!({"request": format!("{} {}", METHODS[m], path), "order_a": items_json(&items), "a": format!("{a:?}"), "order_b": items_json(p), "b": format!("{b:?}")}),
                    );
                }
            }
        }
        rep.sample = Some(json!({"set": items_json(&items)}));
        Ok(())
    });
    cx.need("orders_accepted", 500);
    cx.need("orders_refused", 100);
    cx.need("answers_compared", 2000);
}

// ------------------------------------------------------------------ C03
fn sequence(rep: &mut Rep, items: Vec<Item>, sample: bool) -> Result<(), Violation> {
    // mounted routers must build alike on both sides: drop what the model refuses inside them
    fn clean(items: &[Item]) -> Vec<Item> {
        items
            .iter()
            .map(|i| match i {
                Item::Mount { path, scope, items } => {
                    let items = clean(items);
                    let (mut m, mut keep) = (Model::new(), vec![]);
                    for x in items {
                        if m.apply(&x).is_ok() {
                            keep.push(x);
                        }
                    }
                    Item::Mount { path: path.clone(), scope: *scope, items: keep }
                }
                x => x.clone(),
            })
            .collect()
    }
    let mut items = clean(&items);
    fn repeated(i: &Item, pre: &Segs) -> bool {
        let rep = |p: &str| {
            let mut s: Vec<_> = [&pre[..], &segs(p)[..]].concat().into_iter().filter(|s| s.starts_with(':')).collect();
            let n = s.len();
            s.sort();
            s.dedup();
            s.len() != n
        };
        match i {
            Item::Route { path, .. } | Item::Mw { path, .. } => rep(path),
            Item::Mount { path, items, .. } => {
                let p = [&pre[..], &segs(path)[..]].concat();
                items.iter().any(|i| repeated(i, &p))
            }
            _ => false,
        }
    }
    items.retain(|i| !repeated(i, &vec![]));
    let names = names_of(&items);
    let mut model = Model::new();
    let mut router = Router::new();
    let mut done: Vec<Item> = vec![];
    for (n, it) in items.iter().enumerate() {
        let mut next = model.clone();
        let want = next.apply(it);
        let got = apply(&mut router, it, &names);
        let shares = match it {
            Item::Route { path, .. } | Item::Mw { path, .. } | Item::Mount { path, .. } => {
                let s = segs(path);
                !s.is_empty() && (0..=s.len()).any(|k| k > 0 && model.locs.contains_key(&s[..k])) || model.locs.keys().any(|k| k.len() == 1 && !s.is_empty() && k[0].chars().next() == s[0].chars().next())
            }
            _ => false,
        };
        rep.eval(if shares { Some(hash_of(&(n, it, model.locs.len()))) } else { None });
        match (&want, &got) {
            (Ok(()), Err(p)) => {
                return viol(
                    "a registration without a conflict was refused",
                    json!({"refused": items_json(&[it.clone()]), "message": p.msg, "at": p.loc, "accepted_before": items_json(&done)}),
                )
            }
            (Err(e), Ok(())) => {
                return viol(
                    "a conflicting registration was accepted",
                    json!({"conflict": e, "accepted": items_json(&[it.clone()]), "accepted_before": items_json(&done)}),
                )
            }
            (Ok(()), Ok(())) => {
                rep.count("accepted", 1);
                model = next;
                done.push(it.clone());
            }
            (Err(_), Err(_)) => rep.count("refused", 1),
        }
        if want.is_err() || n + 1 == items.len() {
            // everything accepted before still answers
            for (p, l) in &model.locs {
                for (m, id) in &l.routes {
                    let q: Vec<String> = p
                        .iter()
                        .map(|s| if s.starts_with(':') { "v1".to_string() } else if s == "*" { "w/x".into() } else { s.clone() })
                        .collect();
                    let path = format!("/{}", q.join("/"));
                    // a wildcard's continuation may be shadowed by design; ask the model
                    let exp = model.dispatch(*m, &path);
                    let seen = dispatch_router(&router, *m, &path);
                    rep.eval(None);
                    rep.count("routes_rechecked", 1);
                    let want = exp.as_ref().map(|h| h.handler);
                    let got = handler_of(&seen.trace);
                    if want != got.first().copied() || got.len() > 1 {
                        return viol(
                            "an accepted route stopped working",
                            json!({"route": id, "request": format!("{} {}", METHODS[*m], path), "observed": format!("{seen:?}"), "expected": format!("{exp:?}"),
                                "registrations": items_json(&items[..=n]), "last_refused": want.is_none()}),
                        );
                    }
                }
            }
        }
    }
    if sample {
        rep.sample = Some(json!({"sequence": items_json(&items)}));
    }
    Ok(())
}
pub fn c03(cx: &Arc<Cx>) {
    cx.rule("random registration sequences with duplicates, parameters next to literals, misplaced '*', harmless shared prefixes and mounts; after each registration its acceptance is compared with the model, and at the end and after every refusal the routes accepted so far are requested; an evaluation is one registration or one such request; non-trivial: the registration shares a parent or a path with an earlier one");
    cx.plan(3);
    cx.cases("sequences", cx.n(40000), 8, |rng, i, rep| {
        let uni = rng.chance(1, 3);
        let mut o = opt(uni);
        o.bad = rng.chance(1, 2);
        o.mounts = rng.chance(1, 2);
        let mut items = gen_items(rng, &o, &mut Ids(0), 0, &mut vec![]);
        // duplicates and near duplicates
        for _ in 0..rng.below(4) {
            if items.is_empty() {
                break;
            }
            let at = rng.below(items.len() + 1);
            let mut it = rng.pick(&items).clone();
            if let Item::Route { m, path, id } = &mut it {
                *id += 1_000_000;
                if rng.chance(1, 4) {
                    *m = rng.below(5);
                }
                *path = spell(rng, &segs(path));
                if rng.chance(1, 3) {
                    // another name for one parameter, or a literal for it
                    let mut s = segs(path);
                    let n = s.len();
                    if n > 0 {
                        let k = rng.below(n);
                        s[k] = if rng.chance(1, 2) { format!(":zz{}", i % 7) } else { literal(rng, &o) };
                        *path = spell(rng, &s);
                    }
                }
            }
            items.insert(at, it);
        }
        sequence(rep, items, true)
    });
    // hundreds of routes, then conflicts with any of them
    cx.cases("giant", cx.n(48), 8, |rng, i, rep| {
        let mut items = gen_giant(rng, true, &mut Ids(0));
        let mut extra = vec![];
        for k in 0..rng.range(3, 10) {
            let mut it = rng.pick(&items).clone();
            if let Item::Route { m, path, id } = &mut it {
                *id += 1_000_000 + k as u32;
                let mut s = segs(path);
                match rng.below(4) {
                    0 => {}
                    1 => *m = rng.below(5),
                    _ => {
                        let n = s.len();
                        if n > 0 {
                            let k = rng.below(n);
                            s[k] = if rng.chance(1, 2) { format!(":zz{}", i % 7) } else { "unheard-of".into() };
                        }
                    }
                }
                *path = spell(rng, &s);
            }
            extra.push(it);
        }
        let n = items.len();
        for (k, it) in extra.into_iter().enumerate() {
            if k % 3 == 0 {
                items.insert(rng.range(n / 2, n), it);
            } else {
                items.push(it);
            }
        }
        rep.count("giant_sequences", 1);
        sequence(rep, items, false)
    });
    // the same through an application that serves afterwards
    cx.cases("served", cx.n(500), 8, |rng, _, rep| {
        let mut o = opt(false);
        o.mounts = false;
        o.bad = true;
        let items = gen_items(rng, &o, &mut Ids(0), 0, &mut vec![]);
        let names = names_of(&items);
        let (model, want) = Model::of(&items);
        let got = build_app(&items, &names).1;
        if want != got {
            let n = want.iter().zip(&got).position(|(a, b)| a != b).unwrap();
            return viol(
                if want[n] { "a registration without a conflict was refused" } else { "a conflicting registration was accepted" },
                json!({"registration": items_json(&items[n..=n]), "sequence": items_json(&items)}),
            );
        }
        let srv = Server::start(|| build_app(&items, &names).0)?;
        let mut c = srv.connect();
        for (p, l) in model.locs.iter().take(30) {
            for (m, _) in &l.routes {
                let q: Vec<String> = p
                    .iter()
                    .map(|s| if s.starts_with(':') { "v1".to_string() } else if s == "*" { "w/x".into() } else { s.clone() })
                    .collect();
                let path = format!("/{}", q.join("/"));
                let Some(exp) = model.dispatch(*m, &path) else { continue };
                rep.eval(Some(hash_of(&path)));
                rep.count("served_requests", 1);
                match c.roundtrip(&req(METHODS[*m], &path, &[], b"")) {
                    Ok(r) if r.status == 200 && r.text() == format!("h{}", exp.handler) => {}
                    x => {
                        return viol(
                            "an accepted route stopped working",
                            json!({"request": format!("{} {}", METHODS[*m], path), "client_got": format!("{x:?}"), "registrations": items_json(&items)}),
                        )
                    }
                }
            }
        }
        Ok(())
    });
    cx.need("accepted", 5000);
    cx.need("refused", 500);
    cx.need("giant_sequences", 40);
    cx.need("routes_rechecked", 5000);
    cx.need("served_requests", 50);
}

// ------------------------------------------------------------------ C04
/// Every typed reading of one parameter, as text; the reference reads the raw text instead.
fn readings(get: &dyn Fn(&str) -> Option<String>) -> Vec<(&'static str, Option<String>)> {
    TYPES.iter().map(|t| (*t, get(t))).collect()
}
const TYPES: [&str; 17] = [
    "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128", "usize", "f32", "f64", "bool", "char", "String", "IpAddr",
];
fn std_parse(t: &str, raw: &str) -> Option<String> {
    fn p<T: FromStr + Debug>(r: &str) -> Option<String> {
        r.parse::<T>().ok().map(|v| format!("{v:?}"))
    }
    match t {
        "i8" => p::<i8>(raw),
        "u8" => p::<u8>(raw),
        "i16" => p::<i16>(raw),
        "u16" => p::<u16>(raw),
        "i32" => p::<i32>(raw),
        "u32" => p::<u32>(raw),
        "i64" => p::<i64>(raw),
        "u64" => p::<u64>(raw),
        "i128" => p::<i128>(raw),
        "u128" => p::<u128>(raw),
        "usize" => p::<usize>(raw),
        "f32" => p::<f32>(raw),
        "f64" => p::<f64>(raw),
        "bool" => p::<bool>(raw),
        "char" => p::<char>(raw),
        "IpAddr" => p::<std::net::IpAddr>(raw),
        _ => p::<String>(raw),
    }
}
fn ctx_read(ctx: &Context, name: &str, t: &str) -> Option<String> {
    fn p<T: FromStr + Debug>(c: &Context, n: &str) -> Option<String> {
        c.param::<T>(n).ok().map(|v| format!("{v:?}"))
    }
    match t {
        "i8" => p::<i8>(ctx, name),
        "u8" => p::<u8>(ctx, name),
        "i16" => p::<i16>(ctx, name),
        "u16" => p::<u16>(ctx, name),
        "i32" => p::<i32>(ctx, name),
        "u32" => p::<u32>(ctx, name),
        "i64" => p::<i64>(ctx, name),
        "u64" => p::<u64>(ctx, name),
        "i128" => p::<i128>(ctx, name),
        "u128" => p::<u128>(ctx, name),
        "usize" => p::<usize>(ctx, name),
        "f32" => p::<f32>(ctx, name),
        "f64" => p::<f64>(ctx, name),
        "bool" => p::<bool>(ctx, name),
        "char" => p::<char>(ctx, name),
        "IpAddr" => p::<std::net::IpAddr>(ctx, name),
        _ => p::<String>(ctx, name),
    }
}
fn typed_text(rng: &mut Rng, wire: bool) -> String {
    let num = |rng: &mut Rng| -> String {
        match rng.below(10) {
            0 => format!("{}", rng.next() as i64),
            1 => format!("{}", rng.next()),
            2 => format!("{}", rng.next() as i8),
            3 => {
                let b = 1u128 << *rng.pick(&[7, 8, 15, 16, 31, 32, 63, 64, 127]);
                let v = b.wrapping_add(rng.below(3) as u128).wrapping_sub(1);
                if rng.chance(1, 2) {
                    format!("-{v}")
                } else {
                    v.to_string()
                }
            }
            4 => format!("{}", f64::from_bits(rng.next())),
            5 => format!("{:e}", f32::from_bits(rng.next() as u32)),
            6 => format!("{}", (rng.next() as i32) as f64 / 128.0),
            7 => format!("+{}", rng.below(300)),
            8 => format!("{:0>w$}", rng.below(300), w = rng.range(1, 40)),
            _ => rng.below(1000).to_string(),
        }
    };
    match rng.below(12) {
        0..=4 => num(rng),
        5 => {
            let mut s = num(rng);
            let k = rng.below(s.len() + 1);
            s.insert(k, *rng.pick(&['.', '-', '_', 'e', '0', 'x', ',', '+', '%']));
            s
        }
        6 => rng.pick(&["true", "false", "True", "TRUE", "1", "0", "yes", "t", "truee", "nan", "NaN", "inf", "-inf", "infinity", ".5", "5.", "1e400", "-0", "--1", "0x1f", "%20", "%31", "1%20", "a", "ab", ":id", "*"]).to_string(),
        7 => rng.pick(&["127.0.0.1", "::1", "1.2.3", "256.0.0.1", "fe80::1", "01.2.3.4"]).to_string(),
        8 if !wire => rng.pick(&["é", "🦀", "éa", "１", "٣", " 1", "1 ", "\t1", "1\n", "\u{feff}1", "a b"]).to_string(),
        9 => {
            let n = rng.size(3000).max(1);
            (0..n).map(|_| *rng.pick(&['0', '1', '9', 'a', '%', '.'])).collect()
        }
        10 => {
            let d = &dict().strs;
            let s = rng.pick(d).clone();
            if is_uri_seg(&s) {
                s
            } else {
                "-1".into()
            }
        }
        _ => rng.pick(&["a%2Fb", "%E3%83%8E", "a+b", "A;b=c", "a,b", "(a)", "'q'", "~", "-", "_", ".", "..", "...", "@", "a@b.c", "$1", "!", "=", "&"]).to_string(),
    }
}
pub fn c04(cx: &Arc<Cx>) {
    cx.rule("(a) random route tables as for C01, comparing the complete parameter map and every name read through the context; (b) patterns of 1-24 parameters with values on and around the limits of 17 parsable types, every type of every name read in-process and in a served handler and compared with std's own parsing of the raw segment; an evaluation is one request; non-trivial: at least one parameter");
    cx.plan(4);
    inproc(cx, "tables", cx.n(15000), Aspect::Params);
    wire(cx, "tables_served", cx.n(500), Aspect::Params);
    let mk = |rng: &mut Rng| -> (Segs, Vec<String>) {
        let k = if rng.chance(1, 6) { rng.range(1, 24) } else { rng.range(1, 5) };
        let mut p = vec![];
        let mut names = vec![];
        for i in 0..k {
            if rng.chance(1, 3) {
                p.push(literal(rng, &opt(false)));
            }
            let n = match rng.below(6) {
                0 => format!("{}{}", rng.pick(&["id", "a-b", "x.y", "Name", "_"]), i),
                1 if i == 0 => rng.pick(&["", ":", "id:", "name", "🦀"]).to_string(),
                2 if rng.chance(1, 4) => {
                    let l = rng.size(200).max(1);
                    format!("{}{}", "n".repeat(l), i)
                }
                _ => format!("p{i}"),
            };
            p.push(format!(":{n}"));
            names.push(n);
        }
        (p, names)
    };
    let compare = |text: &BTreeMap<String, String>, got: &dyn Fn(&str, &str) -> Option<String>, detail: Value| -> Result<u64, Violation> {
        let mut n = 0;
        for (name, raw) in text {
            for (t, v) in readings(&|t| got(name, t)) {
                n += 1;
                let want = std_parse(t, raw);
                if v != want {
                    return viol(
                        "a typed parameter reading is wrong",
                        json!({"name": name, "type": t, "raw": raw, "observed": v, "expected": want, "case": detail}),
                    );
                }
            }
        }
        for t in TYPES {
            if let Some(v) = got("not-declared", t) {
                return viol("an undeclared parameter has a value", json!({"type": t, "observed": v, "case": detail}));
            }
        }
        Ok(n)
    };
    cx.cases("typed", cx.n(20000), 8, |rng, _, rep| {
        let (p, names) = mk(rng);
        let mut r = Router::new();
        r.get(&spell(rng, &p), |c: Context| async move { c.build("x").ok() });
        let mut text = BTreeMap::new();
        let mut q: Segs = vec![];
        let mut ns = names.iter();
        for s in &p {
            if s.starts_with(':') {
                let v = typed_text(rng, false);
                text.insert(ns.next().unwrap().clone(), v.clone());
                q.push(v);
            } else {
                q.push(s.clone());
            }
        }
        let path = spell(rng, &q);
        rep.eval(Some(hash_of(&path)));
        let d = json!({"pattern": p.join("/"), "request": path});
        let Some(v) = r.search_route(&path) else {
            return viol("a matching route was not found", d);
        };
        let ctx = Context::new(obsidian::Request::new(obsidian::Body::empty()), v.get_params());
        let n = compare(&text, &|n, t| ctx_read(&ctx, n, t), d.clone())?;
        rep.count("typed_readings", n);
        rep.sample = Some(d);
        Ok(())
    });
    cx.cases("typed_served", cx.n(600), 8, |rng, _, rep| {
        let (p, names) = mk(rng);
        let ns = Arc::new(names.clone());
        let pat = spell(rng, &p);
        let srv = Server::start(|| {
            let ns = ns.clone();
            let mut a: App = App::new();
            a.get(&pat, move |c: Context| {
                let ns = ns.clone();
                async move { report(c, ns) }
            });
            a
        })?;
        let mut c = srv.connect();
        for _ in 0..10 {
            let mut text = BTreeMap::new();
            let mut q: Segs = vec![];
            let mut ns = names.iter();
            for s in &p {
                if s.starts_with(':') {
                    let v = typed_text(rng, true);
                    text.insert(ns.next().unwrap().clone(), v.clone());
                    q.push(v);
                } else {
                    q.push(s.clone());
                }
            }
            let path = format!("/{}", q.join("/"));
            rep.eval(Some(hash_of(&path)));
            let d = json!({"pattern": p.join("/"), "request": path});
            let got: HashMap<String, HashMap<String, Option<String>>> = match c.roundtrip(&req("GET", &path, &[], b"")) {
                Ok(r) if r.status == 200 => serde_json::from_slice(&r.body).expect("own report"),
                Ok(r) => return viol("a matching route was not found", json!({"status": r.status, "case": d})),
                Err(e) => return lost("typed parameters", e, d),
            };
            let n = compare(&text, &|n, t| got.get(n).and_then(|m| m.get(t)).cloned().flatten(), d)?;
            rep.count("typed_readings_served", n);
        }
        Ok(())
    });
    cx.need("params_checked", 2000);
    cx.need("typed_readings", 50_000);
    cx.need("typed_readings_served", 10_000);
}
fn report(c: Context, ns: Arc<Vec<String>>) -> ContextResult {
    let m: HashMap<String, HashMap<&str, Option<String>>> = ns
        .iter()
        .map(|s| s.as_str())
        .chain(["not-declared"])
        .map(|n| (n.to_string(), TYPES.iter().map(|t| (*t, ctx_read(&c, n, t))).collect()))
        .collect();
    c.build(serde_json::to_string(&m).unwrap()).ok()
}

// ------------------------------------------------------------------ C07
/// The same registrations written out without any mount.
fn flatten(items: &[Item], pre: &Segs, out: &mut Vec<Item>) {
    let at = |p: &str| format!("/{}", [&pre[..], &segs(p)[..]].concat().join("/"));
    for i in items {
        match i {
            Item::Route { m, path, id } => out.push(Item::Route { m: *m, path: at(path), id: *id }),
            Item::Mw { path, id } => out.push(Item::Mw { path: at(path), id: *id }),
            Item::MwRoot { id } if pre.is_empty() => out.push(Item::MwRoot { id: *id }),
            Item::MwRoot { id } => out.push(Item::Mw { path: at(""), id: *id }),
            Item::Mount { path, items, .. } => flatten(items, &[&pre[..], &segs(path)[..]].concat(), out),
        }
    }
}
fn has_mount(items: &[Item]) -> bool {
    items.iter().any(|i| matches!(i, Item::Mount { items, .. } if !items.is_empty()))
}
pub fn c07(cx: &Arc<Cx>) {
    cx.rule("random applications with nested mounts and scopes; (a) acceptance of every mount against the model, (b) every request answered by the mounted and by the flat (prefix written out) router and compared, (c) requests outside the prefix with and without the mount compared, (d) the same on the wire through App::use_router and App::scope; an evaluation is one mount decision or one compared request; non-trivial: the table holds a non-empty mount");
    cx.plan(3);
    cx.cases("inproc", cx.n(15000), 8, |rng, _, rep| {
        let uni = rng.chance(1, 3);
        let o = opt(uni);
        let raw = gen_items(rng, &o, &mut Ids(0), 0, &mut vec![]);
        // (a)
        let items = accepted(raw);
        if !has_mount(&items) {
            return Ok(());
        }
        let names = names_of(&items);
        let (router, ok) = build_router(&items, &names);
        for (n, i) in items.iter().enumerate() {
            if let Item::Mount { .. } = i {
                rep.count("mounts_decided", 1);
                if !ok[n] {
                    return viol("a mount without a conflict was refused", json!({"mount": items_json(&items[n..=n]), "table": items_json(&items)}));
                }
            }
        }
        if ok.contains(&false) {
            rep.count("tables_refused", 1);
            return Ok(());
        }
        // (b)
        let mut flat = vec![];
        flatten(&items, &vec![], &mut flat);
        let (fr, fok) = build_router(&flat, &names);
        if fok.contains(&false) {
            rep.count("tables_refused", 1);
            return Ok(());
        }
        let (model, _) = Model::of(&items);
        let pats = patterns(&model);
        for _ in 0..40 {
            let path = gen_path(rng, &pats, uni);
            let m = method_for(rng, &model, &path);
            let a = dispatch_router(&router, m, &path);
            let b = dispatch_router(&fr, m, &path);
            let exp = model.dispatch(m, &path);
            rep.eval(if a.found { Some(hash_of(&(&path, a.trace.len(), items.len()))) } else { None });
            rep.count(if a.found { "answers_compared" } else { "misses_compared" }, 1);
            if a != b {
                return viol(
                    "a mounted router answers differently from the same routes registered directly",
                    json!({"request": format!("{} {}", METHODS[m], path), "mounted": format!("{a:?}"), "direct": format!("{b:?}"), "table": items_json(&items)}),
                );
            }
            if let Err((what, d)) = judge(Aspect::All, &exp, a.found, &a.trace, &names) {
                return viol(format!("mounted: {what}"), json!({"request": path, "why": d, "table": items_json(&items)}));
            }
        }
        // (c)
        let k = items.iter().position(|i| matches!(i, Item::Mount{path, ..} if !segs(path).is_empty()));
        if let Some(k) = k {
            let mut without = items.clone();
            let Item::Mount { path: mp, .. } = without.remove(k) else { unreachable!() };
            let mp = segs(&mp);
            let (wr, wok) = build_router(&without, &names);
            if !wok.contains(&false) {
                let below = |path: &str| {
                    let q = segs(path);
                    q.len() >= mp.len() && mp.iter().zip(&q).all(|(a, b)| a.starts_with(':') || a == b)
                };
                for _ in 0..20 {
                    let path = gen_path(rng, &pats, uni);
                    if below(&path) {
                        continue;
                    }
                    let m = method_for(rng, &model, &path);
                    rep.eval(None);
                    rep.count("outside_compared", 1);
                    let (a, b) = (dispatch_router(&router, m, &path), dispatch_router(&wr, m, &path));
                    if a != b {
                        return viol(
                            "mounting changed a request outside of the prefix",
                            json!({"request": format!("{} {}", METHODS[m], path), "with": format!("{a:?}"), "without": format!("{b:?}"), "prefix": mp.join("/"), "table": items_json(&items)}),
                        );
                    }
                }
            }
        }
        rep.sample = Some(json!({"table": items_json(&items)}));
        Ok(())
    });
    // mounts that must be refused, next to those that must not
    cx.cases("conflicts", cx.n(15000), 8, |rng, _, rep| {
        let o = opt(rng.chance(1, 3));
        let mut base_o = opt(false);
        base_o.mounts = rng.chance(1, 4);
        let base = accepted(gen_items(rng, &base_o, &mut Ids(0), 0, &mut vec![]));
        let names = names_of(&base);
        let (mut model, _) = Model::of(&base);
        let (mut router, ok) = build_router(&base, &names);
        if ok.contains(&false) {
            return Ok(());
        }
        for _ in 0..3 {
            let pats = patterns(&model);
            let mut p: Segs = rng.pick(&pats).clone();
            match rng.below(6) {
                0 => {
                    let k = rng.below(p.len() + 1);
                    p.truncate(k);
                }
                1 => p.push(literal(rng, &o)),
                2 => {
                    if let Some(s) = p.last_mut() {
                        let n = s.chars().count();
                        *s = s.chars().take(rng.range(1, n)).collect();
                    }
                }
                3 => {
                    if let Some(s) = p.last_mut() {
                        s.push_str(&literal(rng, &o));
                    }
                }
                _ => {}
            }
            p.retain(|s| !s.contains('*') && s != ":");
            let sub = accepted(gen_items(rng, &base_o, &mut Ids(10_000), 3, &mut vec![]));
            let it = Item::Mount { path: spell(rng, &p), scope: false, items: sub };
            let mut next = model.clone();
            let want = next.apply(&it);
            let got = apply(&mut router, &it, &names);
            rep.eval(Some(hash_of(&(&p, pats.len(), want.is_ok()))));
            rep.count(if want.is_ok() { "mounts_accepted" } else { "mounts_refused" }, 1);
            if want.is_ok() != got.is_ok() {
                return viol(
                    if want.is_ok() { "a mount without a conflict was refused" } else { "a mount onto an occupied path was accepted" },
                    json!({"mount": items_json(&[it]), "table": items_json(&base), "model": format!("{want:?}"), "library": format!("{:?}", got.err())}),
                );
            }
            if want.is_ok() {
                model = next;
            }
            // whatever happened, everything answers as the model says
            for _ in 0..12 {
                let path = gen_path(rng, &patterns(&model), false);
                let m = method_for(rng, &model, &path);
                let exp = model.dispatch(m, &path);
                let seen = dispatch_router(&router, m, &path);
                rep.eval(None);
                if let Err((what, d)) = judge(Aspect::Handler, &exp, seen.found, &seen.trace, &names) {
                    return viol(format!("after a mount: {what}"), json!({"request": path, "why": d, "mount": items_json(&[it]), "table": items_json(&base)}));
                }
                if let Err((what, d)) = judge(Aspect::Mws, &exp, seen.found, &seen.trace, &names) {
                    return viol(format!("after a mount: {what}"), json!({"request": path, "why": d, "mount": items_json(&[it]), "table": items_json(&base)}));
                }
            }
        }
        Ok(())
    });
    cx.cases("wire", cx.n(500), 8, |rng, _, rep| {
        let items = accepted(gen_items(rng, &opt(false), &mut Ids(0), 0, &mut vec![]));
        if !has_mount(&items) {
            return Ok(());
        }
        let names = names_of(&items);
        let (model, _) = Model::of(&items);
        if build_app(&items, &names).1.contains(&false) {
            return Ok(());
        }
        let srv = Server::start(|| build_app(&items, &names).0)?;
        rep.count("served_tables", 1);
        let mut c = srv.connect();
        let pats = patterns(&model);
        for _ in 0..25 {
            let path = gen_path(rng, &pats, false);
            let m = method_for(rng, &model, &path);
            let exp = model.dispatch(m, &path);
            let rid = next_rid();
            let r = c.roundtrip(&req(METHODS[m], &path, &[("x-rid", &rid.to_string())], b""));
            let ctx = || json!({"request": format!("{} {path}", METHODS[m]), "table": items_json(&items)});
            let r = match r {
                Ok(r) => r,
                Err(e) => return lost("mounted routers", e, ctx()),
            };
            let trace = take_trace(rid);
            rep.eval(if exp.is_some() { Some(hash_of(&(&path, pats.len()))) } else { None });
            if let Err((what, d)) = judge(Aspect::All, &exp, r.status != 404, &trace, &names) {
                return viol(format!("mounted: {what}"), json!({"why": d, "on_wire": ctx(), "status": r.status}));
            }
        }
        Ok(())
    });
    cx.need("mounts_decided", 300);
    cx.need("answers_compared", 2000);
    cx.need("outside_compared", 1000);
    cx.need("mounts_accepted", 300);
    cx.need("mounts_refused", 300);
    cx.need("served_tables", 10);
}
