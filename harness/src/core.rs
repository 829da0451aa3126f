//! Run control: random numbers, parallel case execution, panic monitor, verdicts and evidence.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- random numbers
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
    /// A size with a heavy tail; sizes next to integer constants of the library are drawn too.
    pub fn size(&mut self, max: usize) -> usize {
        let n = match self.below(12) {
            0 => 0,
            1 | 2 => 1,
            3 | 4 => self.range(0, 4),
            5 | 6 => self.range(0, 20),
            7 => self.range(0, 100),
            8 => self.range(0, 1000),
            9 => {
                let k = self.below(24);
                let b = 1usize << k;
                match self.below(3) {
                    0 => b.saturating_sub(1),
                    1 => b,
                    _ => b + 1,
                }
            }
            10 => {
                let ints = &dict().ints;
                if ints.is_empty() {
                    self.range(0, 10)
                } else {
                    let v = *self.pick(ints) as usize;
                    match self.below(3) {
                        0 => v.saturating_sub(1),
                        1 => v,
                        _ => v + 1,
                    }
                }
            }
            _ => self.range(0, max),
        };
        if n > max {
            if max < 64 {
                self.range(0, max)
            } else {
                n % (max + 1)
            }
        } else {
            n
        }
    }
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- dictionary of the library's literals
pub struct Dict {
    pub ints: Vec<u64>,
    pub strs: Vec<String>,
    /// Header names the library mentions in one way or another.
    pub names: Vec<String>,
}
pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut ints = HashSet::new();
        let mut strs = HashSet::new();
        let mut consts: HashSet<String> = HashSet::new();
        let mut stack = vec![std::path::PathBuf::from(repo()).join("src")];
        while let Some(p) = stack.pop() {
            let Ok(rd) = std::fs::read_dir(&p) else { continue };
            for e in rd.flatten() {
                let path = e.path();
                if path.is_dir() {
                    stack.push(path);
                } else if path.extension().map_or(false, |x| x == "rs") {
                    let text = std::fs::read_to_string(&path).unwrap_or_default();
                    let code = match text.find("#[cfg(test)]\nmod") {
                        Some(i) => &text[..i],
                        None => &text[..],
                    };
                    for line in code.lines() {
                        let t = line.trim_start();
                        if t.starts_with("//") {
                            continue;
                        }
                        scan_line(t, &mut ints, &mut strs);
                        for r in t.split("header::").skip(1) {
                            let n: String = r.chars().take_while(|c| c.is_ascii_uppercase() || *c == '_').collect();
                            consts.insert(n.to_ascii_lowercase().replace('_', "-"));
                        }
                    }
                }
            }
        }
        let mut ints: Vec<u64> = ints.into_iter().filter(|&x| x > 1 && x < 1 << 21).collect();
        ints.sort();
        let mut strs: Vec<String> = strs.into_iter().filter(|s| !s.is_empty() && s.len() < 40 && !s.contains('{')).collect();
        strs.sort();
        let mut names: Vec<String> = consts.into_iter().chain(strs.iter().map(|s| s.to_ascii_lowercase())).collect();
        // those that frame the message or end the connection are left alone
        const OTHERS: &[&str] = &["content-length", "transfer-encoding", "connection", "host", "keep-alive", "upgrade", "te", "trailer", "expect", "http2-settings", "cookie", "content-encoding"];
        names.retain(|s| s.len() > 1 && s.starts_with(|c: char| c.is_ascii_lowercase()) && !s.ends_with('-') && !s.contains("--") && s.bytes().all(|b| b.is_ascii_lowercase() || b == b'-') && !OTHERS.contains(&&s[..]) && !s.starts_with("x-t"));
        names.sort();
        names.dedup();
        Dict { ints, strs, names }
    })
}
fn scan_line(line: &str, ints: &mut HashSet<u64>, strs: &mut HashSet<String>) {
    let b: Vec<char> = line.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == '"' {
            let mut s = String::new();
            i += 1;
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' && i + 1 < b.len() {
                    i += 1;
                }
                s.push(b[i]);
                i += 1;
            }
            strs.insert(s);
        } else if c == '\'' && i + 2 < b.len() && b[i + 2] == '\'' {
            strs.insert(b[i + 1].to_string());
            i += 2;
        } else if c.is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
            let mut s = String::new();
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                s.push(b[i]);
                i += 1;
            }
            let s = s.replace('_', "");
            let s = s.trim_end_matches("usize").trim_end_matches("u64").trim_end_matches("u32").trim_end_matches("u8").to_string();
            let v = if let Some(h) = s.strip_prefix("0x") { u64::from_str_radix(h, 16).ok() } else { s.parse().ok() };
            if let Some(v) = v {
                ints.insert(v);
            }
            // `64 * 1024`
            let rest: String = b[i..].iter().collect();
            let rest = rest.trim_start();
            if let (Some(v), Some(r)) = (v, rest.strip_prefix('*')) {
                let d: String = r.trim_start().chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(w) = d.parse::<u64>() {
                    ints.insert(v.saturating_mul(w));
                }
            }
            continue;
        }
        i += 1;
    }
}
pub fn repo() -> String {
    std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into())
}

// ---------------------------------------------------------------- panic monitor
/// Payload prefix of panics the harness raises on purpose inside handlers.
pub const DELIBERATE: &str = "HARNESS-DELIBERATE";
#[derive(Clone, Debug)]
pub struct PanicRec {
    pub msg: String,
    pub loc: String,
    pub thread: String,
    pub origin: Origin,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Origin {
    Deliberate,
    Framework,
    Harness,
}
static PANICS: Mutex<Vec<PanicRec>> = Mutex::new(Vec::new());
static PANIC_COUNT: [AtomicUsize; 3] = [AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0)];
thread_local! { static LAST_PANIC: RefCell<Option<PanicRec>> = RefCell::new(None); static EXPECT: RefCell<bool> = RefCell::new(false); }

/// Runs something that may legitimately be refused by a panic (registrations).
pub fn refusable<R>(f: impl FnOnce() -> R) -> Result<R, PanicRec> {
    EXPECT.with(|e| *e.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(f));
    EXPECT.with(|e| *e.borrow_mut() = false);
    r.map_err(|_| LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or(PanicRec {
        msg: "?".into(),
        loc: "?".into(),
        thread: "?".into(),
        origin: Origin::Framework,
    }))
}
pub fn framework_panics() -> Vec<PanicRec> {
    PANICS.lock().unwrap().iter().filter(|p| p.origin == Origin::Framework).cloned().collect()
}
pub fn deliberate_panics() -> usize {
    PANIC_COUNT[0].load(Ordering::SeqCst)
}
pub fn take_last_panic() -> Option<PanicRec> {
    LAST_PANIC.with(|l| l.borrow_mut().take())
}
fn classify(msg: &str, file: &str) -> Origin {
    if msg.contains(DELIBERATE) {
        return Origin::Deliberate;
    }
    let src = format!("{}/src/", repo());
    if file.starts_with(&src) {
        return Origin::Framework;
    }
    if file.starts_with("src/") || file.contains("/verif/harness/") {
        return Origin::Harness;
    }
    // Somewhere in a dependency: attribute to the innermost frame that is ours.
    let bt = std::backtrace::Backtrace::force_capture().to_string();
    for l in bt.lines() {
        let l = l.trim_start();
        let l = l.split_once(": ").map_or("", |x| x.1);
        if l.contains("verif_harness::core::install_panic_monitor") || l.contains("verif_harness::core::classify") {
            continue;
        }
        if l.starts_with("obsidian::") || l.starts_with("<obsidian::") || l.contains(" obsidian::") {
            return Origin::Framework;
        }
        if l.starts_with("verif_harness::") || l.starts_with("<verif_harness::") {
            return Origin::Harness;
        }
    }
    Origin::Framework
}
pub fn install_panic_monitor() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "non-string panic".into());
        let (loc, file) = info
            .location()
            .map(|l| (format!("{}:{}", l.file(), l.line()), l.file().to_string()))
            .unwrap_or_default();
        let origin = classify(&msg, &file);
        let rec = PanicRec {
            msg,
            loc,
            thread: std::thread::current().name().unwrap_or("").to_string(),
            origin,
        };
        LAST_PANIC.with(|l| *l.borrow_mut() = Some(rec.clone()));
        if EXPECT.with(|e| *e.borrow()) {
            return;
        }
        PANIC_COUNT[origin as usize].fetch_add(1, Ordering::SeqCst);
        if origin == Origin::Deliberate {
            return;
        }
        let mut g = PANICS.lock().unwrap_or_else(|e| e.into_inner());
        if g.len() < 1000 {
            g.push(rec);
        }
    }));
}

// ---------------------------------------------------------------- verdicts
#[derive(Debug, Clone)]
pub struct Violation {
    pub what: String,
    pub detail: Value,
}
pub fn viol<T>(what: impl Into<String>, detail: Value) -> Result<T, Violation> {
    Err(Violation {
        what: what.into(),
        detail,
    })
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    counters: BTreeMap<String, u64>,
    cases: BTreeMap<String, u64>,
}

pub struct Cx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<(String, u64)>,
    start: Instant,
    budget: Duration,
    stats: Mutex<Stats>,
    violations: Mutex<Vec<(String, u64, Violation)>>,
    harness_errors: Mutex<Vec<String>>,
    stop: AtomicBool,
    pub rule: Mutex<String>,
    pub assumptions: Mutex<Vec<String>>,
    pub extra: Mutex<BTreeMap<String, Value>>,
    min: Mutex<Vec<(String, u64)>>,
    phases_left: AtomicUsize,
    phase_end: Mutex<Instant>,
    first_violation: Mutex<Option<Instant>>,
    finished: AtomicBool,
    pub running: Mutex<HashMap<u64, (Instant, String, u64)>>,
}

/// Observations of one case, merged into the run at its end.
#[derive(Default)]
pub struct Rep {
    pub evals: u64,
    pub distinct: Vec<u64>,
    pub sample: Option<Value>,
    pub counters: BTreeMap<&'static str, u64>,
}
impl Rep {
    pub fn eval(&mut self, nontrivial_key: Option<u64>) {
        self.evals += 1;
        if let Some(k) = nontrivial_key {
            self.distinct.push(k);
        }
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
}

impl Cx {
    pub fn new(prop: &str, seed: u64, thorough: bool, only: Option<(String, u64)>) -> Arc<Self> {
        Arc::new(Cx {
            prop: prop.into(),
            seed,
            thorough,
            only,
            start: Instant::now(),
            budget: Duration::from_secs(
                std::env::var("VERIF_BUDGET").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 600 } else { 120 }),
            ),
            stats: Default::default(),
            violations: Default::default(),
            harness_errors: Default::default(),
            stop: AtomicBool::new(false),
            rule: Default::default(),
            assumptions: Default::default(),
            extra: Default::default(),
            min: Default::default(),
            phases_left: AtomicUsize::new(1),
            phase_end: Mutex::new(Instant::now()),
            first_violation: Default::default(),
            finished: Default::default(),
            running: Default::default(),
        })
    }
    /// Quick count scaled for the tier.
    pub fn n(&self, quick: u64) -> u64 {
        if let Some(s) = std::env::var("VERIF_SCALE").ok().and_then(|x| x.parse::<f64>().ok()) {
            return ((quick as f64) * s).max(1.0) as u64;
        }
        if self.thorough {
            quick * 25
        } else {
            quick
        }
    }
    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.into();
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    /// The run is inconclusive when a counter stays below this.
    pub fn need(&self, counter: &str, at_least: u64) {
        self.min.lock().unwrap().push((counter.into(), at_least));
    }
    pub fn budget(&self) -> Duration {
        self.budget
    }
    pub fn out_of_time(&self) -> bool {
        self.start.elapsed() > self.budget
    }
    /// Announces how many `cases` phases follow; they share the time budget.
    pub fn plan(&self, phases: usize) {
        self.phases_left.store(phases, Ordering::Relaxed);
    }
    pub fn phase_over(&self) -> bool {
        self.out_of_time() || Instant::now() > *self.phase_end.lock().unwrap()
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }
    pub fn note_harness_error(&self, s: String) {
        self.harness_errors.lock().unwrap().push(s);
        self.stop.store(true, Ordering::Relaxed);
    }
    pub fn merge(&self, phase: &str, rep: Rep) {
        let mut st = self.stats.lock().unwrap();
        st.evaluations += rep.evals;
        for d in rep.distinct {
            if st.distinct.len() < 3_000_000 {
                st.distinct.insert(d);
            }
        }
        for (k, v) in rep.counters {
            *st.counters.entry(k.to_string()).or_insert(0) += v;
        }
        *st.cases.entry(phase.to_string()).or_insert(0) += 1;
        if let Some(s) = rep.sample {
            let same = st.samples.iter().filter(|x| x["phase"] == phase).count();
            if same < 2 && st.samples.len() < 12 {
                st.samples.push(json!({"phase": phase, "case": s}));
            }
        }
    }
    pub fn counter(&self, k: &str) -> u64 {
        self.stats.lock().unwrap().counters.get(k).copied().unwrap_or(0)
    }
    pub fn violation(&self, phase: &str, case: u64, v: Violation) {
        let mut g = self.violations.lock().unwrap();
        if g.len() < 5 {
            g.push((phase.into(), case, v));
        }
        self.first_violation.lock().unwrap().get_or_insert_with(Instant::now);
        self.stop.store(true, Ordering::Relaxed);
    }

    /// Runs `n` independent cases on `threads` threads. Each case's randomness depends only on
    /// (seed, property, phase, case number), so a case number replays it.
    pub fn cases<F>(self: &Arc<Self>, phase: &str, n: u64, threads: usize, f: F)
    where
        F: Fn(&mut Rng, u64, &mut Rep) -> Result<(), Violation> + Send + Sync,
    {
        if self.stopped() {
            return;
        }
        let left = self.phases_left.load(Ordering::Relaxed).max(1);
        self.phases_left.store(left - 1, Ordering::Relaxed);
        *self.phase_end.lock().unwrap() = Instant::now() + self.budget.saturating_sub(self.start.elapsed()) / left as u32;
        let (lo, hi) = match &self.only {
            Some((p, _)) if p != phase => return,
            Some((_, c)) => (*c, *c + 1),
            None => (0, n),
        };
        let next = AtomicU64::new(lo);
        let f = &f;
        std::thread::scope(|s| {
            for t in 0..threads.min((hi - lo) as usize).max(1) {
                let next = &next;
                std::thread::Builder::new()
                    .name(format!("case-{t}"))
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || loop {
                        if self.stopped() || (self.phase_over() && self.only.is_none()) {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= hi {
                            break;
                        }
                        let mut rng = Rng::new(hash_of(&(self.seed, &self.prop, phase, i)));
                        let mut rep = Rep::default();
                        let key = hash_of(&(phase, i));
                        self.running.lock().unwrap().insert(key, (Instant::now(), phase.to_string(), i));
                        let r = catch_unwind(AssertUnwindSafe(|| f(&mut rng, i, &mut rep)));
                        self.running.lock().unwrap().remove(&key);
                        match r {
                            Ok(Ok(())) => self.merge(phase, rep),
                            Ok(Err(v)) => {
                                self.merge(phase, rep);
                                self.violation(phase, i, v)
                            }
                            Err(_) => {
                                let p = take_last_panic();
                                match p {
                                    Some(p) if p.origin == Origin::Framework => self.violation(
                                        phase,
                                        i,
                                        Violation {
                                            what: format!("library code panicked: {}", p.msg),
                                            detail: json!({"at": p.loc}),
                                        },
                                    ),
                                    p => self.note_harness_error(format!("{phase}/{i}: {p:?}")),
                                }
                            }
                        }
                    })
                    .unwrap();
            }
        });
    }

    /// Ends the run: writes evidence and returns the exit code.
    pub fn finish(&self, out: &mut impl Write, fin: &Fin) -> i32 {
        if self.finished.swap(true, Ordering::SeqCst) {
            // the other thread that ends the run exits the process
            std::thread::sleep(Duration::from_secs(60));
        }
        let (evidence, replay_dir, known, level) = (&fin.evidence, &fin.replay_dir, &fin.known, "exploration");
        let vs = self.violations.lock().unwrap().clone();
        let errs = self.harness_errors.lock().unwrap().clone();
        let st = self.stats.lock().unwrap();
        let wall = self.start.elapsed().as_secs_f64();
        let fw: Vec<Value> = framework_panics().iter().take(5).map(|p| json!({"msg": p.msg, "at": p.loc, "thread": p.thread})).collect();
        let mut cov = json!({
            "evaluations": st.evaluations,
            "distinct_nontrivial": st.distinct.len(),
            "rule": *self.rule.lock().unwrap(),
            "samples": st.samples,
            "cases_per_phase": st.cases,
            "observed": st.counters,
            "seconds_budget": self.budget.as_secs(),
            "framework_panics_seen": fw,
            "deliberate_panics": deliberate_panics(),
        });
        for (k, v) in self.extra.lock().unwrap().iter() {
            cov[k] = v.clone();
        }
        let mut fresh = vec![];
        let mut seen_known = HashSet::new();
        for (p, c, v) in &vs {
            match known.matches(&self.prop, &v.what) {
                Some(k) => {
                    seen_known.insert(k);
                }
                None => fresh.push((p, c, v)),
            }
        }
        let ev = json!({
            "property": self.prop,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": level,
            "coverage": cov,
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": wall,
            "violations": fresh.len(),
        });
        if self.only.is_none() {
            if let Some(d) = std::path::Path::new(evidence).parent() {
                let _ = std::fs::create_dir_all(d);
            }
            std::fs::write(evidence, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
        }
        for k in seen_known {
            let _ = writeln!(out, "KNOWN-FINDING: property={} {}", self.prop, k);
        }
        if let Some((p, c, v)) = fresh.first() {
            let _ = std::fs::create_dir_all(replay_dir);
            let path = format!("{}/{}-{}-{}-{}.json", replay_dir, self.prop, self.seed, p, c);
            let _ = std::fs::write(
                &path,
                serde_json::to_string_pretty(&json!({
                    "property": self.prop, "seed": self.seed, "phase": p, "case": c,
                    "tier": if self.thorough {"thorough"} else {"quick"},
                    "what": v.what, "detail": v.detail,
                    "replay": format!("./check.sh {} --replay {}", self.prop, path),
                    "panics": fw,
                }))
                .unwrap(),
            );
            let _ = writeln!(out, "{}: {}", self.prop, v.what);
            let mut d = serde_json::to_string(&v.detail).unwrap();
            if d.len() > 3000 {
                let mut k = 3000;
                while !d.is_char_boundary(k) {
                    k -= 1;
                }
                d.truncate(k);
            }
            let _ = writeln!(out, "  detail: {}", d);
            let _ = writeln!(out, "VIOLATION property={} replay={}", self.prop, path);
            return 1;
        }
        if !errs.is_empty() {
            let _ = writeln!(out, "HARNESS ERROR {}: {}", self.prop, errs.join("; "));
            return 2;
        }
        if self.only.is_none() {
            for (k, n) in self.min.lock().unwrap().iter() {
                let have = st.counters.get(k).copied().unwrap_or(0);
                if have < *n {
                    let _ = writeln!(out, "INCONCLUSIVE {}: observed {} {}, wanted {}", self.prop, have, k, n);
                    return 3;
                }
            }
        }
        let _ = writeln!(
            out,
            "{} held: {} evaluations, {} distinct non-trivial, {:.1}s, observed {:?}",
            self.prop,
            st.evaluations,
            st.distinct.len(),
            wall,
            st.counters
        );
        0
    }
}

#[derive(Clone)]
pub struct Fin {
    pub evidence: String,
    pub replay_dir: String,
    pub known: Known,
}

/// A case that neither ends nor fails is a finding of its own: every wait in the harness is
/// bounded by 60 s, so what hangs is library code called in-process.
pub fn watchdog(cx: Arc<Cx>, fin: Fin, mut out: std::fs::File) {
    std::thread::Builder::new()
        .name("watchdog".into())
        .spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            // a broken server can keep the other cases waiting for long
            if let Some(t) = *cx.first_violation.lock().unwrap() {
                if t.elapsed() > Duration::from_secs(25) {
                    let code = cx.finish(&mut out, &fin);
                    remove_scratch();
                    unsafe { libc::_exit(code) }
                }
            }
            let stuck = {
                let g = cx.running.lock().unwrap();
                g.iter().find(|(_, (t, _, _))| t.elapsed() > Duration::from_secs(240)).map(|(_, x)| x.clone())
            };
            if let Some((_, phase, case)) = stuck {
                cx.violation(
                    &phase,
                    case,
                    Violation {
                        what: "a case does not terminate (240 s)".into(),
                        detail: json!({}),
                    },
                );
                let code = cx.finish(&mut out, &fin);
                unsafe { libc::_exit(code) }
            }
        })
        .unwrap();
}

/// Committed list of known findings (see known_findings.txt).
#[derive(Clone)]
pub struct Known(Vec<(String, String)>);
impl Known {
    pub fn load(path: &str) -> Self {
        let mut v = vec![];
        for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
            if let Some(r) = l.strip_prefix("finding: property=") {
                if let Some((p, sig)) = r.split_once(' ') {
                    v.push((p.to_string(), sig.trim().to_string()));
                }
            }
        }
        Known(v)
    }
    fn matches(&self, prop: &str, what: &str) -> Option<String> {
        self.0.iter().find(|(p, s)| p == prop && s == what).map(|x| x.1.clone())
    }
}

// ---------------------------------------------------------------- scratch directory
static SCRATCH: OnceLock<String> = OnceLock::new();
/// A directory of this run's own.
pub fn scratch() -> &'static str {
    SCRATCH.get_or_init(|| {
        let base = std::env::var("TMPDIR").unwrap_or_else(|_| "/tmp".into());
        let d = format!("{base}/verif-harness.{}", std::process::id());
        std::fs::create_dir_all(&d).expect("scratch directory");
        d
    })
}
pub fn remove_scratch() {
    if let Some(d) = SCRATCH.get() {
        let _ = std::fs::remove_dir_all(d);
    }
}

// ---------------------------------------------------------------- minimal executor
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    struct W(std::thread::Thread, AtomicBool);
    impl std::task::Wake for W {
        fn wake(self: Arc<Self>) {
            self.1.store(true, Ordering::SeqCst);
            self.0.unpark();
        }
    }
    let w = Arc::new(W(std::thread::current(), AtomicBool::new(false)));
    let waker = std::task::Waker::from(w.clone());
    let mut cx = std::task::Context::from_waker(&waker);
    let mut f = std::pin::pin!(f);
    loop {
        if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
        while !w.1.swap(false, Ordering::SeqCst) {
            std::thread::park();
        }
    }
}

/// Printable form of bytes for reports.
pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b.iter().take(600) {
        match c {
            b'\n' => s.push_str("\\n"),
            b'\r' => s.push_str("\\r"),
            0x20..=0x7e => s.push(c as char),
            _ => s.push_str(&format!("\\x{:02x}", c)),
        }
    }
    if b.len() > 600 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}

/// Descriptors this process may have.
pub fn fd_limit() -> u64 {
    let mut rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::getrlimit(libc::RLIMIT_NOFILE, &mut rl) };
    rl.rlim_cur
}

/// Looks at the bytes of a string made by the library: they must be UTF-8, whatever clients sent.
/// Unchecked conversions are undefined behaviour no sanitizer reports, so C18's runs stop here.
pub fn utf8(s: &str) -> usize {
    static ON: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    let b = std::hint::black_box(s.as_bytes());
    if std::str::from_utf8(b).is_err() && *ON.get_or_init(|| cfg!(miri) || std::env::var_os("VERIF_UB_ABORT").is_some()) {
        println!("error: Undefined Behavior: a string that is not UTF-8: {:?}", &b[..b.len().min(100)]);
        eprintln!("error: Undefined Behavior: a string that is not UTF-8: {:?}", &b[..b.len().min(100)]);
        std::process::abort();
    }
    b.len()
}
pub fn utf8_map(m: &std::collections::HashMap<String, Vec<String>>) -> usize {
    m.iter().map(|(k, v)| utf8(k) + v.iter().map(|s| utf8(s)).sum::<usize>()).sum()
}
