//! C10: query strings and forms. C22: the public form decoder. Typed targets are judged by an
//! independent statement of what each type makes of the list of values sent under its name.
use crate::core::*;
use crate::http::*;
use obsidian::context::Context;
use obsidian::router::from_cow_map;
use obsidian::{App, Body, ContextResult, Request};
use serde::de::DeserializeOwned;
use serde::Deserialize;
use serde_json::json;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

/// What decoding must give: the value in canonical text, an error, or anything without a panic.
#[derive(Clone, Debug, PartialEq)]
pub enum Exp {
    Is(String),
    Bad,
    Free,
}
use Exp::*;

/// A decodable type: canonical text of a value, and what it must become from the values sent.
pub trait Val: DeserializeOwned {
    fn canon(&self) -> String;
    /// values under the name; the list may be empty or hold empty strings (C22)
    fn expect(v: &[String]) -> Exp;
    fn missing() -> Exp {
        Bad
    }
    /// texts that mostly mean something to the type
    fn texts(rng: &mut Rng) -> String;
    /// one entry of a list
    fn element(s: &String) -> Exp {
        Self::expect(std::slice::from_ref(s))
    }
}
macro_rules! scalar {
    ($($t:ty),*) => {$(
        impl Val for $t {
            fn canon(&self) -> String { format!("{:?}", self) }
            fn expect(v: &[String]) -> Exp {
                match v.first().map(|s| s.parse::<$t>()) {
                    Some(Ok(x)) => Is(x.canon()),
                    _ => Bad,
                }
            }
            fn texts(rng: &mut Rng) -> String { number(rng) }
        }
    )*};
}
scalar!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
macro_rules! float {
    ($($t:ty),*) => {$(
        impl Val for $t {
            fn canon(&self) -> String { if self.is_nan() { "nan".into() } else { format!("{:x}", self.to_bits()) } }
            fn expect(v: &[String]) -> Exp {
                match v.first().map(|s| s.parse::<$t>()) {
                    Some(Ok(x)) => Is(x.canon()),
                    _ => Bad,
                }
            }
            fn texts(rng: &mut Rng) -> String { number(rng) }
        }
    )*};
}
float!(f32, f64);
fn number(rng: &mut Rng) -> String {
    match rng.below(12) {
        0 => (rng.next() as i64).to_string(),
        1 => rng.next().to_string(),
        2 => (rng.next() as i8).to_string(),
        3 => {
            let b = 1i128 << *rng.pick(&[7, 8, 15, 16, 31, 32, 63, 64, 24, 53]);
            let v = b + rng.below(3) as i128 - 1;
            (if rng.chance(1, 2) { -v } else { v }).to_string()
        }
        4 => format!("{}", f64::from_bits(rng.next())),
        5 => format!("{:e}", f32::from_bits(rng.next() as u32)),
        6 => format!("{}", (rng.next() as i16) as f64 / 64.0),
        7 => rng.pick(&["+1", "-0", "00", "007", "1e3", "inf", "-inf", "NaN", "nan", "infinity", ".5", "5.", "0x10", "1_0", "--1", "1 ", " 1", "1\n", "-", "+", "e", "1,5", "１"]).to_string(),
        8 => format!("{:0>w$}", rng.below(300), w = rng.range(1, 60)),
        _ => rng.below(300).to_string(),
    }
}
fn word(rng: &mut Rng) -> String {
    match rng.below(10) {
        0 => {
            let n = rng.size(2000);
            (0..n).map(|_| *rng.pick(&['a', ' ', '+', '%', '&', '=', 'é', '🦀', '\0', '\n', ';', '#'])).collect()
        }
        1 => rng.pick(&["+", " ", "%", "%2", "%zz", "%20", "a=b", "a&b", "=", "&", "é", "🦀", "\u{fffd}", "null", "[]", "true", "\0", "a;b", "\u{feff}"]).to_string(),
        2 => number(rng),
        3 => {
            let d = &dict().strs;
            if d.is_empty() {
                "w".into()
            } else {
                rng.pick(d).clone()
            }
        }
        _ => {
            let n = rng.range(1, 8);
            (0..n).map(|_| *rng.pick(&['a', 'b', 'c', 'é', ' ', '+', '0'])).collect()
        }
    }
}
impl Val for bool {
    fn canon(&self) -> String {
        format!("{self}")
    }
    fn expect(v: &[String]) -> Exp {
        match v.first().map(|s| s.as_str()) {
            Some("true") => Is("true".into()),
            Some("false") => Is("false".into()),
            _ => Bad,
        }
    }
    fn texts(rng: &mut Rng) -> String {
        rng.pick(&["true", "false", "true", "false", "True", "1", "0", "on", "yes", "TRUE", " true", "truee"]).to_string()
    }
}
impl Val for char {
    fn canon(&self) -> String {
        format!("{self:?}")
    }
    fn expect(v: &[String]) -> Exp {
        match v.first() {
            Some(s) if s.chars().count() == 1 => Is(s.chars().next().unwrap().canon()),
            _ => Bad,
        }
    }
    fn texts(rng: &mut Rng) -> String {
        rng.pick(&["a", "é", "🦀", "ab", "éa", "a ", "+", " ", "%", "\0", "e\u{301}", "1"]).to_string()
    }
}
impl Val for String {
    fn canon(&self) -> String {
        crate::core::utf8(self);
        format!("{self:?}")
    }
    fn expect(v: &[String]) -> Exp {
        v.first().map_or(Bad, |s| Is(s.canon()))
    }
    fn texts(rng: &mut Rng) -> String {
        word(rng)
    }
}
impl Val for () {
    fn canon(&self) -> String {
        "()".into()
    }
    fn expect(_: &[String]) -> Exp {
        Is("()".into())
    }
    fn texts(rng: &mut Rng) -> String {
        word(rng)
    }
}
impl<T: Val> Val for Option<T> {
    fn canon(&self) -> String {
        match self {
            None => "none".into(),
            Some(x) => format!("some({})", x.canon()),
        }
    }
    fn expect(v: &[String]) -> Exp {
        match v.first() {
            None => Is("none".into()),
            Some(s) if s.is_empty() => {
                if v.len() == 1 {
                    Is("none".into())
                } else {
                    Free // an empty first value before others: which one counts is not laid down
                }
            }
            Some(_) => match T::expect(v) {
                Is(s) => Is(format!("some({s})")),
                x => x,
            },
        }
    }
    fn missing() -> Exp {
        Is("none".into())
    }
    fn texts(rng: &mut Rng) -> String {
        T::texts(rng)
    }
}
fn seq<'a, T: Val + 'a>(it: impl Iterator<Item = &'a T>) -> String {
    format!("[{}]", it.map(|x| x.canon()).collect::<Vec<_>>().join(","))
}
fn all<T: Val>(v: &[String]) -> Exp {
    let mut out = vec![];
    let mut free = false;
    for s in v {
        match T::element(s) {
            Is(x) => out.push(x),
            Bad => return Bad,
            Free => free = true,
        }
    }
    if free {
        Free
    } else {
        Is(format!("[{}]", out.join(",")))
    }
}
impl<T: Val> Val for Vec<T> {
    fn canon(&self) -> String {
        seq(self.iter())
    }
    fn expect(v: &[String]) -> Exp {
        all::<T>(v)
    }
    fn texts(rng: &mut Rng) -> String {
        T::texts(rng)
    }
}
impl<T: Val> Val for std::collections::VecDeque<T> {
    fn canon(&self) -> String {
        seq(self.iter())
    }
    fn expect(v: &[String]) -> Exp {
        all::<T>(v)
    }
    fn texts(rng: &mut Rng) -> String {
        T::texts(rng)
    }
}
impl<T: Val, U: Val> Val for (T, U) {
    fn canon(&self) -> String {
        format!("({},{})", self.0.canon(), self.1.canon())
    }
    fn expect(v: &[String]) -> Exp {
        match v.len() {
            0 | 1 => Bad,
            2 => match (T::element(&v[0]), U::element(&v[1])) {
                (Is(a), Is(b)) => Is(format!("({a},{b})")),
                (Bad, _) | (_, Bad) => Bad,
                _ => Free,
            },
            _ => Free,
        }
    }
    fn texts(rng: &mut Rng) -> String {
        T::texts(rng)
    }
}
macro_rules! newtype {
    ($n:ident, $t:ty) => {
        #[derive(Deserialize, Debug)]
        pub struct $n($t);
        impl Val for $n {
            fn canon(&self) -> String {
                self.0.canon()
            }
            fn expect(v: &[String]) -> Exp {
                <$t>::expect(v)
            }
            fn missing() -> Exp {
                Bad
            }
            fn texts(rng: &mut Rng) -> String {
                <$t>::texts(rng)
            }
        }
    };
}
newtype!(Meters, f64);
newtype!(Tag, String);
newtype!(Ids, Vec<u32>);

// ---------------------------------------------------------------- schemas
pub type Sent = BTreeMap<String, Vec<String>>;
/// One typed target.
pub struct Schema {
    pub name: &'static str,
    pub fields: &'static [&'static str],
    pub expect: fn(&Sent) -> Exp,
    pub text: fn(&str, &mut Rng) -> String,
    pub fits: fn(&str, &String) -> bool,
    pub query: fn(&mut Context) -> Result<String, String>,
    pub form: for<'a> fn(&'a mut Context) -> std::pin::Pin<Box<dyn std::future::Future<Output = Result<String, String>> + Send + 'a>>,
    pub map: fn(&HashMap<Cow<str>, Cow<[String]>>) -> Result<String, String>,
}
pub trait Target: DeserializeOwned + Send {
    fn canon_t(&self) -> String;
}
fn q<T: Target>(c: &mut Context) -> Result<String, String> {
    c.query_params::<T>().map(|t| t.canon_t()).map_err(|e| e.to_string())
}
fn fm<T: Target + 'static>(c: &mut Context) -> std::pin::Pin<Box<dyn std::future::Future<Output = Result<String, String>> + Send + '_>> {
    Box::pin(async move { c.form::<T>().await.map(|t| t.canon_t()).map_err(|e| e.to_string()) })
}
fn mp<T: Target>(m: &HashMap<Cow<str>, Cow<[String]>>) -> Result<String, String> {
    from_cow_map::<T, _>(m).map(|t: T| t.canon_t()).map_err(|e| e.to_string())
}
fn field<T: Val>(m: &Sent, k: &str, default: Option<Exp>) -> Exp {
    match m.get(k) {
        Some(v) => T::expect(v),
        None => default.unwrap_or_else(T::missing),
    }
}
/// all fields, or an error when one is an error, or free
fn combine(parts: Vec<(&str, Exp)>) -> Exp {
    let mut out = vec![];
    let mut free = false;
    for (k, e) in parts {
        match e {
            Is(s) => out.push(format!("{k}={s}")),
            Bad => return Bad,
            Free => free = true,
        }
    }
    if free {
        Free
    } else {
        Is(out.join(";"))
    }
}
macro_rules! schema {
    ($n:ident { $($(#[$m:meta])* $f:ident : $t:ty = $key:literal $(, or $d:expr)?);* $(;)? }) => {
        #[derive(Deserialize, Debug)]
        pub struct $n { $($(#[$m])* #[serde(rename = $key)] $f: $t),* }
        impl Target for $n {
            fn canon_t(&self) -> String {
                #[allow(unused_mut)]
                let mut v: Vec<String> = vec![];
                $(v.push(format!("{}={}", $key, self.$f.canon()));)*
                v.join(";")
            }
        }
        impl $n {
            fn schema() -> Schema {
                Schema {
                    name: stringify!($n),
                    fields: &[$($key),*],
                    expect: |m| {
                        let _ = m;
                        #[allow(unused_mut)]
                        let mut v: Vec<(&str, Exp)> = vec![];
                        $(
                            #[allow(unused_mut, unused_assignments)]
                            let mut d: Option<Exp> = None;
                            $(d = Some(Is(<$t as Val>::canon(&$d)));)?
                            v.push(($key, field::<$t>(m, $key, d)));
                        )*
                        combine(v)
                    },
                    text: |k, rng| match k { $($key => <$t as Val>::texts(rng),)* _ => word(rng) },
                    fits: |k, t| match k { $($key => <$t as Val>::element(t) != Bad,)* _ => { let _ = t; true } },
                    query: q::<$n>,
                    form: |c| fm::<$n>(c),
                    map: mp::<$n>,
                }
            }
        }
    };
}
schema!(Ints { a: i8 = "a"; b: i16 = "b"; c: i32 = "c"; d: i64 = "d"; e: isize = "e" });
schema!(Uints { a: u8 = "a"; b: u16 = "b"; c: u32 = "c"; d: u64 = "d"; e: usize = "e" });
schema!(One { id: i32 = "id" });
schema!(Floats { x: f32 = "x"; y: f64 = "y"; z: Option<f64> = "z"; w: Vec<f32> = "w" });
schema!(Text { name: String = "name"; title: Option<String> = "title"; tags: Vec<String> = "tags" });
schema!(Flags { on: bool = "on"; off: Option<bool> = "off"; many: Vec<bool> = "many"; c: char = "c" });
schema!(Opts { a: Option<i32> = "a"; b: Option<char> = "b"; c: Option<u64> = "c"; d: Option<String> = "d"; e: Option<Vec<u16>> = "e"; f: Option<Meters> = "f" });
schema!(Lists { a: Vec<i32> = "a"; b: Vec<String> = "b"; c: Vec<Option<u8>> = "c"; d: Vec<char> = "d"; e: Ids = "e"; f: std::collections::VecDeque<u64> = "f" });
schema!(Defaults { #[serde(default)] a: i32 = "a", or 0; #[serde(default)] b: Vec<String> = "b", or vec![]; #[serde(default)] c: String = "c", or String::new(); #[serde(default)] d: Option<u8> = "d"; e: u8 = "e" });
schema!(News { m: Meters = "m"; t: Tag = "t"; i: Vec<Meters> = "i"; p: (i32, String) = "p"; o: Option<(u8, u8)> = "o" });
schema!(Odd { a: String = ""; b: i32 = "a b"; c: String = "é"; d: Vec<u8> = "x[]"; e: Option<String> = "a.b[c]"; f: u16 = "+" ; g: Option<i8> = "%41" });
schema!(Big { a: Option<i64> = "a"; b: Option<i64> = "b"; c: Option<i64> = "c"; d: Option<i64> = "d"; e: Option<i64> = "e"; f: Option<i64> = "f"; g: Option<i64> = "g"; h: Option<i64> = "h";
    i: Option<String> = "i"; j: Option<String> = "j"; k: Option<String> = "k"; l: Option<String> = "l"; m: Option<String> = "m"; n: Vec<String> = "n"; o: Vec<i32> = "o"; p: String = "p" });
schema!(Unit { u: () = "u"; v: Option<()> = "v"; a: i32 = "a" });
schema!(Nothing {});

macro_rules! maps {
    ($n:ident, $v:ty, $map:ident) => {
        #[derive(Deserialize, Debug)]
        #[serde(transparent)]
        pub struct $n($map<String, $v>);
        impl Target for $n {
            fn canon_t(&self) -> String {
                let m: BTreeMap<&String, String> = self.0.iter().map(|(k, v)| (k, v.canon())).collect();
                m.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(";")
            }
        }
        impl $n {
            fn schema() -> Schema {
                Schema {
                    name: stringify!($n),
                    fields: &["a", "b", "c"],
                    expect: |m| combine(m.iter().map(|(k, v)| (k.as_str(), <$v as Val>::expect(v))).collect()),
                    text: |_, rng| <$v as Val>::texts(rng),
                    fits: |_, t| <$v as Val>::element(t) != Bad,
                    query: q::<$n>,
                    form: |c| fm::<$n>(c),
                    map: mp::<$n>,
                }
            }
        }
    };
}
maps!(MapOfStrings, String, HashMap);
maps!(MapOfLists, Vec<String>, HashMap);
maps!(MapOfInts, i32, BTreeMap);
maps!(MapOfOpts, Option<String>, BTreeMap);
maps!(MapOfIntLists, Vec<u64>, HashMap);

pub fn schemas() -> &'static Vec<Schema> {
    static S: std::sync::OnceLock<Vec<Schema>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        vec![
            Ints::schema(),
            Uints::schema(),
            One::schema(),
            Floats::schema(),
            Text::schema(),
            Flags::schema(),
            Opts::schema(),
            Lists::schema(),
            Defaults::schema(),
            News::schema(),
            Odd::schema(),
            Big::schema(),
            Unit::schema(),
            Nothing::schema(),
            MapOfStrings::schema(),
            MapOfLists::schema(),
            MapOfInts::schema(),
            MapOfOpts::schema(),
            MapOfIntLists::schema(),
        ]
    })
}

// ---------------------------------------------------------------- urlencoded, independently
pub fn decode_component(b: &[u8]) -> String {
    let mut out = vec![];
    let mut i = 0;
    let hex = |c: u8| (c as char).to_digit(16).map(|d| d as u8);
    while i < b.len() {
        match b[i] {
            b'+' => out.push(b' '),
            b'%' if i + 2 < b.len() + 0 && hex(b[i + 1]).is_some() && hex(b[i + 2]).is_some() => {
                out.push(hex(b[i + 1]).unwrap() * 16 + hex(b[i + 2]).unwrap());
                i += 2;
            }
            c => out.push(c),
        }
        i += 1;
    }
    String::from_utf8_lossy(&out).into_owned()
}
/// Names and values as sent, empty values left out.
pub fn decode_pairs(b: &[u8]) -> Sent {
    let mut m = Sent::new();
    for part in b.split(|c| *c == b'&') {
        if part.is_empty() {
            continue;
        }
        let k = part.iter().position(|c| *c == b'=');
        let (n, v) = match k {
            Some(k) => (&part[..k], &part[k + 1..]),
            None => (part, &b""[..]),
        };
        let v = decode_component(v);
        if !v.is_empty() {
            m.entry(decode_component(n)).or_default().push(v);
        }
    }
    m
}
/// `query`: only bytes a request target may hold unescaped.
pub fn encode_component(rng: &mut Rng, s: &str, query: bool, out: &mut Vec<u8>) {
    let style = rng.below(4);
    for &c in s.as_bytes() {
        let plain = c.is_ascii_alphanumeric() || b"-._~*!'(),:@/?$".contains(&c);
        let raw_ok = plain || (!query && !b"&=+%".contains(&c));
        let esc = match style {
            0 => !plain,
            1 => true,
            2 => !raw_ok || rng.chance(1, 4),
            _ => !raw_ok,
        };
        if c == b' ' && rng.chance(1, 2) {
            out.push(b'+');
        } else if esc {
            let h = if rng.chance(1, 2) { format!("%{c:02X}") } else { format!("%{c:02x}") };
            out.extend_from_slice(h.as_bytes());
        } else {
            out.push(c);
        }
    }
}
fn gen_pairs(rng: &mut Rng, s: &Schema) -> Vec<(String, String)> {
    let mut v = vec![];
    let clean = rng.chance(1, 2);
    let is_map = s.name.starts_with("MapOf");
    for f in s.fields {
        if !clean && rng.chance(1, 10) {
            continue;
        }
        let k = match rng.below(20) {
            0 => rng.size(40),
            1 | 2 => rng.range(2, 4),
            3 if !clean => 0,
            _ => 1,
        };
        for _ in 0..k {
            let mut t = (s.text)(f, rng);
            for _ in 0..if clean { 12 } else { 0 } {
                if (s.fits)(f, &t) {
                    break;
                }
                t = (s.text)(f, rng);
            }
            if !clean && rng.chance(1, 20) {
                t = word(rng);
            }
            if rng.chance(1, if clean { 60 } else { 12 }) {
                t = String::new();
            }
            v.push((f.to_string(), t));
        }
    }
    for _ in 0..*rng.pick(&[0, 0, 0, 1, 2, 6]) {
        let n = if rng.chance(1, 3) && !s.fields.is_empty() {
            let f = rng.pick(s.fields).to_string();
            match rng.below(4) {
                0 => f.to_uppercase(),
                1 => format!("{f} "),
                2 => format!("{f}[]"),
                _ => f + "x",
            }
        } else {
            word(rng)
        };
        let t = if is_map { (s.text)(&n, rng) } else { word(rng) };
        v.push((n, t));
    }
    if rng.chance(1, 2) {
        rng.shuffle(&mut v);
    }
    if rng.chance(1, 60) {
        let n = rng.size(3000);
        for i in 0..n {
            v.push((format!("filler{i}"), (s.text)("a", rng)));
        }
    }
    v
}
fn gen_raw(rng: &mut Rng, s: &Schema, query: bool) -> Vec<u8> {
    let mut out = vec![];
    let junk: &[&[u8]] = &[b"&", b"&&", b"=", b"==", b"%", b"%2", b"%zz", b"%F0%9F", b"=x", b"x=", b"&=&", b"+", b"%00", b"a=%", b"a=%4", b"%C3%28", b"?", b"a=b=c", b"%u0041"];
    let ps = gen_pairs(rng, s);
    for (i, (k, v)) in ps.iter().enumerate() {
        if i > 0 {
            out.push(b'&');
        }
        if rng.chance(1, 25) {
            out.extend_from_slice(*rng.pick(junk));
            if rng.chance(1, 2) {
                out.push(b'&');
            }
        }
        encode_component(rng, k, query, &mut out);
        if v.is_empty() && rng.chance(1, 3) {
            continue;
        }
        out.push(b'=');
        encode_component(rng, v, query, &mut out);
    }
    if rng.chance(1, 12) {
        out.extend_from_slice(*rng.pick(junk));
    }
    if !query && rng.chance(1, 20) && !out.is_empty() {
        let k = rng.below(out.len());
        out[k] = rng.next() as u8;
    }
    out
}
/// Moves pairs around without changing the order under any one name.
fn reorder(rng: &mut Rng, raw: &[u8]) -> Vec<u8> {
    let parts: Vec<&[u8]> = raw.split(|c| *c == b'&').collect();
    let name = |p: &[u8]| decode_component(&p[..p.iter().position(|c| *c == b'=').unwrap_or(p.len())]);
    let mut idx: Vec<usize> = (0..parts.len()).collect();
    rng.shuffle(&mut idx);
    let mut by: HashMap<String, std::collections::VecDeque<usize>> = HashMap::new();
    for (i, p) in parts.iter().enumerate() {
        by.entry(name(p)).or_default().push_back(i);
    }
    let out: Vec<&[u8]> = idx.iter().map(|i| parts[by.get_mut(&name(parts[*i])).unwrap().pop_front().unwrap()]).collect();
    out.join(&b'&')
}
fn verdict(what: &str, s: &Schema, raw: &[u8], want: &Exp, got: &Result<String, String>) -> Result<(), Violation> {
    let bad = match (want, got) {
        (Is(w), Ok(g)) => w != g,
        (Is(_), Err(_)) => true,
        (Exp::Bad, Ok(_)) => true,
        _ => false,
    };
    if bad {
        return viol(
            what,
            json!({"type": s.name, "sent": show(raw), "expected": show(format!("{want:?}").as_bytes()), "observed": show(format!("{got:?}").as_bytes())}),
        );
    }
    Ok(())
}
fn tally(rep: &mut Rep, want: &Exp, raw: &[u8], s: &Schema) {
    let nontrivial = raw.len() > 3;
    rep.eval(if nontrivial { Some(hash_of(&(raw, s.name))) } else { None });
    match want {
        Is(_) => rep.count("values", 1),
        Exp::Bad => rep.count("errors", 1),
        Free => rep.count("not_judged", 1),
    }
}
/// Target with a query: bytes the http crate refuses are left out by the caller.
fn ctx_with(target: &[u8], body: Body) -> Option<Context> {
    let uri: obsidian::Uri = std::str::from_utf8(target).ok()?.parse().ok()?;
    let mut r = Request::new(body);
    *r.uri_mut() = uri;
    Some(Context::new(r, HashMap::new()))
}

pub fn c10(cx: &Arc<Cx>) {
    cx.rule("random pairs for 19 typed targets (integers, floats, bool, char, text, options, lists, defaults, newtypes, tuples, odd names, maps), encoded in random styles with junk between, decoded by query_params() and form() in-process and on a served app and compared with an independent urlencoded decoder and per-type statement; the pairs reordered across names decode again; an evaluation is one decoding; non-trivial: more than 3 bytes were sent");
    cx.plan(2);
    cx.cases("inproc", cx.n(200_000), 8, |rng, _, rep| {
        let s = rng.pick(schemas());
        // query
        let raw = gen_raw(rng, s, true);
        let mut target = b"/p?".to_vec();
        target.extend_from_slice(&raw);
        if let Some(mut c) = ctx_with(&target, Body::empty()) {
            // '#' never reaches the query: the generator escapes it
            let want = (s.expect)(&decode_pairs(&raw));
            tally(rep, &want, &raw, s);
            let got = (s.query)(&mut c);
            verdict("a query string decoded wrongly", s, &raw, &want, &got)?;
            // reading it is repeatable and leaves the request alone
            let again = (s.query)(&mut c);
            if again.is_ok() != got.is_ok() || (got.is_ok() && again != got) {
                return viol("a second reading of the query differs", json!({"type": s.name, "sent": show(&raw)}));
            }
            let mixed = reorder(rng, &raw);
            let mut t2 = b"/p?".to_vec();
            t2.extend_from_slice(&mixed);
            if let Some(mut c) = ctx_with(&t2, Body::empty()) {
                rep.count("reordered", 1);
                verdict("the order of different names changed the decoding", s, &mixed, &want, &(s.query)(&mut c))?;
            }
        } else {
            rep.count("unusable_targets", 1);
        }
        // form
        let raw = gen_raw(rng, s, false);
        let want = (s.expect)(&decode_pairs(&raw));
        tally(rep, &want, &raw, s);
        let mut c = ctx_with(b"/p", Body::from(raw.clone())).unwrap();
        let got = block_on((s.form)(&mut c));
        verdict("a form decoded wrongly", s, &raw, &want, &got)?;
        let mixed = reorder(rng, &raw);
        let mut c = ctx_with(b"/p?a=9&id=9", Body::from(mixed.clone())).unwrap();
        verdict("the order of different names changed the decoding", s, &mixed, &want, &block_on((s.form)(&mut c)))?;
        rep.count("reordered", 1);
        rep.sample = Some(json!({"type": s.name, "form": show(&raw), "expected": show(format!("{want:?}").as_bytes())}));
        // no query at all
        if rng.chance(1, 20) {
            let mut c = ctx_with(if rng.chance(1, 2) { b"/p" } else { b"/p?" }, Body::from("a=1&id=1&name=n")).unwrap();
            verdict("a missing query decoded wrongly", s, b"", &(s.expect)(&Sent::new()), &(s.query)(&mut c))?;
        }
        Ok(())
    });
    cx.cases("wire", cx.n(320), 8, |rng, _, rep| {
        let srv = Server::start(|| {
            let mut a: App = App::new();
            a.get("/q/:t", |mut c: Context| async move {
                let k: usize = c.param("t")?;
                let r = (schemas()[k].query)(&mut c);
                answer(c, r)
            });
            a.post("/f/:t", |mut c: Context| async move {
                let k: usize = c.param("t")?;
                let r = (schemas()[k].form)(&mut c).await;
                answer(c, r)
            });
            a
        })?;
        let mut c = srv.connect();
        for _ in 0..25 {
            let k = rng.below(schemas().len());
            let s = &schemas()[k];
            let query = rng.chance(1, 2);
            let raw = gen_raw(rng, s, query);
            let r = if query {
                if raw.len() > 60_000 || ctx_with(&[&b"/p?"[..], &raw].concat(), Body::empty()).is_none() {
                    continue;
                }
                let t = format!("/q/{k}?{}", String::from_utf8(raw.clone()).unwrap());
                c.roundtrip(&req("GET", &t, &[], b""))
            } else if raw.is_empty() {
                continue;
            } else {
                c.roundtrip(&req("POST", &format!("/f/{k}"), &[("content-type", "application/x-www-form-urlencoded")], &raw))
            };
            let want = (s.expect)(&decode_pairs(&raw));
            tally(rep, &want, &raw, s);
            rep.count("served", 1);
            let r = match r {
                Ok(r) => r,
                Err(e) => return lost("decoding", e, json!({"type": s.name, "sent": show(&raw)})),
            };
            let got = match r.text().strip_prefix("ok ") {
                Some(t) => Ok(t.to_string()),
                None => Err(r.text()),
            };
            verdict(if query { "a served query string decoded wrongly" } else { "a served form decoded wrongly" }, s, &raw, &want, &got)?;
        }
        Ok(())
    });
    if let Some(p) = framework_panics().first() {
        cx.violation("inproc", 0, Violation { what: "decoding panicked".into(), detail: json!({"msg": p.msg, "at": p.loc}) });
    }
    cx.need("values", 5000);
    cx.need("errors", 5000);
    cx.need("reordered", 5000);
    cx.need("served", 500);
}
fn answer(c: Context, r: Result<String, String>) -> ContextResult {
    match r {
        Ok(s) => c.build(format!("ok {s}")).ok(),
        Err(e) => c.build(format!("err {e}")).ok(),
    }
}

pub fn c22(cx: &Arc<Cx>) {
    cx.rule("random maps from names to lists of 0-3000 strings (empty lists, empty strings, names nobody asked for, every text of C10) given to from_cow_map for 19 typed targets and compared with a per-type statement; hash order varied; an evaluation is one decoding; non-trivial: the map is not empty");
    cx.assume("a name the target does not have is ignored when its list is not empty; with an empty list only the absence of a panic is judged");
    cx.plan(1);
    cx.cases("maps", cx.n(800_000), 8, |rng, _, rep| {
        let s = rng.pick(schemas());
        let mut m: Sent = Sent::new();
        for (k, v) in gen_pairs(rng, s) {
            m.entry(k).or_default().push(v);
        }
        let mut free = false;
        if rng.chance(1, 3) {
            let n = rng.range(1, 3);
            for _ in 0..n {
                let k = if !s.fields.is_empty() && rng.chance(4, 5) { rng.pick(s.fields).to_string() } else { word(rng) };
                match rng.below(3) {
                    0 => {
                        m.insert(k.clone(), vec![]);
                    }
                    1 => {
                        let v = m.entry(k.clone()).or_default();
                        let at = rng.below(v.len() + 1);
                        v.insert(at, String::new());
                    }
                    _ => {
                        m.insert(k.clone(), vec![String::new()]);
                    }
                }
            }
        }
        let is_map = s.name.starts_with("MapOf");
        if !is_map && m.iter().any(|(k, v)| v.is_empty() && !s.fields.contains(&k.as_str())) {
            free = true;
        }
        let want = if free { Free } else { (s.expect)(&m) };
        for _ in 0..2 {
            let mut cm: HashMap<Cow<str>, Cow<[String]>> = HashMap::new();
            for (k, v) in &m {
                let (k, v): (Cow<str>, Cow<[String]>) = if rng.chance(1, 2) { (k.as_str().into(), v.as_slice().into()) } else { (k.clone().into(), v.clone().into()) };
                cm.insert(k, v);
            }
            let key = if m.is_empty() { None } else { Some(hash_of(&(&m, s.name))) };
            rep.eval(key);
            match &want {
                Is(_) => rep.count("values", 1),
                Exp::Bad => rep.count("errors", 1),
                Free => rep.count("not_judged", 1),
            }
            if m.values().any(|v| v.is_empty()) {
                rep.count("with_empty_lists", 1);
            }
            let got = (s.map)(&cm);
            verdict("the form decoder is wrong", s, format!("{m:?}").as_bytes(), &want, &got)?;
        }
        rep.sample = Some(json!({"type": s.name, "map": show(format!("{m:?}").as_bytes()), "expected": show(format!("{want:?}").as_bytes())}));
        Ok(())
    });
    cx.need("values", 10_000);
    cx.need("errors", 10_000);
    cx.need("with_empty_lists", 2000);
}
