//! Battery core: runs cases of the executable contract against the real code.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub struct Failure {
    /// stable identification of the failing site/input class
    pub key: String,
    pub input: String,
    pub detail: String,
}

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub trace: Option<std::fs::File>,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub failures: Vec<Failure>,
    pub nfail: BTreeMap<String, u64>,
    pub current: Arc<Mutex<(String, Instant)>>,
}

thread_local! { pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

pub fn hash64(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool, trace: Option<std::fs::File>) -> Ctx {
        Ctx {
            seed,
            thorough,
            trace,
            evaluations: 0,
            distinct: HashSet::new(),
            samples: vec![],
            failures: vec![],
            nfail: BTreeMap::new(),
            current: Arc::new(Mutex::new((String::new(), Instant::now()))),
        }
    }
    /// One case: `site` names what is exercised, `input` the concrete input, `nontrivial` whether
    /// the case exercises the property beyond outright rejection; `f` returns Err(detail) when the
    /// contract does not hold.
    pub fn case<F: FnOnce() -> Result<bool, String>>(&mut self, site: &str, input: &str, f: F) {
        self.evaluations += 1;
        BIG.with(|b| b.set(false));
        {
            let mut c = self.current.lock().unwrap();
            c.0.clear();
            c.0.push_str(site);
            c.0.push('\t');
            c.0.push_str(input);
            c.1 = Instant::now();
        }
        if let Some(t) = self.trace.as_mut() {
            use std::io::{Seek, SeekFrom, Write};
            let _ = t.seek(SeekFrom::Start(0));
            let _ = t.set_len(0);
            let _ = write!(t, "{}\t{:?}", site, input);
            let _ = t.flush();
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        let res = match r {
            Ok(Ok(nontrivial)) => {
                if nontrivial {
                    let h = hash64(site).rotate_left(17) ^ hash64(input);
                    let new = self.distinct.insert(h);
                    if new && (self.samples.len() < 6 || (self.distinct.len() % 5003 == 0 && self.samples.len() < 12)) {
                        self.samples.push(format!("{} {:?}", site, short(input)));
                    }
                }
                return;
            }
            Ok(Err(d)) => d,
            Err(_) => format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone())),
        };
        let key = site.to_string();
        let n = self.nfail.entry(key.clone()).or_insert(0);
        *n += 1;
        if *n <= 3 {
            self.failures.push(Failure { key, input: input.to_string(), detail: res });
        }
    }
    pub fn rng(&self, salt: &str) -> Rng {
        Rng(hash64(salt) ^ self.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1)
    }
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
}

pub fn short(s: &str) -> String {
    if s.chars().count() > 120 { s.chars().take(120).collect::<String>() + "…" } else { s.to_string() }
}

/// Values to try beyond the fixed alphabets: literals of changed functions (see check.py, hunt)
pub struct Hints { pub ints: Vec<u64>, pub sizes: Vec<usize>, pub huge: Vec<usize>, pub strs: Vec<String> }
pub fn hints() -> &'static Hints {
    static H: std::sync::OnceLock<Hints> = std::sync::OnceLock::new();
    H.get_or_init(|| {
        let mut h = Hints { ints: vec![], sizes: vec![], huge: vec![], strs: vec![] };
        let t = match std::env::var("BAT_HINTS") { Ok(p) => std::fs::read_to_string(p).unwrap_or_default(), Err(_) => return h };
        for l in t.lines() {
            if l.starts_with('i') {
                if let Ok(v) = l[1..].parse::<u128>() {
                    if v <= u64::max_value() as u128 { h.ints.push(v as u64) }
                    if v <= 400 { h.sizes.push(v as usize) } else if v <= 70_000 { h.huge.push(v as usize) }
                    if v > 32 && v < 0x110000 { if let Some(c) = std::char::from_u32(v as u32) { h.strs.push(c.to_string()) } }
                }
            } else if l.starts_with('s') {
                let b: Vec<u8> = (1..l.len() / 2 * 2).step_by(2).filter_map(|k| l.get(k..k + 2)).filter_map(|x| u8::from_str_radix(x, 16).ok()).collect();
                if let Ok(s) = String::from_utf8(b) { if !s.is_empty() { h.strs.push(s) } }
            }
        }
        // sizes that constants do not name
        for v in [5usize, 7, 8, 9, 16, 17, 31, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257] { if h.sizes.len() < 40 { h.sizes.push(v) } }
        if h.strs.is_empty() { for s in ["A", "\u{85}", "\u{a0}", "\u{2028}", "\u{feff}", "ß", "K", "0"] { h.strs.push(s.to_string()) } }
        if h.ints.is_empty() { h.ints.push(10) }
        h
    })
}
thread_local! { static BIG: std::cell::Cell<bool> = std::cell::Cell::new(false); }

pub struct Rng(pub u64);
impl Rng {
    fn directed(&self) -> bool { !hints().sizes.is_empty() }
    /// sometimes one of the hints
    pub fn hint(&mut self) -> Option<&'static str> {
        if !self.directed() || !self.chance(1, 10) { return None; }
        let h = hints();
        if self.chance(1, 6) {
            return None;
        }
        Some(h.strs[self.below(h.strs.len())].as_str())
    }
    /// sometimes an integer near a hint
    pub fn hint_int(&mut self) -> Option<i128> {
        if !self.directed() || !self.chance(1, 10) { return None; }
        let h = hints();
        let v = h.ints[self.below(h.ints.len())] as i128 + self.below(3) as i128 - 1;
        Some(if self.chance(1, 3) { -v } else { v })
    }
    /// a size below `n`, or (once per case) near a hint
    pub fn size(&mut self, n: usize) -> usize { self.sized(n, 3000) }
    /// like `size`, for lengths of flat text, where large ones are cheap
    pub fn len(&mut self, n: usize) -> usize { self.sized(n, 70_000) }
    fn sized(&mut self, n: usize, cap: usize) -> usize {
        if self.directed() && self.chance(1, 20) {
            let h = hints();
            if !h.huge.is_empty() && self.chance(1, 60) {
                let v = h.huge[self.below(h.huge.len())] + self.below(3) - 1;
                if v <= cap && self.chance(1000, 1000 + v as u64) && !BIG.with(|b| b.replace(true)) { return v; }
            }
            let v = (h.sizes[self.below(h.sizes.len())] + self.below(3)).saturating_sub(1);
            if v < 8 { return v; }
            if !BIG.with(|b| b.replace(true)) { return v; }
        }
        self.below(n)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % (n as u64)) as usize }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.next() % den < num }
}

/// All concatenations of at most `max` tokens
pub fn enumerate<F: FnMut(&str)>(tokens: &[&str], max: usize, mut f: F) {
    fn go<F: FnMut(&str)>(tokens: &[&str], left: usize, cur: &mut String, f: &mut F) {
        f(cur);
        if left == 0 { return; }
        for t in tokens {
            let n = cur.len();
            cur.push_str(t);
            go(tokens, left - 1, cur, f);
            cur.truncate(n);
        }
    }
    go(tokens, max, &mut String::new(), &mut f)
}
/// a concatenation of the given tokens only (for text whose meaning is known by construction)
pub fn plain_concat(r: &mut Rng, tokens: &[&'static str], max: usize) -> String {
    let n = r.below(max + 1);
    let mut s = String::new();
    for _ in 0..n {
        match r.hint() {
            // a hint that cannot end the comment it stands in
            Some(h) if !h.contains('*') && !h.contains('/') => { s.push_str("/*"); s.push_str(h); s.push_str("*/"); }
            _ => s.push_str(*r.pick(tokens)),
        }
    }
    s
}
pub fn random_concat(r: &mut Rng, tokens: &[&str], max: usize) -> String {
    let n = r.size(max + 1);
    (0..n).map(|_| match r.hint() { Some(h) => h, None => *r.pick(tokens) }).collect()
}

/// outcome of a parser on complete input
#[derive(Debug, Clone, PartialEq)]
pub enum PR<'a, T> {
    Ok(&'a str, T),
    Err,
    Fail,
    /// never expected
    Incomplete,
}
impl<'a, T> PR<'a, T> {
    pub fn map<U, F: FnOnce(T) -> U>(self, f: F) -> PR<'a, U> {
        match self {
            PR::Ok(r, v) => PR::Ok(r, f(v)),
            PR::Err => PR::Err,
            PR::Fail => PR::Fail,
            PR::Incomplete => PR::Incomplete,
        }
    }
    pub fn and<U, F: FnOnce(&'a str, T) -> PR<'a, U>>(self, f: F) -> PR<'a, U> {
        match self {
            PR::Ok(r, v) => f(r, v),
            PR::Err => PR::Err,
            PR::Fail => PR::Fail,
            PR::Incomplete => PR::Incomplete,
        }
    }
    pub fn or<F: FnOnce() -> PR<'a, T>>(self, f: F) -> PR<'a, T> {
        match self { PR::Err => f(), x => x }
    }
    pub fn is_ok(&self) -> bool { if let PR::Ok(..) = self { true } else { false } }
}
use ferrous_chloride::nom;
use nom::types::CompleteStr;
pub fn real<'a, T>(r: nom::IResult<CompleteStr<'a>, T, u32>) -> PR<'a, T> {
    match r {
        Ok((i, o)) => PR::Ok(i.0, o),
        Err(nom::Err::Error(_)) => PR::Err,
        Err(nom::Err::Failure(_)) => PR::Fail,
        Err(nom::Err::Incomplete(_)) => PR::Incomplete,
    }
}
pub fn same<T: PartialEq + std::fmt::Debug>(got: PR<T>, want: PR<T>) -> Result<bool, String> {
    if got == want {
        Ok(want.is_ok())
    } else {
        Err(format!("contract requires {:?}, code returned {:?}", want, got))
    }
}
pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{}: contract requires {:?}, code gives {:?}", what, want, got)) }
}
