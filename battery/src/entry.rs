//! Groups for the entry points, the error mapping and numbers from machine values.
use crate::core::*;
use crate::gram::{self, *};
use crate::parsers::{check_number, mutate, Gen};
use ferrous_chloride::nom::{self, types::CompleteStr, verbose_errors::Context, Err as NE, ErrorKind, Needed};
use ferrous_chloride::parser as rp;
use ferrous_chloride::value as rv;
use ferrous_chloride::{Error, MergeBehaviour};
use std::fmt::Debug;
use std::io::{self, Read};

fn bad_escape(e: &Error, s: &str) -> Result<(), String> {
    let want = FAIL.with(|f| f.get());
    let want = &s[s.len() - want..];
    match e { Error::InvalidUnicodeCodePoint(t) if t == want => Ok(()), e => Err(format!("contract requires InvalidUnicodeCodePoint({:?}), code gives {:?}", want, e)) }
}
fn outcome<T: Debug + PartialEq>(what: &str, s: &str, got: Result<T, Error>, want: PR<T>) -> Result<bool, String> {
    match (want, got) {
        (PR::Ok("", w), Ok(g)) => eq(what, g, w).map(|_| true),
        (PR::Fail, Err(e)) => bad_escape(&e, s).map(|_| true).map_err(|m| format!("{}: {}", what, m)),
        (PR::Ok("", w), Err(e)) => Err(format!("{}: contract requires {:?}, code gives {:?}", what, w, e)),
        (w, Ok(g)) => Err(format!("{}: contract requires an error ({:?}), code gives {:?}", what, w, g)),
        (_, Err(Error::ParseError(_))) => Ok(false),
        (w, Err(e)) => Err(format!("{}: contract requires a parse error ({:?}), code gives {:?}", what, w, e)),
    }
}
fn one_total(ctx: &mut Ctx, s: &str) {
    ctx.case("parse_str", s, || {
        let w = gram::body(s);
        outcome("parse_str", s, rp::parse_str(s).map(|b| body_of(&b)), w)
    });
    ctx.case("Expression::parse", s, || {
        let w = gram::expr(s);
        let got = rp::Expression::parse(s);
        if let (PR::Ok(r, _), Err(e)) = (&w, &got) {
            if *r != "" { return match e { Error::UnexpectedRemainingInput(t) if t == r => Ok(true), e => Err(format!("contract requires UnexpectedRemainingInput({:?}), code gives {:?}", r, e)) }; }
        }
        outcome("Expression::parse", s, got.map(|e| e_of(&e)), w)
    });
    ctx.case("value::from_str", s, || {
        let w = gram::value_body(s);
        outcome("value::from_str", s, rv::from_str(s, None).map(|b| m_of(&b)), w.clone())?;
        // merging can only fail when parsing succeeds
        let m = rv::from_str(s, Some(MergeBehaviour::Error));
        if let PR::Ok("", _) = w { match m { Ok(_) | Err(Error::IllegalMultipleEntries { .. }) | Err(Error::ErrorMergingKeys { .. }) => Ok(true), Err(e) => Err(format!("merging gives {:?}", e)) } }
        else if let Ok(m) = m { Err(format!("contract requires an error, merging gives {:?}", m)) }
        else { Ok(false) }
    });
    ctx.case("serde from_str", s, || {
        let w = gram::body(s);
        let r: Result<serde::de::IgnoredAny, _> = ferrous_chloride::from_str(s);
        match (w, r) { (PR::Ok("", _), _) => Ok(true), (w, Ok(_)) => Err(format!("contract requires an error ({:?}), code accepts", w)), (_, Err(_)) => Ok(false) }
    });
}
const TOK: &[&str] = &["a", "=", "1", "\"", "\\", "q", "\"s\"", "\"\\q\"", "{", "}", "[", "]", ",", "\n", "\r", " ", "#", "//", "/*", "*/", "<<A", "<<-A\n", "A\n", "\0", "é", "(", ")", "true", "null", "-", ".", "e", "\\uD800", "\"\\u\"", "\u{feff}", "\u{2028}"];
pub fn total(ctx: &mut Ctx) {
    enumerate(TOK, ctx.n(2, 3), |s| { one_total(ctx, s); let t = format!("a = {}\n", s); one_total(ctx, &t); });
    let mut r = ctx.rng("total");
    for k in 0..ctx.n(12_000, 120_000) {
        let s = random_concat(&mut r, TOK, 9);
        one_total(ctx, &s);
        let (t, _) = match k % 3 { 0 => { let (t, _) = Gen { r: &mut r }.body(k % 4); (t, ()) } 1 => { let (t, _) = Gen { r: &mut r }.expr(k % 4); (t, ()) } _ => { let (t, _) = Gen { r: &mut r }.entries(k % 4, false); (t, ()) } };
        one_total(ctx, &t);
        let m = mutate(&mut r, &t, TOK);
        one_total(ctx, &m);
        let t = match r.hint() { Some(h) => format!("{}{}", t, h), None => format!("{}{}", t, r.pick(TOK)) };
        one_total(ctx, &t);
    }
}

// ---------------------------------------------------------------- readers
struct Chunky<'a> { d: &'a [u8], sizes: Vec<usize>, k: usize, fail: Option<usize>, pos: usize, bufread: bool }
impl<'a> Read for Chunky<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.sizes[self.k % self.sizes.len()];
        self.k += 1;
        if n == 0 { return Err(io::Error::new(io::ErrorKind::Interrupted, "again")); }
        if let Some(f) = self.fail { if self.pos >= f { return Err(io::Error::new(io::ErrorKind::Other, "broken reader")); } }
        let mut n = n.min(b.len()).min(self.d.len() - self.pos);
        if let Some(f) = self.fail { n = n.min(f - self.pos); }
        b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        let _ = self.bufread;
        Ok(n)
    }
}
/// the kind of an outcome, comparable across entry points
fn kind<T: Debug>(r: &Result<T, Error>) -> String {
    match r { Ok(v) => format!("{:?}", v), Err(Error::IOError(e)) => format!("IO {:?}", e.kind()), Err(Error::InvalidUnicodeToParse(_)) => "invalid UTF-8".into(), Err(e) => format!("{:?}", e) }
}
fn one_entry(ctx: &mut Ctx, b: &[u8], sizes: &[usize], fail: Option<usize>) {
    let input = format!("{} sizes {:?} fail {:?}", b.iter().map(|c| std::ascii::escape_default(*c).to_string()).collect::<String>(), sizes, fail);
    let s = std::str::from_utf8(b).ok();
    macro_rules! rd { () => { Chunky { d: b, sizes: sizes.to_vec(), k: 0, fail, pos: 0, bufread: false } } }
    ctx.case("parse_slice / parse_reader", &input, || {
        let sl = rp::parse_slice(b);
        let r = rp::parse_reader(rd!());
        match s {
            Some(s) => {
                let st = rp::parse_str(s);
                eq("parse_slice", kind(&sl.map(|b| body_of(&b))), kind(&st.as_ref().map(|b| body_of(b)).map_err(clone_err)))?;
                if fail.is_some() { eq("parse_reader", kind(&r.map(|b| body_of(&b))), "IO Other".into())?; }
                else { eq("parse_reader", kind(&r.map(|b| body_of(&b))), kind(&st.as_ref().map(|b| body_of(b)).map_err(clone_err)))?; }
            }
            None => { eq("parse_slice", kind(&sl), "invalid UTF-8".into())?; match r { Err(Error::IOError(_)) => {} r => return Err(format!("parse_reader: contract requires an I/O error, code gives {:?}", r)) } }
        }
        Ok(b.len() > 0)
    });
    for m in 0..2 {
        let mb = || if m == 0 { None } else { Some(MergeBehaviour::Error) };
        ctx.case(if m == 0 { "value::from_slice / from_reader" } else { "value::from_slice / from_reader merged" }, &input, || {
            let v = |r: Result<rv::MapValues, Error>| kind(&r.map(|m| { let f = m_of(&m); (if let ferrous_chloride::KeyValuePairs::Merged(_) = m { true } else { false }, f) }));
            let sl = rv::from_slice(b, mb());
            let r = rv::from_reader(rd!(), mb());
            match s {
                Some(s) => {
                    let st = rv::from_str(s, mb());
                    // which of several merge conflicts is reported may depend on hashing
                    let st = v(st);
                    if m == 1 && (st.starts_with("Illegal") || st.starts_with("ErrorM")) { if sl.is_ok() || r.is_ok() { return Err("contract requires a merge error".into()); } return Ok(true); }
                    eq("from_slice", v(sl), st.clone())?;
                    eq("from_reader", v(r), if fail.is_some() { "IO Other".into() } else { st })?;
                }
                None => { eq("from_slice", v(sl), "invalid UTF-8".into())?; match r { Err(Error::IOError(_)) => {} r => return Err(format!("from_reader: contract requires an I/O error, code gives {:?}", r)) } }
            }
            Ok(b.len() > 0)
        });
    }
}
fn clone_err(e: &Error) -> Error {
    match e {
        Error::InvalidUnicodeCodePoint(s) => Error::InvalidUnicodeCodePoint(s.clone()),
        Error::InvalidNumber(s) => Error::InvalidNumber(s.clone()),
        Error::InvalidUnicode(s) => Error::InvalidUnicode(s.clone()),
        Error::ParseError(s) => Error::ParseError(s.clone()),
        Error::UnexpectedRemainingInput(s) => Error::UnexpectedRemainingInput(s.clone()),
        e => Error::Bug(format!("{:?}", e)),
    }
}
pub fn entry(ctx: &mut Ctx) {
    let mut r = ctx.rng("entry");
    for b in [&b""[..], b"\xff", b"a = \"\xc3\"\n", b"a = 1\n\xe2\x82", b"\xc3\xa9 = 1\n", b"a = \"\\q\"\n", b"a = 1", b"a = 1\na = 2\n", b"\xef\xbb\xbfa = 1\n", b"a = 1\n\x80", b"\xed\xa0\x80", b"# \xff\n"].iter() {
        for s in [&[1usize][..], &[4096], &[1, 0, 2], &[0, 3]].iter() { one_entry(ctx, b, s, None); for f in 0..3 { if f <= b.len() { one_entry(ctx, b, s, Some(f)) } } }
    }
    for k in 0..ctx.n(8_000, 90_000) {
        let (t, _) = match k % 2 { 0 => { let (t, _) = Gen { r: &mut r }.body(k % 4); (t, ()) } _ => { let (t, _) = Gen { r: &mut r }.entries(k % 4, false); (t, ()) } };
        let t = if r.chance(1, 3) { mutate(&mut r, &t, TOK) } else { t };
        let mut b = t.into_bytes();
        if r.chance(1, 5) && !b.is_empty() { let k = r.below(b.len()); b[k] = r.next() as u8; }
        if r.chance(1, 9) { let k = r.below(b.len() + 1); b.truncate(k); }
        let n = 1 + r.below(4);
        let mut sz: Vec<usize> = (0..n).map(|_| match r.size(1) { 0 => *r.pick(&[0, 1, 2, 3, 7, 64]), n => n }).collect();
        if sz.iter().all(|s| *s == 0) { sz.push(1); }
        let fail = if r.chance(1, 5) { Some(r.below(b.len() + 1)) } else { None };
        one_entry(ctx, &b, &sz, fail);
    }
}

// ---------------------------------------------------------------- errors
type C<'a> = CompleteStr<'a>;
fn kinds_of() -> Vec<(ErrorKind<u32>, Option<u32>)> {
    let mut v: Vec<(ErrorKind<u32>, Option<u32>)> = vec![ErrorKind::Tag, ErrorKind::Alt, ErrorKind::Char, ErrorKind::Many0, ErrorKind::Eof, ErrorKind::MapRes, ErrorKind::Not, ErrorKind::Fix].into_iter().map(|k| (k, None)).collect();
    for c in [0u32, 1, 2, 3, 4, 255, 256, 65536, std::u32::MAX, 1 << 31].iter() { v.push((ErrorKind::Custom(*c), Some(*c))) }
    v
}
fn mapped(e: &Error, code: u32, text: Option<&str>, bytes: &[u8]) -> Result<(), String> {
    let t = text.unwrap_or("UNKNOWN");
    let ok = match (code, e) {
        (0, Error::InvalidUnicodeCodePoint(x)) | (2, Error::InvalidNumber(x)) => x == t,
        (1, Error::InvalidUnicode(b)) => b == bytes,
        _ => false,
    };
    if ok { Ok(()) } else { Err(format!("code {} with text {:?}: code gives {:?}", code, t, e)) }
}
/// `list`: position and kind of each entry, innermost first
fn one_err<I, F, G, T>(ctx: &mut Ctx, what: &str, list: &[(I, (ErrorKind<u32>, Option<u32>))], as_code: bool, sev: u8, from: F, make: G, text: T)
where I: Clone + Debug + PartialEq + nom::AsBytes, F: Fn(&NE<I>) -> Error, G: Fn(NE<I>) -> NE<I, Error>, T: Fn(&I) -> Option<String> {
    let cx = || if as_code { Context::Code(list[0].0.clone(), list[0].1 .0.clone()) } else { Context::List(list.iter().map(|(i, k)| (i.clone(), k.0.clone())).collect()) };
    let er = || match sev { 0 => NE::Error(cx()), 1 => NE::Failure(cx()), _ => NE::Incomplete(Needed::Size(7)) };
    ctx.case(what, &format!("{:?}", er()), || {
        let e = from(&er());
        let code = if sev == 1 { list.iter().rev().filter_map(|(i, k)| k.1.map(|c| (i, c))).next() } else { None };
        match code {
            Some((i, c)) if c < 3 => mapped(&e, c, text(i).as_ref().map(|s| &s[..]), i.as_bytes())?,
            _ => match &e { Error::ParseError(_) => {} e => return Err(format!("contract requires a generic parse error, code gives {:?}", e)) },
        }
        let one = |k: &ErrorKind<Error>, want: &(I, (ErrorKind<u32>, Option<u32>))| -> Result<(), String> {
            match (k, want.1 .1) {
                (ErrorKind::Custom(e), Some(c)) if c < 3 => mapped(e, c, text(&want.0).as_ref().map(|s| &s[..]), want.0.as_bytes()),
                (ErrorKind::Custom(Error::ParseError(_)), _) => Ok(()),
                (k, _) => Err(format!("contract requires a generic parse error for {:?}, code gives {:?}", want, k)),
            }
        };
        let (s2, c) = match make(er()) { NE::Error(c) => (0, Some(c)), NE::Failure(c) => (1, Some(c)), NE::Incomplete(n) => { eq("needed", format!("{:?}", n), "Size(7)".into())?; (2, None) } };
        eq("severity", s2, sev)?;
        match c {
            None => {}
            Some(Context::Code(i, k)) => { eq("shape", true, as_code)?; eq("position", i, list[0].0.clone())?; one(&k, &list[0])?; }
            Some(Context::List(l)) => {
                eq("shape", false, as_code)?;
                eq("length", l.len(), list.len())?;
                for (g, w) in l.iter().zip(list.iter()) { eq("position", g.0.clone(), w.0.clone())?; one(&g.1, w)?; }
            }
        }
        Ok(code.is_some())
    });
}
/// a text of some length, of bytes and characters of every kind
fn long(r: &mut Rng) -> String {
    let n = match r.len(1) { 0 => { let k = r.below(13); 1 + r.below(1 << k) } n => n };
    let mut t = String::new();
    while t.len() < n { if t.len() > 20_000 { let k = n - t.len(); t.push_str(&"x".repeat(k)) } else { t.push_str(r.pick(&["a", "\n", "é", "日", "\\", "\"", " ", "0", "\r\n", "\u{1F600}"])) } }
    t
}
pub fn errors(ctx: &mut Ctx) {
    let ks = kinds_of();
    let texts = ["", "a", "\\uD800", "é\n", "12x", "{ }"];
    let bytes: [&[u8]; 5] = [b"", b"a", b"\xff\xfe", b"\xc3\xa9", b"a\x80"];
    let mut r = ctx.rng("errors");
    let mut run = |ctx: &mut Ctx, l: &[(usize, usize)], as_code: bool, sev: u8| {
        let ls: Vec<(C, _)> = l.iter().map(|(t, k)| (CompleteStr(texts[t % texts.len()]), ks[k % ks.len()].clone())).collect();
        one_err(ctx, "from_err_str / make_custom_err_str", &ls, as_code, sev, |e| Error::from_err_str(e), |e| Error::make_custom_err_str(e), |i: &C| Some(i.0.to_string()));
        one_err(ctx, "make_custom_error with a partial conversion", &ls, as_code, sev, |e| Error::from_err_str(e), |e| Error::make_custom_error(e, |i: &C| Some(i.0.to_string())), |i: &C| Some(i.0.to_string()));
        let lb: Vec<(&[u8], _)> = l.iter().map(|(t, k)| (bytes[t % bytes.len()], ks[k % ks.len()].clone())).collect();
        one_err(ctx, "from_err_bytes / make_custom_err_bytes", &lb, as_code, sev, |e| Error::from_err_bytes(e), |e| Error::make_custom_err_bytes(e), |i: &&[u8]| std::str::from_utf8(i).ok().map(|s| s.to_string()));
    };
    for sev in 0..3u8 { for t in 0..6 { for k in 0..ks.len() { run(ctx, &[(t, k)], true, sev); run(ctx, &[(t, k)], false, sev); for k2 in 0..ks.len() { run(ctx, &[(t, k), (t + 1, k2)], false, sev) } } } }
    for i in 0..ctx.n(4_000, 60_000) {
        // every other list has its library codes in a few places only
        let few = i % 2 == 0;
        let plain = ks.iter().filter(|k| k.1.is_none()).count();
        let n = r.size(6) + 1;
        let mut l: Vec<(usize, usize)> = (0..n).map(|_| (r.below(30), if few { r.below(plain) } else { r.below(90) })).collect();
        if few { for _ in 0..1 + r.below(2) { let k = r.below(n); l[k].1 = plain + r.below(ks.len() - plain) } }
        run(ctx, &l, false, (r.below(5) as u8 + 1) % 3);
    }
    for _ in 0..ctx.n(600, 4_000) {
        // offending texts of any length
        let t = long(&mut r);
        let k = ks[r.below(ks.len())].clone();
        let sev = (r.below(5) as u8 + 1) % 3;
        one_err(ctx, "from_err_str / make_custom_err_str", &[(CompleteStr(&t), k.clone())], sev == 0, sev, |e| Error::from_err_str(e), |e| Error::make_custom_err_str(e), |i: &C| Some(i.0.to_string()));
        let mut b = t.clone().into_bytes();
        if r.chance(1, 2) { let k = r.below(b.len()); b[k] = 0xff; }
        one_err(ctx, "from_err_bytes / make_custom_err_bytes", &[(&b[..], k)], sev == 0, sev, |e| Error::from_err_bytes(e), |e| Error::make_custom_err_bytes(e), |i: &&[u8]| std::str::from_utf8(i).ok().map(|s| s.to_string()));
    }
    run(ctx, &[], false, 0);
    run(ctx, &[], false, 1);
    ctx.case("From<io::Error>", "io", || match Error::from(io::Error::new(io::ErrorKind::Other, "x")) { Error::IOError(e) => eq("kind", e.kind(), io::ErrorKind::Other).map(|_| true), e => Err(format!("{:?}", e)) });
}

// ---------------------------------------------------------------- machine values
fn mach<T: Copy + std::fmt::Display + Debug>(ctx: &mut Ctx, what: &str, v: T, neg: bool, float: bool, back: impl Fn(&rp::number::Number) -> bool) where rp::number::Number<'static>: From<T> {
    ctx.case(what, &format!("{:?}", v), || {
        let n = rp::number::Number::from(v);
        let text = v.to_string();
        let want = Num { text: text.clone(), neg, float: float && text.contains('.') };
        check_number(&n, &want)?;
        eq("converts back to the same value", back(&n), true)?;
        eq("equals itself", n == n, true)?;
        let (rest, p) = match real(rp::number::number(CompleteStr(&text))) { PR::Ok(r, p) => (r, p), p => return Err(format!("does not parse: {:?}", p)) };
        eq("remaining", rest, "")?;
        eq("equals the literal", n == p && p == n, true)?;
        Ok(true)
    });
}
fn lit(s: &str) -> Option<rp::number::Number<'_>> { match real(rp::number::number(CompleteStr(s))) { PR::Ok("", n) => Some(n), _ => None } }
fn one_eq(ctx: &mut Ctx, a: &str, b: &str) {
    ctx.case("Number ==", &format!("{} {}", a, b), || {
        let (x, y) = match (lit(a), lit(b)) { (Some(x), Some(y)) => (x, y), _ => return Ok(false) };
        eq("reflexive", x == x && y == y && x.clone() == x, true)?;
        eq("symmetric", x == y, y == x)?;
        let ints = |s: &str| crate::parsers::big(s).and_then(|(n, v)| v.map(|v| (n, v))).filter(|(n, v)| !*n || *v <= 1u128 << 127);
        match (ints(a), ints(b)) {
            (Some(p), Some(q)) => eq("integer equality", x == y, p == q)?,
            _ => {
                if a == b { eq("same literal", x == y, true)?; }
                let (p, q) = (a.parse::<f64>().unwrap(), b.parse::<f64>().unwrap());
                let one_float = x.is_float() || y.is_float();
                if one_float && p == q { eq("same value", x == y, true)?; }
                if one_float && p.is_finite() && q.is_finite() {
                    if p * q < 0.0 { eq("different signs", x == y, false)?; }
                    let m = p.abs().max(q.abs());
                    if (p - q).abs() > m * 1e-9 && m > 1e-300 { eq("different values", x == y, false)?; }
                    if (p == 0.0) != (q == 0.0) && m > 1e-300 { eq("zero and non-zero", x == y, false)?; }
                }
            }
        }
        Ok(true)
    });
}
pub fn machine(ctx: &mut Ctx) {
    let mut r = ctx.rng("machine");
    let n = ctx.n(4_000, 60_000);
    macro_rules! ints { ($($t:ident $f:ident),*) => { $(
        let mut vs: Vec<$t> = vec![$t::min_value(), $t::max_value(), 0, 1, $t::min_value() + 1, $t::max_value() - 1, 10, 99, 100, $t::max_value() / 2, $t::max_value() / 2 + 1];
        for _ in 0..n { let x = ((r.next() as u128) << 64 | r.next() as u128) >> r.below(128); vs.push(x as $t); vs.push((x as $t).wrapping_neg()); if let Some(i) = r.hint_int() { vs.push(i as $t) } }
        #[allow(unused_comparisons)]
        for v in vs { mach(ctx, concat!("From<", stringify!($t), ">"), v, v < 0, false, |m| m.$f() == Ok(v)); }
    )* } }
    ints!(u8 as_u8, u16 as_u16, u32 as_u32, u64 as_u64, u128 as_u128, i8 as_i8, i16 as_i16, i32 as_i32, i64 as_i64, i128 as_i128);
    macro_rules! floats { ($($t:ident $u:ident $f:ident),*) => { $(
        let mut vs: Vec<$t> = vec![0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 100.25, -100.25, std::$t::MAX, std::$t::MIN, std::$t::MIN_POSITIVE, -std::$t::MIN_POSITIVE, $t::from_bits(1), -$t::from_bits(1), std::$t::EPSILON, 1e10, 1e-10, 0.1, 16777217.0];
        for _ in 0..n { vs.push($t::from_bits(r.next() as $u)); let a = r.below(100000) as $t; let b = r.below(1000) as $t; vs.push(a / (b + 1.0)); vs.push(-a / (b + 1.0)); if let Some(i) = r.hint_int() { vs.push(i as $t); vs.push(i as $t / 8.0) } }
        for v in vs { if v.is_finite() { mach(ctx, concat!("From<", stringify!($t), ">"), v, v.is_sign_negative(), true, |m| m.$f().map(|x| x.to_bits()) == Ok(v.to_bits())); } }
    )* } }
    floats!(f32 u32 as_f32, f64 u64 as_f64);
    let lits = ["0", "-0", "+0", "1", "+1", "-1", "01", "1.0", "-1.0", "1.", "1e0", "10e-1", "0.1e1", "2", "-2", "0.0", "-0.0", ".0", "0.5", ".5", "-.5", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "170141183460469231731687303715884105727", "170141183460469231731687303715884105728", "-170141183460469231731687303715884105728", "340282366920938463463374607431768211455", "-340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "999999999999999999999999999999999999999999", "-999999999999999999999999999999999999999999", "1e400", "-1e400", "1e-400", "1e308", "-1e308", "1.0000001", "100", "1e2", "100.0", "-100", "-1e2", "123456789", "123456789.0", "-123456789.0", "1.5", "-1.5"];
    for a in lits.iter() { for b in lits.iter() { one_eq(ctx, a, b) } }
    // neighbouring floats
    for k in 0..ctx.n(3_000, 30_000) {
        let x = match k % 3 { 0 => r.next() >> 1, 1 => (r.next() >> 1) >> r.below(63), _ => [0u64, 1, std::f64::MAX.to_bits(), std::f64::MIN_POSITIVE.to_bits(), std::f64::MIN_POSITIVE.to_bits() - 1, 1.0f64.to_bits(), std::f64::EPSILON.to_bits()][k as usize / 3 % 7].wrapping_sub(r.below(2) as u64) };
        let show = |x: u64| { let f = f64::from_bits(x); if f.is_nan() { "1.5".to_string() } else if f.is_infinite() { "1e309".to_string() } else { format!("{:e}", f) } };
        let (a, b) = (show(x), show(x.wrapping_add(1 << r.below(4))));
        one_eq(ctx, &a, &b);
        one_eq(ctx, &format!("-{}", a), &format!("-{}", b));
        one_eq(ctx, &a, &format!("-{}", b));
    }
    for _ in 0..ctx.n(20_000, 300_000) {
        let mut g = || { let sg = *r.pick(&["", "-", "+"]); let w = match r.hint_int() { Some(i) => i.abs().to_string(), None => (r.next() >> r.below(64)).to_string() }; let w = if r.chance(1, 9) { format!("{}{}", w, r.next()) } else { w }; let f = *r.pick(&["", "", "", ".0", ".00", "e0", ".5", "e1", "0e-1"]); format!("{}{}{}{}", sg, r.pick(&["", "", "0"]), w, f) };
        let a = g();
        let b = g();
        one_eq(ctx, &a, &b);
        let respell = |a: &str| { let d = a.trim_start_matches(|c| c == '+' || c == '-'); format!("{}0{}", &a[..a.len() - d.len()], d) };
        let big = { let k = 1 + r.below(40) as usize; let mut d = String::new(); while d.len() < k { d.push_str(&r.next().to_string()) } d.truncate(k); format!("{}{}", r.pick(&["", "-", "+"]), d) };
        one_eq(ctx, &big, &respell(&big));
        one_eq(ctx, &a, &respell(&a));
        let c = match r.below(5) { 0 => format!("{}.0", a), 1 => format!("{}e0", a), 2 => a.trim_start_matches('+').to_string(), 3 => format!("-{}", a.trim_start_matches(|c| c == '+' || c == '-')), _ => a.clone() };
        one_eq(ctx, &a, &c);
    }
}
