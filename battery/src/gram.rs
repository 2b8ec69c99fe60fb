//! Reference grammar, written from the property statements.
use crate::core::*;
use crate::whitespace::{eol, iws, many0, newline, tag, till, ws};
use unic_ucd_ident::{is_id_continue, is_id_start};

#[derive(Debug, Clone, PartialEq)]
pub enum E { Null, Num(Num), Bool(bool), Str(String), Tup(Vec<E>), Obj(Vec<(K, E)>) }
#[derive(Debug, Clone, PartialEq)]
pub struct Num { pub text: String, pub neg: bool, pub float: bool }
#[derive(Debug, Clone, PartialEq)]
pub enum K { Id(String), Ex(String) }
#[derive(Debug, Clone, PartialEq)]
pub enum L { Lit(String), Id(String) }
impl L { pub fn text(&self) -> &str { match self { L::Lit(s) | L::Id(s) => s } } }
#[derive(Debug, Clone, PartialEq)]
pub enum B { Attr(String, E), Block(String, Vec<L>, Vec<B>) }

pub fn ch<'a>(c: char, s: &'a str) -> PR<'a, char> {
    match s.chars().next() { Some(x) if x == c => PR::Ok(&s[c.len_utf8()..], c), _ => PR::Err }
}
pub fn opt<'a, T>(p: PR<'a, T>, s: &'a str) -> PR<'a, Option<T>> {
    match p { PR::Ok(r, v) => PR::Ok(r, Some(v)), PR::Err => PR::Ok(s, None), PR::Fail => PR::Fail, PR::Incomplete => PR::Incomplete }
}
pub fn then<'a, T, U, F: FnOnce(&'a str) -> PR<'a, U>>(p: PR<'a, T>, f: F) -> PR<'a, U> { p.and(|r, _| f(r)) }
pub fn skip<'a, T, U, F: FnOnce(&'a str) -> PR<'a, U>>(p: PR<'a, T>, f: F) -> PR<'a, T> { p.and(|r, v| f(r).map(|_| v)) }
fn iw<'a>(s: &'a str) -> &'a str { match iws(s) { PR::Ok(r, _) => r, _ => unreachable!() } }
fn w<'a>(s: &'a str) -> &'a str { match ws(s) { PR::Ok(r, _) => r, _ => unreachable!() } }
/// apply, then skip
fn t<'a, T>(p: PR<'a, T>, f: fn(&'a str) -> &'a str) -> PR<'a, T> { p.and(|r, v| PR::Ok(f(r), v)) }

// ----- literals
pub fn null<'a>(s: &'a str) -> PR<'a, ()> { tag("null", s).map(|_| ()) }
pub fn boolean<'a>(s: &'a str) -> PR<'a, bool> { tag("true", s).map(|_| true).or(|| tag("false", s).map(|_| false)) }
pub fn ident<'a>(s: &'a str) -> PR<'a, String> {
    match s.chars().next() {
        Some(c) if is_id_start(c) || c == '_' => till(|c| !(is_id_continue(c) || c == '-'), s).map(|v| v.to_string()),
        _ => PR::Err,
    }
}
fn digits<'a>(s: &'a str) -> PR<'a, &'a str> {
    match till(|c| !('0' <= c && c <= '9'), s) { PR::Ok(_, "") => PR::Err, x => x }
}
fn sign<'a>(s: &'a str) -> (&'a str, Option<char>) {
    match s.chars().next() { Some(c) if c == '+' || c == '-' => (&s[1..], Some(c)), _ => (s, None) }
}
pub fn number<'a>(s: &'a str) -> PR<'a, Num> {
    let (r, sg) = sign(s);
    let mut float = false;
    let r = match digits(r) {
        PR::Ok(r, _) => match r.strip_prefix('.') {
            None => r,
            Some(r2) => { float = true; match digits(r2) { PR::Ok(r3, _) => r3, _ => r2 } }
        },
        _ => match r.strip_prefix('.') {
            None => return PR::Err,
            Some(r2) => { float = true; match digits(r2) { PR::Ok(r3, _) => r3, _ => return PR::Err } }
        },
    };
    let mut rest = r;
    if r.starts_with('e') || r.starts_with('E') {
        let (r2, _) = sign(&r[1..]);
        if let PR::Ok(r3, _) = digits(r2) { float = true; rest = r3; }
    }
    PR::Ok(rest, Num { text: s[..s.len() - rest.len()].to_string(), neg: sg == Some('-'), float })
}

// ----- strings
fn code<'a>(r: &'a str, radix: u32, max: usize) -> Option<(&'a str, u32)> {
    let mut v: u64 = 0;
    let mut n = 0;
    for c in r.chars() {
        if n == max { break; }
        let d = match c { '0'..='9' => c as u32 - 48, 'a'..='f' => c as u32 - 87, 'A'..='F' => c as u32 - 55, _ => break };
        if d >= radix { break; }
        v = v * radix as u64 + d as u64;
        n += 1;
    }
    if n == 0 { None } else { Some((&r[n..], v as u32)) }
}
thread_local! { /// what was left (in bytes) at the last hard failure
    pub static FAIL: std::cell::Cell<usize> = std::cell::Cell::new(0); }
fn unescape<'a>(s: &'a str) -> PR<'a, char> {
    let r = unescape1(s);
    if let PR::Fail = r { FAIL.with(|f| f.set(s.len())) }
    r
}
fn unescape1<'a>(s: &'a str) -> PR<'a, char> {
    let c = match s.chars().next() { None => return PR::Fail, Some(c) => c };
    let r = &s[c.len_utf8()..];
    let v = match c {
        'a' => '\x07', 'b' => '\x08', 'f' => '\x0c', 'n' => '\n', 'r' => '\r', 't' => '\t', 'v' => '\x0b', '\\' => '\\', '"' => '"', '?' => '?',
        '0'..='7' => { let (r, v) = code(s, 8, 3).unwrap(); return PR::Ok(r, std::char::from_u32(v).unwrap()); }
        'x' | 'u' | 'U' => {
            let n = if c == 'x' { 2 } else if c == 'u' { 4 } else { 8 };
            return match code(r, 16, n) {
                None => PR::Fail,
                Some((_, v)) if v > 0x10ffff || (v >= 0xd800 && v < 0xe000) => PR::Fail,
                Some((r, v)) => PR::Ok(r, std::char::from_u32(v).unwrap()),
            };
        }
        _ => return PR::Fail,
    };
    PR::Ok(r, v)
}
pub fn content<'a>(s: &'a str, single: bool) -> PR<'a, String> {
    let mut cur = s;
    let mut out = String::new();
    loop {
        let c = match cur.chars().next() { None => return PR::Ok(cur, out), Some(c) => c };
        if c == '"' || (single && (c == '\n' || c == '\r')) { return PR::Ok(cur, out); }
        if c == '\\' {
            if cur.len() == 1 { return PR::Err; }
            match unescape(&cur[1..]) { PR::Ok(r, v) => { out.push(v); cur = r; } PR::Fail => return PR::Fail, _ => return PR::Err }
        } else { out.push(c); cur = &cur[c.len_utf8()..]; }
    }
}
fn quoted<'a>(s: &'a str, single: bool) -> PR<'a, String> {
    tag("\"", s).and(|r, _| content(r, single)).and(|r, v| tag("\"", r).map(|_| v))
}
pub fn string_literal<'a>(s: &'a str) -> PR<'a, String> { quoted(s, true) }
pub fn unindent(s: &str, n: usize) -> String {
    let l: Vec<String> = s.split('\n').map(|l| { let mut k = 0; for c in l.chars() { if c == ' ' && k < n { k += 1 } else { break } } l[k..].to_string() }).collect();
    l.join("\n")
}
pub fn heredoc_begin<'a>(s: &'a str) -> PR<'a, (String, bool)> {
    let r = match s.strip_prefix("<<") { None => return PR::Err, Some(r) => r };
    let (r, ind) = match r.strip_prefix('-') { Some(r) => (r, true), None => (r, false) };
    till(|c| !(c.is_alphanumeric() || c == '_'), r).and(|r2, id| if id.is_empty() || !eol(r2).is_ok() { PR::Err } else { PR::Ok(r2, (id.to_string(), ind)) })
}
/// at a line end: blanks, the marker, and another line end; returns the number of blanks
pub fn heredoc_end<'a>(s: &'a str, id: &str) -> PR<'a, usize> {
    eol(s).and(|r, _| {
        let b = r.chars().take_while(|c| *c == ' ' || *c == '\t').count();
        match r[b..].strip_prefix(id) { Some(r2) if eol(r2).is_ok() => PR::Ok(r2, b), _ => PR::Err }
    })
}
pub fn heredoc<'a>(s: &'a str) -> PR<'a, String> {
    heredoc_begin(s).and(|r, (id, ind)| {
        if let PR::Ok(r2, _) = heredoc_end(r, &id) { return PR::Ok(r2, String::new()); }
        eol(r).and(|r, _| {
            for (k, _) in r.char_indices() {
                if let PR::Ok(r2, n) = heredoc_end(&r[k..], &id) { return PR::Ok(r2, unindent(&r[..k], if ind { n } else { 0 })); }
            }
            PR::Err
        })
    })
}
pub fn string<'a>(s: &'a str) -> PR<'a, String> { quoted(s, false).or(|| heredoc(s)) }

// ----- expressions
pub fn list<'a, T, F: Fn(&'a str) -> PR<'a, T>>(s: &'a str, f: F) -> PR<'a, Vec<T>> {
    ch('[', s).and(|r, _| {
        let r = w(r);
        let mut out = vec![];
        let mut cur = r;
        match f(w(r)) {
            PR::Ok(r2, v) => { out.push(v); cur = r2; }
            PR::Err => {}
            PR::Fail => return PR::Fail,
            PR::Incomplete => return PR::Incomplete,
        }
        if !out.is_empty() {
            while let PR::Ok(r2, _) = ch(',', w(cur)) {
                match f(w(r2)) { PR::Ok(r3, v) => { out.push(v); cur = r3; } PR::Err => break, PR::Fail => return PR::Fail, PR::Incomplete => return PR::Incomplete }
            }
        }
        let r = w(cur);
        let r = match ch(',', r) { PR::Ok(r2, _) => w(r2), _ => r };
        ch(']', r).map(|_| out)
    })
}
pub fn expr<'a>(s: &'a str) -> PR<'a, E> {
    null(s).map(|_| E::Null)
        .or(|| number(s).map(E::Num))
        .or(|| boolean(s).map(E::Bool))
        .or(|| string(s).map(E::Str))
        .or(|| list(s, expr).map(E::Tup))
        .or(|| object(s).map(E::Obj))
        .or(|| tag("(", w(s)).and(|r, _| t(expr(w(w(r))), w)).and(|r, v| tag(")", r).map(|_| v)))
}
pub fn okey<'a>(s: &'a str) -> PR<'a, K> {
    ident(s).map(K::Id).or(|| expr(s).and(|r, _| PR::Ok(r, K::Ex(s[..s.len() - r.len()].to_string()))))
}
fn keyed<'a, T, F: Fn(&'a str) -> PR<'a, T>>(s: &'a str, key: F) -> PR<'a, (T, E)> {
    t(key(iw(s)).and(|r, k| ch('=', iw(r)).and(|r, _| expr(iw(r))).map(|e| (k, e))), iw)
}
pub fn oelem<'a>(s: &'a str) -> PR<'a, (K, E)> { keyed(s, okey) }
pub fn osep<'a>(s: &'a str) -> PR<'a, String> {
    tag(",", s).map(|v| v.to_string()).or(|| newline(s).map(|_| String::new())).or(|| if s.starts_with('}') { PR::Ok(s, String::new()) } else { PR::Err })
}
pub fn obody<'a>(s: &'a str) -> PR<'a, Vec<(K, E)>> {
    t(many0(|s| skip(oelem(w(s)), osep), s, vec![]), w)
}
pub fn object<'a>(s: &'a str) -> PR<'a, Vec<(K, E)>> {
    ch('{', w(s)).and(|r, _| obody(w(r))).and(|r, v| ch('}', w(r)).map(|_| v))
}
pub fn attr<'a>(s: &'a str) -> PR<'a, (String, E)> { keyed(s, ident) }
pub fn label<'a>(s: &'a str) -> PR<'a, L> { ident(s).map(L::Id).or(|| string_literal(s).map(L::Lit)) }
pub fn labels<'a>(s: &'a str) -> PR<'a, Vec<L>> { many0(|s| t(label(iw(s)), iw), s, vec![]) }
fn head<'a>(s: &'a str) -> PR<'a, (String, Vec<L>)> {
    ident(iw(s)).and(|r, n| labels(iw(r)).and(|r, l| tag("{", iw(r)).map(|_| (n, l))))
}
pub fn one_line<'a>(s: &'a str) -> PR<'a, B> {
    t(head(s).and(|r, (n, l)| opt(attr(iw(r)), iw(r)).and(|r, a| tag("}", iw(r)).map(|_| B::Block(n, l, a.into_iter().map(|(k, e)| B::Attr(k, e)).collect())))), iw)
}
pub fn block<'a>(s: &'a str) -> PR<'a, B> {
    t(head(s).and(|r, (n, l)| then(newline(iw(r)), |r| body(iw(r))).and(|r, b| tag("}", iw(r)).map(|_| B::Block(n, l, b)))), iw)
}
pub fn element<'a>(s: &'a str) -> PR<'a, B> {
    attr(s).map(|(k, e)| B::Attr(k, e)).or(|| one_line(s)).or(|| block(s))
}
fn nl_or_end<'a>(s: &'a str) -> PR<'a, ()> { newline(s).map(|_| ()).or(|| if s.is_empty() { PR::Ok(s, ()) } else { PR::Err }) }
pub fn body<'a>(s: &'a str) -> PR<'a, Vec<B>> {
    t(many0(|s| skip(element(w(s)), nl_or_end), s, vec![]), w)
}
/// a configuration text: Some(body) or None for an error
pub fn config(s: &str) -> Option<Vec<B>> {
    match body(s) { PR::Ok("", v) => Some(v), _ => None }
}

// ----- value documents
#[derive(Debug, Clone, PartialEq)]
pub enum V { Null, Int(i64), Float(u64), Bool(bool), Str(String), List(Vec<V>), Obj(Vec<M>), Block(Vec<(Vec<String>, M)>) }
#[derive(Debug, Clone, PartialEq)]
pub enum VK { Id(String), Str(String) }
impl VK { pub fn text(&self) -> &str { match self { VK::Id(s) | VK::Str(s) => s } } }
pub type M = Vec<(VK, V)>;
fn vnum<'a>(s: &'a str) -> PR<'a, V> {
    number(s).and(|r, n| {
        if !n.float {
            let neg = n.text.starts_with('-');
            let d = n.text.trim_start_matches(|c| c == '+' || c == '-');
            let mut v: i128 = 0;
            let mut fits = true;
            for c in d.chars() { v = v * 10 + (c as i128 - 48); if v > (1i128 << 64) { fits = false; break; } }
            if neg { v = -v; }
            if fits && v >= i64::min_value() as i128 && v <= i64::max_value() as i128 { return PR::Ok(r, V::Int(v as i64)); }
        }
        match n.text.parse::<f64>() { Ok(f) => PR::Ok(r, V::Float(f.to_bits())), Err(_) => PR::Err }
    })
}
pub fn value<'a>(s: &'a str) -> PR<'a, V> {
    null(s).map(|_| V::Null)
        .or(|| vnum(s))
        .or(|| boolean(s).map(V::Bool))
        .or(|| string(s).map(V::Str))
        .or(|| list(s, value).map(V::List))
        .or(|| vmap(s).map(|m| V::Obj(vec![m])))
}
pub fn vmap<'a>(s: &'a str) -> PR<'a, M> {
    ch('{', w(s)).and(|r, _| ventries(w(r))).and(|r, v| ch('}', w(r)).map(|_| v))
}
fn vkey<'a>(s: &'a str) -> PR<'a, VK> { ident(s).map(VK::Id).or(|| string_literal(s).map(VK::Str)) }
fn ventry<'a>(s: &'a str) -> PR<'a, (VK, V)> {
    let s = iw(s);
    t(vkey(s).and(|r, k| ch('=', iw(r)).and(|r, _| value(iw(r))).map(|v| (k, v)))
        .or(|| ident(s).and(|r, k| opt(ch('=', iw(r)), iw(r)).and(|r, _| vmap(iw(r))).map(|m| (VK::Id(k), V::Obj(vec![m])))))
        .or(|| ident(s).and(|r, k| many0(|s| string_literal(iw(s)), r, vec![]).and(|r, l| vmap(iw(r)).map(|m| (VK::Id(k), V::Block(vec![(l, m)])))))), iw)
}
fn ventries<'a>(s: &'a str) -> PR<'a, M> {
    t(many0(|s| skip(ventry(w(s)), |r| t(tag(",", w(r)), w).map(|_| ()).or(|| nl_or_end(r))), s, vec![]), w)
}
pub fn value_body<'a>(s: &'a str) -> PR<'a, M> { ventries(s) }
pub fn document(s: &str) -> Option<M> {
    match ventries(s) { PR::Ok("", v) => Some(v), _ => None }
}

// ----- views of the real types
use ferrous_chloride::parser as rp;
pub fn vnum_of(n: &rp::number::Number) -> Num {
    Num { text: n.to_string(), neg: !n.is_float() && !n.is_unsigned() || n.starts_with('-'), float: n.is_float() }
}
pub fn e_of(e: &rp::Expression) -> E {
    use rp::expression::Expression as X;
    match e {
        X::Null => E::Null,
        X::Number(n) => E::Num(vnum_of(n)),
        X::Boolean(b) => E::Bool(*b),
        X::String(s) => E::Str(s.to_string()),
        X::Tuple(t) => E::Tup(t.iter().map(e_of).collect()),
        X::Object(o) => E::Obj(o.iter().map(|(k, e)| (k_of(k), e_of(e))).collect()),
    }
}
pub fn k_of(k: &rp::object::ObjectElementIdentifier) -> K {
    use rp::object::ObjectElementIdentifier as O;
    match k { O::Identifier(s) => K::Id(s.to_string()), O::Expression(s) => K::Ex(s.to_string()) }
}
pub fn l_of(l: &rp::block::BlockLabel) -> L {
    use rp::block::BlockLabel as O;
    match l { O::Identifier(s) => L::Id(s.to_string()), O::StringLiteral(s) => L::Lit(s.to_string()) }
}
pub fn blk_of(b: &rp::Block) -> B { B::Block(b.r#type.to_string(), b.labels.iter().map(l_of).collect(), body_of(&b.body)) }
pub fn b_of(b: &rp::body::BodyElement) -> B {
    use rp::body::BodyElement as X;
    match b { X::Attribute((n, e)) => B::Attr(n.to_string(), e_of(e)), X::Block(b) => blk_of(b) }
}
pub fn body_of(b: &rp::Body) -> Vec<B> { b.iter().map(b_of).collect() }
use ferrous_chloride::value as rv;
use ferrous_chloride::KeyValuePairs as KVP;
pub fn v_of(v: &rv::Value) -> V {
    use rv::Value as X;
    match v {
        X::Null => V::Null,
        X::Integer(i) => V::Int(*i),
        X::Float(f) => V::Float(f.to_bits()),
        X::Boolean(b) => V::Bool(*b),
        X::String(s) => V::Str(s.clone()),
        X::List(l) => V::List(l.iter().map(v_of).collect()),
        X::Object(o) => V::Obj(o.iter().map(m_of).collect()),
        X::Block(KVP::Unmerged(b)) => V::Block(b.iter().map(|(l, m)| (l.clone(), m_of(m))).collect()),
        X::Block(KVP::Merged(b)) => { let mut v: Vec<_> = b.iter().map(|(l, m)| (l.clone(), m_of(m))).collect(); v.sort_by(|a, b| a.0.cmp(&b.0)); V::Block(v) }
    }
}
pub fn m_of(m: &rv::MapValues) -> M {
    let f = |k: &dyn std::fmt::Debug, t: String| if format!("{:?}", k).starts_with("Identifier(") { VK::Id(t) } else { VK::Str(t) };
    match m {
        KVP::Unmerged(v) => v.iter().map(|(k, v)| (f(k, k.to_string()), v_of(v))).collect(),
        KVP::Merged(h) => { let mut v: Vec<_> = h.iter().map(|(k, v)| (f(k, k.to_string()), v_of(v))).collect(); v.sort_by(|a, b| a.0.text().cmp(b.0.text())); v }
    }
}
