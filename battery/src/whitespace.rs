use crate::core::*;
use ferrous_chloride::nom::types::CompleteStr;
use ferrous_chloride::parser::whitespace as real_ws;

pub fn tag<'a>(t: &str, s: &'a str) -> PR<'a, &'a str> {
    if s.starts_with(t) { PR::Ok(&s[t.len()..], &s[..t.len()]) } else { PR::Err }
}
pub fn till<'a, F: Fn(char) -> bool>(p: F, s: &'a str) -> PR<'a, &'a str> {
    let mut n = 0;
    for c in s.chars() {
        if p(c) { break; }
        n += c.len_utf8();
    }
    PR::Ok(&s[n..], &s[..n])
}
pub fn eol<'a>(s: &'a str) -> PR<'a, &'a str> { tag("\n", s).or(|| tag("\r\n", s)) }

pub fn inline_comment<'a>(s: &'a str) -> PR<'a, &'a str> {
    tag("/*", s).and(|r, _| {
        let mut k = 0;
        loop {
            if r[k..].starts_with("*/") { return PR::Ok(&r[k + 2..], &r[..k]); }
            match r[k..].chars().next() { None => return PR::Err, Some(c) => k += c.len_utf8() }
        }
    })
}
fn comment_body<'a>(r: &'a str) -> PR<'a, &'a str> {
    till(|c| c == '\r' || c == '\n', r).and(|r2, v| eol(r2).map(|_| v))
}
pub fn hash_comment<'a>(s: &'a str) -> PR<'a, &'a str> { tag("#", s).and(|r, _| comment_body(r)) }
pub fn slash_comment<'a>(s: &'a str) -> PR<'a, &'a str> { tag("//", s).and(|r, _| comment_body(r)) }
pub fn line_comment<'a>(s: &'a str) -> PR<'a, &'a str> { hash_comment(s).or(|| slash_comment(s)) }
pub fn many0<'a, T, F: Fn(&'a str) -> PR<'a, T>>(p: F, s: &'a str, mut acc: Vec<T>) -> PR<'a, Vec<T>> {
    let mut cur = s;
    loop {
        match p(cur) {
            PR::Err => return PR::Ok(cur, acc),
            PR::Fail => return PR::Fail,
            PR::Incomplete => return PR::Incomplete,
            PR::Ok(r, v) => { if r.len() == cur.len() { return PR::Ok(cur, acc); } acc.push(v); cur = r; }
        }
    }
}
pub fn many1<'a, T, F: Fn(&'a str) -> PR<'a, T>>(p: F, s: &'a str) -> PR<'a, Vec<T>> {
    p(s).and(|r, v| many0(&p, r, vec![v]))
}
pub fn iws<'a>(s: &'a str) -> PR<'a, Vec<&'a str>> {
    many0(|s| inline_comment(s).or(|| till(|c| !(c == ' ' || c == '\t'), s)), s, vec![])
}
pub fn ws<'a>(s: &'a str) -> PR<'a, Vec<&'a str>> {
    many0(|s| line_comment(s).or(|| inline_comment(s)).or(|| till(|c| !(c == ' ' || c == '\t' || c == '\r' || c == '\n'), s)), s, vec![])
}
pub fn newline<'a>(s: &'a str) -> PR<'a, Vec<&'a str>> {
    many1(|s| line_comment(s).or(|| inline_comment(s).and(|r, v| eol(r).map(|_| v))).or(|| eol(s)), s)
}
fn strs(v: Vec<CompleteStr>) -> Vec<&str> { v.into_iter().map(|c| c.0).collect() }

fn one(ctx: &mut Ctx, s: &str) {
    let c = CompleteStr(s);
    ctx.case("inline_comment", s, || same(real(real_ws::inline_comment(c)).map(|v| v.0), inline_comment(s)));
    ctx.case("line_comment", s, || same(real(real_ws::line_comment(c)).map(|v| v.0), line_comment(s)));
    ctx.case("inline_whitespace", s, || same(real(real_ws::inline_whitespace(c)).map(strs), iws(s)).map(|_| iws(s) != PR::Ok(s, vec![])));
    ctx.case("whitespace", s, || same(real(real_ws::whitespace(c)).map(strs), ws(s)).map(|_| ws(s) != PR::Ok(s, vec![])));
    ctx.case("newline", s, || same(real(real_ws::newline(c)).map(strs), newline(s)));
}
pub const TOKENS: &[&str] = &["/*", "*/", "//", "#", "\n", "\r\n", "\r", " ", "\t", "a", "é", "*", "/"];
pub fn run(ctx: &mut Ctx) {
    let max = ctx.n(4, 5);
    enumerate(TOKENS, max, |s| one(ctx, s));
    let mut r = ctx.rng("ws");
    for _ in 0..ctx.n(60_000, 1_000_000) {
        let s = random_concat(&mut r, TOKENS, 14);
        one(ctx, &s);
    }
    // every scalar value as the only and as the inner character
    let mut x = 0u32;
    while x < 0x110000 {
        if let Some(c) = std::char::from_u32(x) {
            let s = format!("{}#{}\n/*{}*/ {} //{}\r\n", if x % 2 == 0 { "" } else { " " }, c, c, c, c);
            one(ctx, &s);
        }
        x += if x < 0x3100 { 1 } else { 97 };
    }
}
