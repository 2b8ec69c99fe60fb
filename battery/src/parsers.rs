//! Groups for the parser properties: the reference grammar and the document generators against the real parsers.
use crate::core::*;
use crate::gram::{self, *};
use ferrous_chloride::nom::types::CompleteStr;
use ferrous_chloride::parser as rp;

fn cs(s: &str) -> CompleteStr<'_> { CompleteStr(s) }
fn st<'a>(c: CompleteStr<'a>) -> String { c.0.to_string() }

// ---------------------------------------------------------------- strings
fn one_string(ctx: &mut Ctx, s: &str) {
    ctx.case("string", s, || same(real(rp::string::string(cs(s))).map(|v| v.to_string()), gram::string(s)));
    ctx.case("string_literal", s, || same(real(rp::string::string_literal(cs(s))), gram::string_literal(s)));
}
fn one_content(ctx: &mut Ctx, s: &str) {
    ctx.case("string_literal_content", s, || same(real(rp::string::string_literal_content(cs(s))), gram::content(s, true)));
}
const STR: &[&str] = &["\"", "\\", "a", "n", "x", "u", "U", "0", "7", "8", "4", "D", "g", "é", "\n", "\r", "\\\"", "\\\\", "?", "$", "{", " ", "/*", "#"];
pub fn strings(ctx: &mut Ctx) {
    enumerate(STR, ctx.n(3, 4), |s| { one_content(ctx, s); let q = format!("\"{}\"", s); one_string(ctx, &q); one_string(ctx, s); });
    let mut r = ctx.rng("strings");
    for _ in 0..ctx.n(60_000, 800_000) {
        let s = random_concat(&mut r, STR, 12);
        one_content(ctx, &s);
        let q = format!("\"{}\"{}", s, if r.chance(1, 3) { "t" } else { "" });
        one_string(ctx, &q);
    }
    // every escape letter, every digit count
    for c in (0u32..0x3000).filter_map(std::char::from_u32) {
        let q = format!("\"\\{}\" rest", c);
        one_string(ctx, &q);
        let q = format!("\"{}\" rest", c);
        one_string(ctx, &q);
        let q = format!("\"é{}\\n{}\"", c, c);
        one_string(ctx, &q);
        let q = format!("\"\\{}41414141z\"", c);
        one_string(ctx, &q);
    }
    for v in 0..512u32 {
        for q in vec![format!("\"\\{:o}\"", v), format!("\"\\{:03o}7\"", v), format!("\"\\{:03o}8\"", v), format!("\"\\x{:x}\"", v & 255), format!("\"\\x{:02X}f\"", v & 255)] { one_string(ctx, &q) }
    }
    let mut v: u64 = 0;
    while v < 0x1_2000_0000 {
        for q in vec![format!("\"\\u{:04x}\"", v & 0xffff), format!("\"\\u{:x}g\"", v & 0xffff), format!("\"\\U{:08x}\"", v & 0xffff_ffff), format!("\"\\U{:x}zz\"", v & 0xffff_ffff), format!("\"\\U{:06X}\"", v & 0xff_ffff)] { one_string(ctx, &q) }
        v += if v < 0x1_1800 { 0x3f } else if v < 0x11_0100 { 0x7f3 } else { 0x3ff_fff1 };
    }
    for v in vec![0xd7ffu32, 0xd800, 0xdbff, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0xffffffff, 0x7fffffff, 0x80000000] {
        for q in vec![format!("\"\\u{:04x}\"", v & 0xffff), format!("\"\\U{:08x}\"", v), format!("\"a\\U{:x}b\"", v)] { one_string(ctx, &q) }
    }
    for _ in 0..ctx.n(30_000, 300_000) {
        let v = r.next() as u32 >> r.below(28);
        let k = *r.pick(&["x", "u", "U"]);
        let w = 1 + r.below(9);
        let q = format!("\"{}\\{}{:0w$x}{}\"", r.pick(&["", "é", "a"]), k, v, r.pick(&["", "1", "g", "\\n"]), w = w);
        one_string(ctx, &q);
    }
}

// ---------------------------------------------------------------- heredocs
fn one_heredoc(ctx: &mut Ctx, s: &str) {
    ctx.case("heredoc_string", s, || same(real(rp::string::heredoc_string(cs(s))).map(|v| v.to_string()), gram::heredoc(s)));
    ctx.case("string", s, || same(real(rp::string::string(cs(s))).map(|v| v.to_string()), gram::string(s)));
    ctx.case("heredoc_begin", s, || same(real(rp::string::heredoc_begin(cs(s))).map(|h| (h.identifier.0.to_string(), h.indented)), gram::heredoc_begin(s)));
}
const HD: &[&str] = &["A", "\n", " ", "\t", "\r\n", "é", "x", "AA", "<<A", "\\", "\""];
pub fn heredocs(ctx: &mut Ctx) {
    enumerate(HD, ctx.n(3, 4), |s| {
        for f in vec![format!("<<A\n{}\nA\nrest", s), format!("<<-A\n{}\n  A\n", s), format!("<<-A\r\n{}\r\n A\r\n", s), format!("<<{}", s), format!("<<A{}", s)] { one_heredoc(ctx, &f) }
    });
    let mut r = ctx.rng("heredoc");
    for _ in 0..ctx.n(60_000, 600_000) {
        let id = match r.hint() { Some(h) if h.chars().all(|c| c.is_alphanumeric() || c == '_') => h, _ => *r.pick(&["A", "EOF", "é", "A_1", "9", "TEXT", "_", "EO2F", "a_long_marker_name", "ééé", "ABCDEFGH"]) };
        let nl = *r.pick(&["\n", "\n", "\r\n"]);
        let mut s = format!("<<{}{}{}", r.pick(&["", "-"]), id, nl);
        for _ in 0..r.size(6) {
            for _ in 0..r.len(6) { s.push(' ') }
            if r.chance(1, 8) { s.push('\t') }
            for _ in 0..r.size(4) { if let Some(h) = r.hint() { s.push_str(h); continue; } s.push_str(*r.pick(&["a", "é", "A", "EOF", " ", "\t", "<<", "\"", "\\n", id])) }
            s.push_str(nl);
        }
        for _ in 0..r.len(6) { s.push_str(*r.pick(&[" ", " ", " ", "\t"])) }
        s.push_str(id);
        s.push_str(*r.pick(&["\n", "\n", "\r\n", "", "x\n", " \n"]));
        if r.chance(1, 3) { s.push_str("tail") }
        one_heredoc(ctx, &s);
        if r.chance(1, 4) { let k = (0..s.len()).filter(|k| s.is_char_boundary(*k)).collect::<Vec<_>>(); let c = *r.pick(&k); let m = s[..c].to_string(); one_heredoc(ctx, &m); }
    }
    // end-marker recogniser on its own
    let ends = ["", "\n", "\nA\n", "\n A\n", "\n\tA\r\n", "\r\n  A\n", "\nA", "\nAB\n", "\n B\n", "\n \n", "A\n", "\r A\n", "\né\n"];
    for e in ends.iter() {
        for id in ["A", "é", "B"].iter() {
            for ind in [false, true].iter() {
                let site = format!("heredoc_end {} {}", id, ind);
                ctx.case(&site, e, || same(real(rp::string::heredoc_end(cs(e), &rp::string::HereDoc { identifier: cs(id), indented: *ind })), gram::heredoc_end(e, id).map(|n| if *ind { n } else { 0 })));
            }
        }
    }
}

// ---------------------------------------------------------------- literals
fn conv<T: std::str::FromStr>(s: &str) -> Option<T> { s.parse().ok() }
/// exact value of an integer literal, saturating far outside every machine type
pub fn big(s: &str) -> Option<(bool, Option<u128>)> {
    let neg = s.starts_with('-');
    let d = s.trim_start_matches(|c| c == '+' || c == '-');
    if d.is_empty() || !d.bytes().all(|b| b'0' <= b && b <= b'9') { return None; }
    let mut v: Option<u128> = Some(0);
    for b in d.bytes() { v = v.and_then(|v| v.checked_mul(10)).and_then(|v| v.checked_add((b - b'0') as u128)); }
    Some((neg && v != Some(0), v))
}
pub fn check_number(n: &rp::number::Number, want: &Num) -> Result<(), String> {
    eq("text", n.to_string(), want.text.clone())?;
    eq("is_float", n.is_float(), want.float)?;
    eq("is_signed", n.is_signed(), !want.float)?;
    eq("is_unsigned", n.is_unsigned(), !want.float && !want.neg)?;
    let b = big(&want.text);
    macro_rules! ints { ($($t:ty, $f:ident;)*) => { $( {
        let w: Option<$t> = match b { None => None, Some((neg, v)) => v.and_then(|v| {
            let min = <$t>::min_value() as i128; let max = <$t>::max_value() as u128;
            if neg { if v <= min.wrapping_neg() as u128 && min != 0 { Some((v as i128).wrapping_neg() as $t) } else { None } } else if v <= max { Some(v as $t) } else { None } }) };
        let w = if b.is_some() && b.unwrap() == (false, Some(0)) && want.text.starts_with('-') && <$t>::min_value() as i128 == 0 { n.$f().ok().map(|_| 0) } else { w };
        eq(stringify!($f), n.$f().ok(), w)?;
    } )* } }
    ints! { u8, as_u8; u16, as_u16; u32, as_u32; u64, as_u64; u128, as_u128; i8, as_i8; i16, as_i16; i32, as_i32; i64, as_i64; i128, as_i128; }
    eq("as_f64", n.as_f64().ok().map(|f| f.to_bits()), conv::<f64>(&want.text).map(|f| f.to_bits()))?;
    eq("as_f32", n.as_f32().ok().map(|f| f.to_bits()), conv::<f32>(&want.text).map(|f| f.to_bits()))
}
fn one_number(ctx: &mut Ctx, s: &str) {
    ctx.case("number", s, || {
        let want = gram::number(s);
        match (real(rp::number::number(cs(s))), want) {
            (PR::Ok(r, n), PR::Ok(r2, w)) => { eq("remaining input", r, r2)?; check_number(&n, &w)?; Ok(true) }
            (a, b) => same(a.map(|n| n.to_string()), b.map(|n| n.text)),
        }
    });
}
const NUM: &[&str] = &["0", "7", "12", ".", "e", "E", "+", "-", "x", " "];
pub fn numbers(ctx: &mut Ctx) {
    enumerate(NUM, ctx.n(5, 6), |s| one_number(ctx, s));
    let mut r = ctx.rng("num");
    for _ in 0..ctx.n(60_000, 600_000) {
        let mut s = r.pick(&["", "", "-", "+"]).to_string();
        let digits = if r.chance(1, 4) { 45 } else { 6 };
        if let Some(i) = r.hint_int() { s.push_str(&i.abs().to_string()) }
        for _ in 0..r.len(digits) { s.push((b'0' + r.below(10) as u8) as char) }
        if r.chance(1, 2) { s.push('.'); for _ in 0..r.size(5) { s.push((b'0' + r.below(10) as u8) as char) } }
        if r.chance(1, 2) { s.push_str(*r.pick(&["e", "E"])); s.push_str(*r.pick(&["", "-", "+"])); if r.chance(1, 6) { for _ in 0..r.size(5) { s.push('0') } } for _ in 0..r.size(4) { s.push((b'0' + r.below(10) as u8) as char) } }
        s.push_str(*r.pick(&["", ",", "é", "e", ".", "]", "\n", "5"]));
        one_number(ctx, &s);
    }
    for k in 0..129u32 { for d in -2i128..3 {
        let v = if k == 128 { continue } else { (1u128 << k).wrapping_add(d as u128) };
        one_number(ctx, &format!("{}", v)); one_number(ctx, &format!("-{}", v)); one_number(ctx, &format!("+{}", v)); one_number(ctx, &format!("{}.0", v));
    } }
    one_number(ctx, "340282366920938463463374607431768211455"); one_number(ctx, "340282366920938463463374607431768211456");
}
fn one_literal(ctx: &mut Ctx, s: &str) {
    ctx.case("identifier", s, || same(real(rp::identifier::identifier(cs(s))).map(|v| v.to_string()), gram::ident(s)));
    ctx.case("boolean", s, || same(real(rp::boolean::boolean(cs(s))), gram::boolean(s)));
    ctx.case("null", s, || same(real(rp::null::null(cs(s))), gram::null(s)));
}
const LIT: &[&str] = &["true", "false", "null", "t", "rue", "a", "_", "-", "1", "é", "日", "\u{300}", " ", ".", "N", "True"];
pub fn literals(ctx: &mut Ctx) {
    enumerate(LIT, ctx.n(4, 5), |s| one_literal(ctx, s));
    if !hints().sizes.is_empty() {
        let mut r = ctx.rng("lit");
        for _ in 0..60_000 { let s = random_concat(&mut r, LIT, 6); one_literal(ctx, &s); }
        for h in hints().strs.iter() { for t in vec![h.clone(), format!("a{}", h), format!("{}a", h), format!("null{}", h), format!("true{}", h)] { one_literal(ctx, &t) } }
    }
    for c in (0u32..0x110000).filter_map(std::char::from_u32) {
        let x = c as u32;
        if x > 0x30000 && x % 61 != 0 && !ctx.thorough { continue; }
        let s = c.to_string();
        one_literal(ctx, &s);
        let s = format!("a{}b", c);
        one_literal(ctx, &s);
        if x < 0x3000 || ctx.thorough { let s = format!("{}a true", c); one_literal(ctx, &s); let s = format!("null{}", c); one_literal(ctx, &s); }
    }
}

// ---------------------------------------------------------------- documents with known meaning
pub struct Gen<'a> { pub r: &'a mut Rng }
impl<'a> Gen<'a> {
    pub fn h(&mut self) -> String {
        if self.r.chance(1, 2) { return String::new(); }
        plain_concat(self.r, &[" ", "\t", "  ", "/* c */", "/**/", "/* a\nb */", "/* = # */"], 3)
    }
    pub fn w(&mut self) -> String {
        if self.r.chance(1, 2) { return self.h(); }
        plain_concat(self.r, &[" ", "\n", "\r\n", "\t", "# c\n", "// c\r\n", "/* c\n */", "#\n", "//\n", "  \n"], 4)
    }
    /// an element end
    pub fn nl(&mut self) -> String { let h = self.h(); format!("{}{}", h, self.r.pick(&["\n", "\n", "\r\n", "# c\n", "// x = 1\n", "/* c */\n", "\n\n", "#\r\n"])) }
    pub fn id(&mut self) -> String {
        if let Some(h) = self.r.hint() { let t = match self.r.below(3) { 0 => h.to_string(), 1 => format!("a{}", h), _ => format!("{}b", h) }; if gram::ident(&t) == PR::Ok("", t.clone()) { return t; } }
        let n = self.r.len(1);
        if n > 0 { return "a".repeat(n); }
        self.id_() }
    /// an identifier for member `k` of a collection; large collections (`many`) mostly get distinct ones, so that
    /// whatever depends on the number of distinct names is reached, with a rare repetition
    fn nth_id(&mut self, many: bool, k: usize) -> String {
        if !many { return self.id(); }
        if self.r.chance(1, 40) { return format!("k{}", self.r.below(k + 1)); }
        format!("k{}", k)
    }
    fn id_(&mut self) -> String { self.r.pick(&["a", "b", "c", "foo", "_x", "a-b", "é1", "nulls", "true1", "日本", "x_", "id2"]).to_string() }
    pub fn text(&mut self) -> (String, String) {
        let (mut s, mut v) = (String::new(), String::new());
        for _ in 0..self.r.len(5) {
            if let Some(h) = self.r.hint() {
                if self.r.chance(1, 3) || h.contains(|c: char| c == '"' || c == '\\' || c == '\n' || c == '\r' || c.is_control()) {
                    for c in h.chars() { s.push_str(&format!("\\U{:08X}", c as u32)) }
                } else { s.push_str(h) }
                v.push_str(h);
                continue;
            }
            let (a, b) = *self.r.pick(&[("a", "a"), ("é", "é"), ("\\n", "\n"), ("\\\"", "\""), ("\\\\", "\\"), ("\\u00e9", "é"), ("\\U0001F600", "😀"), ("\\x41", "A"), ("\\101", "A"), (" ", " "), ("#", "#"), ("{", "{"), ("}", "}"), ("=", "="), ("/*", "/*"), (",", ",")]);
            s.push_str(a); v.push_str(b);
        }
        (s, v)
    }
    pub fn num(&mut self) -> (String, Num) {
        let sg = *self.r.pick(&["", "", "-", "+"]);
        let d = if let Some(i) = self.r.hint_int() { i.abs().to_string() } else { let n = self.r.len(1); if n > 0 { "1".repeat(n) } else { String::new() } };
        let d = if !d.is_empty() { d } else { self.num_() };
        let (f, fl) = *self.r.pick(&[("", false), ("", false), (".5", true), (".", true), ("e3", true), ("E-2", true), (".25e+1", true)]);
        // now and then any fraction and exponent
        let (f, fl) = if self.r.chance(1, 4) { let f = self.frac(); let fl = !f.is_empty(); (f, fl) } else { (f.to_string(), fl) };
        let t = format!("{}{}{}", sg, d, f);
        (t.clone(), Num { text: t, neg: sg == "-", float: fl })
    }
    fn frac(&mut self) -> String {
        let mut s = String::new();
        let r = &mut *self.r;
        if r.chance(2, 3) { s.push('.'); for _ in 0..r.size(4) { s.push((b'0' + r.below(10) as u8 * (r.below(3) as u8 + 1) % 10) as char) } }
        if r.chance(2, 3) { s.push_str(r.pick(&["e", "E", "e-", "e+", "E-"])); for _ in 0..r.below(4) { s.push('0') } let k = if r.chance(1, 9) { 500 } else { 40 }; s.push_str(&r.below(k).to_string()) }
        s
    }
    fn num_(&mut self) -> String {
        self.r.pick(&["0", "1", "12", "007", "9223372036854775807", "9223372036854775808", "18446744073709551615", "123456789012345678901234567890"]).to_string()
    }
    pub fn expr(&mut self, d: usize) -> (String, E) {
        match self.r.below(if d == 0 { 5 } else { 8 }) {
            0 => ("null".into(), E::Null),
            1 => { let (t, n) = self.num(); (t, E::Num(n)) }
            2 => if self.r.chance(1, 2) { ("true".into(), E::Bool(true)) } else { ("false".into(), E::Bool(false)) },
            3 => { let (t, v) = self.text(); (format!("\"{}\"", t), E::Str(v)) }
            4 => { let (t, v) = self.text(); (format!("\"{}\"", t), E::Str(v)) }
            5 => {
                let n = self.r.size(4);
                let mut s = format!("[{}", self.w());
                let mut v = vec![];
                for k in 0..n {
                    let (t, e) = self.expr(d - 1);
                    s.push_str(&t); s.push_str(&self.w());
                    v.push(e);
                    if k + 1 < n || self.r.chance(1, 3) { s.push(','); s.push_str(&self.w()); }
                }
                s.push(']');
                (s, E::Tup(v))
            }
            6 => {
                let n = self.r.size(4);
                let mut s = format!("{{{}", self.w());
                let mut v = vec![];
                let many = n > 6 && self.r.chance(2, 3);
                for k in 0..n {
                    let (kt, kv) = if many || self.r.chance(3, 4) { let i = self.nth_id(many, k); (i.clone(), K::Id(i)) } else { match self.r.below(3) {
                        0 => { let (t, _) = self.text(); let t = format!("\"{}\"", t); (t.clone(), K::Ex(t)) }
                        1 => { let (t, _) = self.num(); (t.clone(), K::Ex(t)) }
                        _ => { let (t, _) = self.text(); let t = format!("(\"{}\")", t); (t.clone(), K::Ex(t)) }
                    } };
                    let (t, e) = self.expr(d - 1);
                    s.push_str(&kt); s.push_str(&self.h()); s.push('='); s.push_str(&self.h()); s.push_str(&t); s.push_str(&self.h());
                    v.push((kv, e));
                    if k + 1 < n || self.r.chance(1, 3) { if self.r.chance(1, 2) { s.push(',') } else { s.push_str(*self.r.pick(&["\n", "\r\n", "# c\n", "// d\n"])) } s.push_str(&self.w()); }
                }
                s.push('}');
                (s, E::Obj(v))
            }
            _ => { let (t, e) = self.expr(d - 1); (format!("({}{}{})", self.w(), t, self.w()), e) }
        }
    }
    pub fn labels(&mut self) -> (String, Vec<L>) {
        let mut s = String::new();
        let mut v = vec![];
        for _ in 0..self.r.size(4) {
            s.push_str(*self.r.pick(&[" ", "\t", " /* l */ "]));
            if self.r.chance(1, 2) { let i = self.id(); s.push_str(&i); v.push(L::Id(i)) } else { let (t, x) = self.text(); s.push_str(&format!("\"{}\"", t)); v.push(L::Lit(x)) }
        }
        s.push_str(&self.h());
        (s, v)
    }
    pub fn attr(&mut self, d: usize) -> (String, String, E) { let i = self.id(); self.attr_(i, d) }
    fn attr_(&mut self, i: String, d: usize) -> (String, String, E) {
        if self.r.chance(1, 10) {
            // heredoc: the element must end right after the marker
            let ind = self.r.chance(1, 2);
            let (a, b) = (self.r.pick(&["", "x", "  y", "é z", " EOFX"]).to_string(), self.r.pick(&["q", "    r", "", "{"]).to_string());
            let n = if ind { 2 } else { 0 };
            return (format!("{} = <<{}EOF\n{}\n{}\n{}EOF", i, if ind { "-" } else { "" }, a, b, if ind { "  " } else { "" }), i, E::Str(gram::unindent(&format!("{}\n{}", a, b), n)));
        }
        let (t, e) = self.expr(d);
        (format!("{}{}={}{}", i, self.h(), self.h(), t), i, e)
    }
    pub fn body(&mut self, d: usize) -> (String, Vec<B>) {
        let mut s = self.w();
        let mut v = vec![];
        let n = self.r.size(4);
        let many = n > 6 && self.r.chance(2, 3);
        for k in 0..n {
            match self.r.below(if d == 0 { 2 } else { 4 }) {
                0 | 1 => { let i = self.nth_id(many, k); let (t, i, e) = self.attr_(i, if n > 6 { 1 } else { 2 }); let h = t.contains("EOF\n"); s.push_str(&t); v.push(B::Attr(i, e)); if h { s.push('\n'); s.push_str(&self.w()); continue; } }
                2 => {
                    let i = self.nth_id(many, k); let (lt, l) = self.labels();
                    let (at, a) = if self.r.chance(1, 3) { (String::new(), vec![]) } else { loop { let (t, i, e) = self.attr(1); if !t.contains("<<") { break (t, vec![B::Attr(i, e)]) } } };
                    let sp = if lt.is_empty() { self.h() } else { lt };
                    s.push_str(&format!("{}{}{{{}{}{}}}", i, sp, self.h(), at, self.h()));
                    v.push(B::Block(i, l, a));
                }
                _ => {
                    let i = self.nth_id(many, k); let (lt, l) = self.labels(); let (bt, b) = self.body(if n > 6 { 0 } else { d - 1 });
                    s.push_str(&format!("{}{}{{{}{}{}}}", i, lt, self.nl(), bt, self.h()));
                    v.push(B::Block(i, l, b));
                }
            }
            s.push_str(&self.nl());
            s.push_str(&self.w());
        }
        (s, v)
    }
    pub fn value(&mut self, d: usize) -> (String, V) {
        match self.r.below(if d == 0 { 5 } else { 7 }) {
            0 => ("null".into(), V::Null),
            1 => { let (t, n) = self.num(); let v = if n.float { V::Float(t.parse::<f64>().unwrap().to_bits()) } else { match t.parse::<i64>() { Ok(i) => V::Int(i), _ => V::Float(t.parse::<f64>().unwrap().to_bits()) } }; (t, v) }
            2 => if self.r.chance(1, 2) { ("true".into(), V::Bool(true)) } else { ("false".into(), V::Bool(false)) },
            3 | 4 => { let (t, v) = self.text(); (format!("\"{}\"", t), V::Str(v)) }
            5 => {
                let n = self.r.size(4);
                let mut s = format!("[{}", self.w());
                let mut v = vec![];
                for k in 0..n {
                    let (t, e) = self.value(d - 1);
                    s.push_str(&t); s.push_str(&self.w());
                    v.push(e);
                    if k + 1 < n || self.r.chance(1, 3) { s.push(','); s.push_str(&self.w()); }
                }
                s.push(']');
                (s, V::List(v))
            }
            _ => { let (t, m) = self.entries(d - 1, true); (format!("{{{}}}", t), V::Obj(vec![m])) }
        }
    }
    pub fn entries(&mut self, d: usize, _inner: bool) -> (String, M) {
        let mut s = self.w();
        let mut v = vec![];
        let n = self.r.size(4);
        let many = n > 6 && self.r.chance(2, 3);
        let d = if n > 6 { d.min(1) } else { d };
        for j in 0..n {
            let i = self.nth_id(many, j);
            match self.r.below(if d == 0 { 2 } else { 5 }) {
                0 | 1 if self.r.chance(1, 12) => {
                    // heredoc: a line end must follow the marker at once
                    let ind = self.r.chance(1, 2);
                    let (a, b) = (self.r.pick(&["", "x", "  y", "é z", " EOFX"]).to_string(), self.r.pick(&["q", "    r", "", "{"]).to_string());
                    s.push_str(&format!("{}{}={}<<{}EOF\n{}\n{}\n{}EOF\n", i, self.h(), self.h(), if ind { "-" } else { "" }, a, b, if ind { "  " } else { "" }));
                    s.push_str(&self.w());
                    v.push((VK::Id(i), V::Str(gram::unindent(&format!("{}\n{}", a, b), if ind { 2 } else { 0 }))));
                    continue;
                }
                0 | 1 => {
                    let (kt, k) = if self.r.chance(2, 3) { (i.clone(), VK::Id(i)) } else { let (t, x) = self.text(); (format!("\"{}\"", t), VK::Str(x)) };
                    let (t, x) = self.value(d);
                    s.push_str(&format!("{}{}={}{}{}", kt, self.h(), self.h(), t, self.h()));
                    v.push((k, x));
                }
                2 => { let (t, m) = self.entries(d - 1, true); s.push_str(&format!("{}{}{{{}}}{}", i, self.h(), t, self.h())); v.push((VK::Id(i), V::Obj(vec![m]))); }
                3 => { let (t, m) = self.entries(d - 1, true); s.push_str(&format!("{} = {{{}}}", i, t)); v.push((VK::Id(i), V::Obj(vec![m]))); }
                _ => {
                    let mut ls = vec![];
                    let mut lt = String::new();
                    for _ in 0..1 + self.r.size(3) { let (t, x) = self.text(); lt.push_str(&format!("{}\"{}\"", self.h(), t)); ls.push(x); }
                    let (t, m) = self.entries(d - 1, true);
                    s.push_str(&format!("{}{}{}{{{}}}{}", i, lt, self.h(), t, self.h()));
                    v.push((VK::Id(i), V::Block(vec![(ls, m)])));
                }
            }
            if self.r.chance(1, 3) { s.push(',') } else { s.push_str(&self.nl()) }
            s.push_str(&self.w());
        }
        (s, v)
    }
}
pub fn mutate(r: &mut Rng, s: &str, toks: &[&str]) -> String {
    let k: Vec<usize> = (0..=s.len()).filter(|k| s.is_char_boundary(*k)).collect();
    let mut out = s.to_string();
    if let Some(h) = r.hint() { let i = *r.pick(&k); out.insert_str(i, h); return out; }
    match r.below(4) {
        0 => { let i = *r.pick(&k); out.insert_str(i, *r.pick(toks)) }
        1 => { let (a, b) = (r.below(k.len()), r.below(3)); let e = (a + b).min(k.len() - 1); out.replace_range(k[a]..k[e], "") }
        2 => { let (a, b) = (r.below(k.len()), r.below(3)); let e = (a + b).min(k.len() - 1); out.replace_range(k[a]..k[e], *r.pick(toks)) }
        _ => { let i = *r.pick(&k); out.truncate(i) }
    }
    out
}

// ---------------------------------------------------------------- expressions
fn one_expr(ctx: &mut Ctx, s: &str) {
    ctx.case("expression", s, || same(real(rp::expression::expression(cs(s))).map(|e| e_of(&e)), gram::expr(s)));
}
fn one_coll(ctx: &mut Ctx, s: &str) {
    ctx.case("tuple", s, || same(real(rp::tuple::tuple(cs(s))).map(|e| e.iter().map(e_of).collect::<Vec<_>>()), gram::list(s, gram::expr)));
    ctx.case("object", s, || same(real(rp::object::object(cs(s))).map(|o| o.iter().map(|(k, e)| (k_of(k), e_of(e))).collect::<Vec<_>>()), gram::object(s)));
    ctx.case("object_body", s, || same(real(rp::object::object_body(cs(s))).map(|o| o.iter().map(|(k, e)| (k_of(k), e_of(e))).collect::<Vec<_>>()), gram::obody(s)));
    ctx.case("object_element", s, || same(real(rp::object::object_element(cs(s))).map(|(k, e)| (k_of(&k), e_of(&e))), gram::oelem(s)));
    ctx.case("object_element_identifier", s, || same(real(rp::object::object_element_identifier(cs(s))).map(|k| k_of(&k)), gram::okey(s)));
    ctx.case("object_separator", s, || same(real(rp::object::object_separator(cs(s))).map(st), gram::osep(s)));
}
pub const EXPR: &[&str] = &["[", "]", "{", "}", "(", ")", ",", "=", "a", "1", "null", "true", "\"s\"", " ", "\n", "#c\n", "/*c*/", "-", "\"\\q\"", "b = 2", "x", "<<E\nt\nE\n"];
pub fn exprs(ctx: &mut Ctx) {
    enumerate(EXPR, ctx.n(3, 4), |s| { one_expr(ctx, s); one_coll(ctx, s) });
    enumerate(EXPR, 2, |s| { for f in vec![format!("[{}]", s), format!("{{{}}}", s), format!("({})", s), format!("[1,{}]z", s), format!("{{a=1,{}}}", s), format!("{{a=1\n{}}}", s), format!("[{{{}}}]", s)] { one_expr(ctx, &f); one_coll(ctx, &f) } });
    let mut r = ctx.rng("exprs");
    for k in 0..ctx.n(40_000, 500_000) {
        let (t, e) = Gen { r: &mut r }.expr(1 + k % 4);
        ctx.case("expression", &t, || same(real(rp::expression::expression(cs(&t))).map(|e| e_of(&e)), PR::Ok("", e)));
        let t2 = format!("{}{}", t, r.pick(&["\n", " x", ",", "]", "}", ""]));
        one_expr(ctx, &t2);
        let m = mutate(&mut r, &t, EXPR);
        one_expr(ctx, &m);
        if k % 4 == 0 { one_coll(ctx, &m) }
    }
    for _ in 0..ctx.n(40_000, 400_000) { let s = random_concat(&mut r, EXPR, 12); one_expr(ctx, &s); }
}

// ---------------------------------------------------------------- bodies
fn one_body(ctx: &mut Ctx, s: &str) {
    ctx.case("body", s, || same(real(rp::body::body(cs(s))).map(|b| body_of(&b)), gram::body(s)));
    ctx.case("config_file", s, || { let g = rp::config_file(cs(s)); eq("accepted body", g.ok().map(|(r, b)| (r.0.to_string(), body_of(&b))), gram::config(s).map(|b| (String::new(), b))).map(|_| gram::config(s).is_some()) });
}
fn one_block(ctx: &mut Ctx, s: &str) {
    ctx.case("attribute", s, || same(real(rp::attribute::attribute(cs(s))).map(|(k, e)| (k.to_string(), e_of(&e))), gram::attr(s)));
    ctx.case("block_label", s, || same(real(rp::block::block_label(cs(s))).map(|l| l_of(&l)), gram::label(s)));
    ctx.case("block_labels", s, || same(real(rp::block::block_labels(cs(s))).map(|l| l.iter().map(l_of).collect::<Vec<_>>()), gram::labels(s)));
    ctx.case("one_line_block", s, || same(real(rp::block::one_line_block(cs(s))).map(|b| blk_of(&b)), gram::one_line(s)));
    ctx.case("block", s, || same(real(rp::block::block(cs(s))).map(|b| blk_of(&b)), gram::block(s)));
    ctx.case("body_element", s, || same(real(rp::body::body_element(cs(s))).map(|b| b_of(&b)), gram::element(s)));
}
pub const BODY: &[&str] = &["a", "b", "=", "1", "{", "}", "\n", " ", "\"l\"", "#c\n", "/*c*/", "a = 1", "b {}", "c {\n}", "\r\n", "d \"x\" y {\n", "[", ",", "\"\\q\"", "//"];
pub fn bodies(ctx: &mut Ctx) {
    enumerate(BODY, ctx.n(3, 4), |s| { one_body(ctx, s); one_block(ctx, s) });
    enumerate(BODY, 2, |s| { for f in vec![format!("a {{{}}}", s), format!("a \"l\" b {{\n{}}}\n", s), format!("a{}{{ b = 1 }}", s), format!("x=1{}y=2\n", s), format!("a {{\n{}\n}} \n b = 1", s)] { one_body(ctx, &f); one_block(ctx, &f) } });
    let mut r = ctx.rng("bodies");
    for k in 0..ctx.n(40_000, 500_000) {
        let (t, b) = Gen { r: &mut r }.body(k % 4);
        ctx.case("body", &t, || same(real(rp::body::body(cs(&t))).map(|b| body_of(&b)), PR::Ok("", b.clone())));
        ctx.case("parse_str", &t, || eq("body", rp::parse_str(&t).ok().map(|b| body_of(&b)), Some(b)).map(|_| true));
        let m = mutate(&mut r, &t, BODY);
        one_body(ctx, &m);
        if k % 3 == 0 { one_block(ctx, &m) }
    }
    for _ in 0..ctx.n(30_000, 300_000) { let s = random_concat(&mut r, BODY, 14); one_body(ctx, &s); one_block(ctx, &s); }
}

// ---------------------------------------------------------------- value documents
use ferrous_chloride::value as rv;
pub fn real_doc(s: &str) -> Option<M> { rv::from_str(s, None).ok().map(|m| m_of(&m)) }
fn one_doc(ctx: &mut Ctx, s: &str) {
    ctx.case("value document", s, || { let w = gram::document(s); eq("entries", real_doc(s), w.clone()).map(|_| w.is_some()) });
}
pub const VAL: &[&str] = &["a", "b", "=", "1", "{", "}", "\n", " ", "\"l\"", "#c\n", "/*c*/", "a = 1", "b {}", ",", "[", "]", "null", "true", "-.5", "\"\\q\"", "1e3"];
pub fn valdocs(ctx: &mut Ctx) {
    enumerate(VAL, ctx.n(3, 4), |s| one_doc(ctx, s));
    enumerate(VAL, 2, |s| { for f in vec![format!("a = {}", s), format!("a = [{}]", s), format!("a {{{}}}", s), format!("a \"x\" {{ {} }}\n", s), format!("a = {{\n{}\n}}", s), format!("x=1{}y=2", s), format!("\"k\"{}= 2", s)] { one_doc(ctx, &f) } });
    let mut r = ctx.rng("vals");
    for k in 0..ctx.n(40_000, 400_000) {
        let (t, m) = Gen { r: &mut r }.entries(k % 4, false);
        ctx.case("value document", &t, || eq("entries", real_doc(&t), Some(m)).map(|_| true));
        let m = mutate(&mut r, &t, VAL);
        one_doc(ctx, &m);
    }
    for _ in 0..ctx.n(30_000, 300_000) { let s = random_concat(&mut r, VAL, 12); one_doc(ctx, &s); }
    for s in ["9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "+5", "1.", ".5", "1e400", "-0", "00012", "1e-400", "99999999999999999999999999"].iter() { one_doc(ctx, &format!("a = {}", s)); one_doc(ctx, &format!("a = [{}, 1]", s)); }
}
