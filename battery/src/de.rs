//! Deserialization of expressions and documents.
use crate::core::*;
use crate::gram::{self, B, E, K};
use crate::parsers::{mutate, Gen, BODY, EXPR};
use ferrous_chloride::parser as rp;
use serde::de::{Deserialize, Deserializer, Error as _, MapAccess, SeqAccess, Visitor};
use serde_derive::Deserialize;
use std::collections::BTreeMap;
use std::fmt;

/// Anything, as the deserializer presents it
#[derive(Debug, Clone, PartialEq)]
pub enum Any { Unit, Bool(bool), I(i64), U(u64), F(u64), Str(String), Seq(Vec<Any>), Map(Vec<(String, Any)>), None, Some(Box<Any>), New(Box<Any>) }
impl<'de> Deserialize<'de> for Any {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Any, D::Error> {
        struct W;
        impl<'de> Visitor<'de> for W {
            type Value = Any;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("anything") }
            fn visit_unit<X: serde::de::Error>(self) -> Result<Any, X> { Ok(Any::Unit) }
            fn visit_none<X: serde::de::Error>(self) -> Result<Any, X> { Ok(Any::None) }
            fn visit_bool<X: serde::de::Error>(self, b: bool) -> Result<Any, X> { Ok(Any::Bool(b)) }
            fn visit_i64<X: serde::de::Error>(self, b: i64) -> Result<Any, X> { Ok(Any::I(b)) }
            fn visit_u64<X: serde::de::Error>(self, b: u64) -> Result<Any, X> { Ok(Any::U(b)) }
            fn visit_f64<X: serde::de::Error>(self, b: f64) -> Result<Any, X> { Ok(Any::F(b.to_bits())) }
            fn visit_str<X: serde::de::Error>(self, b: &str) -> Result<Any, X> { Ok(Any::Str(b.to_string())) }
            fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Any, D::Error> { Ok(Any::Some(Box::new(Any::deserialize(d)?))) }
            fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Any, D::Error> { Ok(Any::New(Box::new(Any::deserialize(d)?))) }
            fn visit_seq<S: SeqAccess<'de>>(self, mut s: S) -> Result<Any, S::Error> {
                let mut v = vec![];
                let hint = s.size_hint();
                while let Some(x) = s.next_element()? { v.push(x) }
                if let Some(h) = hint { if h != v.len() { return Err(S::Error::custom("ORACLE: sequence size hint differs")); } }
                Ok(Any::Seq(v))
            }
            fn visit_map<S: MapAccess<'de>>(self, mut s: S) -> Result<Any, S::Error> {
                let mut v = vec![];
                let hint = s.size_hint();
                while let Some(k) = s.next_key()? { v.push((k, s.next_value()?)) }
                if let Some(h) = hint { if h != v.len() { return Err(S::Error::custom("ORACLE: map size hint differs")); } }
                Ok(Any::Map(v))
            }
        }
        d.deserialize_any(W)
    }
}
/// what an expression denotes; None for an error
fn denote(e: &E) -> Option<Any> {
    Some(match e {
        E::Null => Any::Unit,
        E::Bool(b) => Any::Bool(*b),
        E::Str(s) => Any::Str(s.clone()),
        E::Num(n) if n.float => Any::F(n.text.parse::<f64>().ok()?.to_bits()),
        E::Num(n) if n.neg => Any::I(n.text.parse().ok()?),
        E::Num(n) => Any::U(n.text.trim_start_matches('+').parse().ok()?),
        E::Tup(v) => Any::Seq(v.iter().map(denote).collect::<Option<_>>()?),
        E::Obj(v) => {
            let mut out: Vec<(String, Any)> = vec![];
            for (k, e) in v {
                let k = match k { K::Id(k) => k, K::Ex(_) => return None };
                if out.iter().any(|(j, _)| j == k) { return None; }
                out.push((k.clone(), denote(e)?));
            }
            Any::Map(out)
        }
    })
}
#[derive(Deserialize, Debug, PartialEq)]
struct New(u16);
#[derive(Deserialize, Debug, PartialEq)]
struct Two(i32, Any);
#[derive(Deserialize, Debug, PartialEq)]
struct UnitS;
#[derive(Deserialize, Debug, PartialEq)]
struct Rec { a: Any, b: Option<u8>, #[serde(default)] c: Vec<i16> }

fn int(e: &E) -> Option<i128> { match e { E::Num(n) if !n.float => { let v = n.text.trim_start_matches('+').parse::<i128>().ok()?; if n.neg { if v < i64::min_value() as i128 { None } else { Some(v) } } else if v > u64::max_value() as i128 { None } else { Some(v) } } _ => None } }
fn chk<T: fmt::Debug + PartialEq, X: fmt::Debug>(what: &str, got: Result<T, X>, want: Option<T>) -> Result<(), String> {
    match (&got, &want) { (Err(e), _) if format!("{:?}", e).contains("ORACLE") => Err(format!("{}: {:?}", what, e)), (Ok(g), Some(w)) if g == w => Ok(()), (Err(_), None) => Ok(()), _ => Err(format!("{}: contract requires {}, code gives {:?}", what, match &want { Some(w) => format!("{:?}", w), None => "an error".into() }, got)) }
}
fn num(a: Option<Any>) -> Option<f64> { match a { Some(Any::F(b)) => Some(f64::from_bits(b)), Some(Any::I(i)) => Some(i as f64), Some(Any::U(u)) => Some(u as f64), _ => None } }
fn rec(e: &E) -> Option<Rec> {
    let v = match e { E::Obj(v) => v, E::Tup(v) if v.len() == 3 || v.len() == 2 => return Some(Rec { a: denote(&v[0])?, b: opt8(&v[1])?, c: if v.len() == 3 { i16s(&v[2])? } else { vec![] } }), _ => return None };
    let (mut a, mut b, mut c) = (None, None, None);
    for (i, (k, x)) in v.iter().enumerate() {
        let k = match k { K::Id(k) => k, K::Ex(_) => return None };
        if v[..i].iter().any(|(j, _)| *j == K::Id(k.clone())) { return None; }
        match k.as_str() { "a" => a = Some(denote(x)?), "b" => b = Some(opt8(x)?), "c" => c = Some(i16s(x)?), _ => { denote(x)?; } }
    }
    Some(Rec { a: a?, b: b.unwrap_or(None), c: c.unwrap_or_default() })
}
fn opt8(e: &E) -> Option<Option<u8>> { if *e == E::Null { return Some(None); } let v = int(e)?; if v >= 0 && v < 256 { Some(Some(v as u8)) } else { None } }
fn i16s(e: &E) -> Option<Vec<i16>> { match e { E::Tup(v) => v.iter().map(|e| int(e).and_then(|v| if v >= -32768 && v < 32768 { Some(v as i16) } else { None })).collect(), _ => None } }
fn typed(x: &rp::Expression, e: &E) -> Result<(), String> {
    macro_rules! ints { ($($t:ty)*) => { $( chk(stringify!($t), <$t>::deserialize(x.clone()), int(e).and_then(|v| if v >= <$t>::min_value() as i128 && v <= <$t>::max_value() as i128 { Some(v as $t) } else { None }))?; )* } }
    ints!(u8 u16 u32 u64 i8 i16 i32 i64);
    let d = denote(e);
    chk("f64", f64::deserialize(x.clone()).map(|f| f.to_bits()), num(d.clone()).map(|f| f.to_bits()))?;
    chk("f32", f32::deserialize(x.clone()).map(|f| f.to_bits()), match &d { Some(Any::F(b)) => Some((f64::from_bits(*b) as f32).to_bits()), Some(Any::I(i)) => Some((*i as f32).to_bits()), Some(Any::U(i)) => Some((*i as f32).to_bits()), _ => None })?;
    chk("bool", bool::deserialize(x.clone()), if let E::Bool(b) = e { Some(*b) } else { None })?;
    chk("String", String::deserialize(x.clone()), if let E::Str(s) = e { Some(s.clone()) } else { None })?;
    chk("char", char::deserialize(x.clone()), if let E::Str(s) = e { let mut c = s.chars(); match (c.next(), c.next()) { (Some(c), None) => Some(c), _ => None } } else { None })?;
    chk("()", <()>::deserialize(x.clone()), if *e == E::Null { Some(()) } else { None })?;
    chk("unit struct", UnitS::deserialize(x.clone()), if *e == E::Null { Some(UnitS) } else { None })?;
    chk("Option", Option::<Any>::deserialize(x.clone()), if *e == E::Null { Some(None) } else { d.clone().map(Some) })?;
    chk("newtype", New::deserialize(x.clone()), int(e).and_then(|v| if v >= 0 && v < 65536 { Some(New(v as u16)) } else { None }))?;
    let tup = |n: usize| match e { E::Tup(v) if v.len() == n => v.iter().map(denote).collect::<Option<Vec<_>>>(), _ => None };
    chk("singleton", <(Any,)>::deserialize(x.clone()), tup(1).map(|v| (v[0].clone(),)))?;
    chk("quadruple", <[Any; 4]>::deserialize(x.clone()), tup(4).map(|v| [v[0].clone(), v[1].clone(), v[2].clone(), v[3].clone()]))?;
    chk("empty array", <[Any; 0]>::deserialize(x.clone()).map(|_| 0), if let E::Tup(v) = e { if v.is_empty() { Some(0) } else { None } } else { None })?;
    let seq = match &d { Some(Any::Seq(v)) => Some(v.clone()), _ => None };
    let map = match &d { Some(Any::Map(v)) => Some(v.clone()), _ => None };
    chk("optional sequence", Option::<Vec<Any>>::deserialize(x.clone()), if *e == E::Null { Some(None) } else { seq.clone().map(Some) })?;
    chk("optional map", Option::<BTreeMap<String, Any>>::deserialize(x.clone()), if *e == E::Null { Some(None) } else { map.clone().map(|v| Some(v.into_iter().collect())) })?;
    chk("optional text", Option::<String>::deserialize(x.clone()), match e { E::Null => Some(None), E::Str(s) => Some(Some(s.clone())), _ => None })?;
    let opt = |e: &E, a: Any| if *e == E::Null { None } else { Some(a) };
    chk("sequence of options", Vec::<Option<Any>>::deserialize(x.clone()), match (e, &seq) { (E::Tup(t), Some(v)) => Some(t.iter().zip(v).map(|(e, a)| opt(e, a.clone())).collect()), _ => None })?;
    chk("map of options", BTreeMap::<String, Option<Any>>::deserialize(x.clone()), match (e, &map) { (E::Obj(t), Some(v)) => Some(t.iter().zip(v).map(|((_, e), (k, a))| (k.clone(), opt(e, a.clone()))).collect()), _ => None })?;
    chk("pair", <(Any, Any)>::deserialize(x.clone()), tup(2).map(|v| (v[0].clone(), v[1].clone())))?;
    chk("array", <[Any; 3]>::deserialize(x.clone()), tup(3).map(|v| [v[0].clone(), v[1].clone(), v[2].clone()]))?;
    chk("tuple struct", Two::deserialize(x.clone()), match e { E::Tup(v) if v.len() == 2 => match (int(&v[0]), denote(&v[1])) { (Some(i), Some(a)) if i >= i32::min_value() as i128 && i <= i32::max_value() as i128 => Some(Two(i as i32, a)), _ => None }, _ => None })?;
    chk("sequence", Vec::<Any>::deserialize(x.clone()), match &d { Some(Any::Seq(v)) => Some(v.clone()), _ => None })?;
    chk("map", BTreeMap::<String, Any>::deserialize(x.clone()), match &d { Some(Any::Map(v)) => Some(v.iter().cloned().collect()), _ => None })?;
    // (a struct read from a longer tuple is left open)
    if let E::Tup(v) = e { if v.len() > 3 { return Ok(()); } }
    chk("struct", Rec::deserialize(x.clone()), rec(e))?;
    Ok(())
}
fn one_expr(ctx: &mut Ctx, s: &str) {
    ctx.case("deserialize expression", s, || {
        let e = match gram::expr(s) { PR::Ok("", e) => e, _ => return Ok(false) };
        let x = rp::Expression::parse(s).map_err(|e| format!("does not parse: {:?}", e))?;
        chk("any", Any::deserialize(x.clone()), denote(&e))?;
        typed(&x, &e)?;
        Ok(true)
    });
}
const DE: &[&str] = &["null", "true", "1", "-1", "255", "256", "-129", "1.5", "\"s\"", "\"é\"", "[", "]", "{", "}", ",", "a", "b", "c", "=", "[1, 2]", "a = 1", "\"a\" = 1", " "];
fn one_key(ctx: &mut Ctx, t: &str, id: bool) {
    ctx.case("deserialize key", t, || {
        let key = || crate::vals::pair(&if id { gram::VK::Id(t.to_string()) } else { gram::VK::Str(t.to_string()) }, ferrous_chloride::value::Value::Null).0;
        eq("anything", Any::deserialize(key()).ok(), Some(Any::Str(t.to_string())))?;
        eq("String", String::deserialize(key()).ok().as_deref(), Some(t))?;
        let mut c = t.chars();
        eq("char", char::deserialize(key()).ok(), if let (Some(x), None) = (c.next(), c.next()) { Some(x) } else { None })?;
        eq("bool", bool::deserialize(key()).is_ok(), false)?;
        eq("u64", u64::deserialize(key()).is_ok(), false)?;
        eq("Vec", Vec::<u8>::deserialize(key()).is_ok(), false)?;
        Ok(true)
    });
}
pub fn expr(ctx: &mut Ctx) {
    for t in ["", "a", "\u{e9}", "\"", "true", "1", "a b", "null", "_"].iter() { one_key(ctx, t, true); one_key(ctx, t, false) }
    for s in ["0", "+0", "-0", "127", "128", "-128", "-129", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456", "1e400", "-1e400", "1e-400", "16777217", "9007199254740993", "0.1", "1.", ".5", "007", "+5", "5e0",
        "\"x\"", "\"\"", "\"xy\"", "\"\\n\"", "<<A\nx\nA", "[]", "[1]", "[1,2]", "[1,2,]", "[1,2,3]", "[1,2,3,4]", "[null]", "[[1],[2]]", "{}", "{a=1}", "{a=1,a=2}", "{a=1,b=2,a=3}", "{a=null,b=null}", "{a=1,c=[1,-2]}", "{a=1,z=[{q=1,q=2}]}", "{\"a\"=1}", "{1=1}", "{a=1,\"a\"=1}", "[1,null,[3]]", "(1)", "([1, 2])"].iter() { one_expr(ctx, s) }
    enumerate(DE, 2, |s| { for f in vec![s.to_string(), format!("[{}]", s), format!("{{a={}}}", s), format!("{{{}}}", s), format!("[1,{}]", s), format!("{{a = 1, {}}}", s)] { one_expr(ctx, &f) } });
    let mut r = ctx.rng("deexpr");
    for k in 0..ctx.n(40_000, 400_000) {
        let (t, _) = Gen { r: &mut r }.expr(1 + k % 4);
        one_expr(ctx, &t);
        let m = mutate(&mut r, &t, EXPR);
        one_expr(ctx, &m);
        // small objects and tuples with clashing keys
        let n = r.below(5);
        let mut s = String::new();
        let obj = r.chance(1, 2);
        for _ in 0..n { if obj { s.push_str(*r.pick(&["a", "b", "c", "d", "A", "aa"])); s.push_str(" = "); } s.push_str(*r.pick(&["1", "-1", "300", "null", "true", "\"s\"", "[]", "[1, 2]", "{a = 1}", "{a = 1, a = 2}", "1.5", "99999999999999999999"])); s.push_str(", "); }
        one_expr(ctx, &if obj { format!("{{{}}}", s) } else { format!("[{}]", s) });
        // the keys of the value types
        let t = Gen { r: &mut r }.text().1;
        let t = if k % 3 == 0 { t.chars().take(1).collect() } else { t };
        one_key(ctx, &t, r.chance(1, 2));
    }
}

// ---------------------------------------------------------------- documents
/// a document as data: names to expressions or block bodies; None for an error
#[derive(Debug, Clone, PartialEq)]
enum D { Expr(Any), One(BTreeMap<String, D>), Many(Vec<BTreeMap<String, D>>) }
fn doc(b: &[B]) -> Option<BTreeMap<String, D>> {
    let mut out: BTreeMap<String, D> = BTreeMap::new();
    for e in b { if let B::Attr(k, e) = e { if out.insert(k.clone(), D::Expr(denote(e)?)).is_some() { return None; } } }
    let attrs: Vec<String> = out.keys().cloned().collect();
    for e in b {
        if let B::Block(t, l, inner) = e {
            if !l.is_empty() || attrs.contains(t) { return None; }
            let d = doc(inner)?;
            let n = match out.remove(t) { None => D::One(d), Some(D::One(f)) => D::Many(vec![f, d]), Some(D::Many(mut v)) => { v.push(d); D::Many(v) } Some(_) => unreachable!() };
            out.insert(t.clone(), n);
        }
    }
    Some(out)
}
fn to_any(d: &BTreeMap<String, D>) -> Any {
    Any::Map(d.iter().map(|(k, d)| (k.clone(), match d { D::Expr(a) => norm(a), D::One(m) => to_any(m), D::Many(v) => Any::Seq(v.iter().map(to_any).collect()) })).collect())
}
fn norm(a: &Any) -> Any {
    match a { Any::Map(v) => { let mut v: Vec<_> = v.iter().map(|(k, a)| (k.clone(), norm(a))).collect(); v.sort_by(|a, b| a.0.cmp(&b.0)); Any::Map(v) } Any::Seq(v) => Any::Seq(v.iter().map(norm).collect()), x => x.clone() }
}
#[derive(Deserialize, Debug, PartialEq)]
struct Blk { #[serde(default)] v: Option<i32> }
#[derive(Deserialize, Debug, PartialEq)]
struct Doc { n: i32, s: Option<String>, #[serde(default)] one: Option<Blk>, #[serde(default)] many: Vec<Blk> }
fn blk(b: &[B]) -> Option<Blk> {
    doc(b)?;
    let mut v = None;
    for e in b { if let B::Attr(k, x) = e { if k == "v" { v = match x { E::Null => None, x => Some(int(x).filter(|v| *v >= i32::min_value() as i128 && *v <= i32::max_value() as i128)? as i32) } } } else if let B::Block(t, ..) = e { if t == "v" { return None; } } }
    Some(Blk { v })
}
fn typed_doc(b: &[B]) -> Option<Doc> {
    doc(b)?;
    let mut d = Doc { n: 0, s: None, one: None, many: vec![] };
    let (mut n, mut one) = (false, 0);
    for e in b {
        match e {
            B::Attr(k, x) if k == "n" => { n = true; d.n = int(x).filter(|v| *v >= i32::min_value() as i128 && *v <= i32::max_value() as i128)? as i32 }
            B::Attr(k, x) if k == "s" => match x { E::Null => {} E::Str(s) => d.s = Some(s.clone()), _ => return None },
            B::Attr(k, _) if k == "one" || k == "many" => return None,
            B::Block(t, _, i) if t == "one" => { one += 1; d.one = Some(blk(i)?) }
            B::Block(t, _, i) if t == "many" => d.many.push(blk(i)?),
            B::Block(t, ..) if t == "n" || t == "s" => return None,
            _ => {}
        }
    }
    if !n || one > 1 { return None; }
    Some(d)
}
fn one_doc(ctx: &mut Ctx, s: &str) {
    ctx.case("deserialize document", s, || {
        let b = gram::config(s);
        let got: Result<Any, _> = ferrous_chloride::from_str(s);
        let want = b.as_ref().and_then(|b| doc(b));
        chk("any", got.map(|a| norm(&a)), want.as_ref().map(to_any))?;
        let got: Result<BTreeMap<String, Any>, _> = ferrous_chloride::from_str(s);
        chk("map", got.map(|m| norm(&Any::Map(m.into_iter().collect()))), want.as_ref().map(to_any))?;
        let r = ferrous_chloride::serde::de::Deserializer::from_str(s);
        eq("Deserializer::from_str accepts", r.is_ok(), b.is_some())?;
        let got: Result<BTreeMap<String, Option<Any>>, _> = ferrous_chloride::from_str(s);
        chk("map of options", got.map(|m| m.into_iter().map(|(k, a)| (k, a.map(|a| norm(&a)))).collect()), want.as_ref().map(|w| w.iter().map(|(k, d)| {
            let mut one = BTreeMap::new();
            one.insert(k.clone(), d.clone());
            let a = match to_any(&one) { Any::Map(mut v) => v.pop().unwrap().1, _ => unreachable!() };
            (k.clone(), if a == Any::Unit { None } else { Some(a) })
        }).collect::<BTreeMap<_, _>>()))?;
        if want.is_some() || b.is_none() {
            let seqs = want.as_ref().and_then(|w| w.iter().map(|(k, d)| Some((k.clone(), match d { D::One(m) => vec![to_any(m)], D::Many(v) => v.iter().map(to_any).collect(), D::Expr(Any::Seq(v)) => v.iter().map(norm).collect(), _ => return None }))).collect::<Option<BTreeMap<_, _>>>());
            let each = |m: BTreeMap<String, Vec<Any>>| m.into_iter().map(|(k, v)| (k, v.iter().map(norm).collect())).collect::<BTreeMap<_, Vec<_>>>();
            let got: Result<BTreeMap<String, Vec<Any>>, _> = ferrous_chloride::from_str(s);
            chk("map of sequences", got.map(each), seqs.clone())?;
            let nulls = want.as_ref().map(|w| w.values().any(|d| *d == D::Expr(Any::Unit))).unwrap_or(true);
            let got: Result<BTreeMap<String, Option<Vec<Any>>>, _> = ferrous_chloride::from_str(s);
            if !nulls { chk("map of optional sequences", got.map(|m| each(m.into_iter().map(|(k, v)| (k, v.unwrap_or_default())).collect())), seqs)?; }
            // (a struct only has to look at the names it knows when the rest is unsupported)
            let t: Result<Doc, _> = ferrous_chloride::from_str(s);
            // a repeated `one` block presented as a sequence may fill the struct's fields in order
            let t1 = b.as_ref().map(|b| b.iter().filter(|e| if let B::Block(t, ..) = e { t == "one" } else { false }).count()).unwrap_or(0);
            let seq = b.as_ref().map(|b| b.iter().any(|e| if let B::Attr(k, x) = e { (k == "one" || k == "many") && true || { let _ = x; false } } else { false })).unwrap_or(false);
            if t1 < 2 && !seq { chk("struct", t, b.as_ref().and_then(|b| typed_doc(b)))?; }
        }
        Ok(want.is_some())
    });
}
const DOC: &[&str] = &["n = 1\n", "n = null\n", "s = \"x\"\n", "s = null\n", "one {}\n", "one { v = 1 }\n", "one {\nv = 2\n}\n", "many {}\n", "many { v = 3 }\n", "many { v = 4 }\n", "many \"l\" {}\n", "x l { v = 1 }\n", "n {}\n", "v = 1\n", "z {\nn = 1\nn = 2\n}\n", "z { w = [1, {a = 1}] }\n", "z { w = {a = 1, a = 2} }\n", "z {\nz {}\nz { v = 1 }\n}\n", "t = 99999999999999999999\n", "N = 1\n", "One {}\n", "v_ = [1]\n"];
pub fn docs(ctx: &mut Ctx) {
    enumerate(DOC, ctx.n(3, 4), |s| one_doc(ctx, s));
    let mut r = ctx.rng("dedoc");
    for k in 0..ctx.n(20_000, 250_000) {
        let s = random_concat(&mut r, DOC, 7);
        one_doc(ctx, &s);
        let (t, _) = Gen { r: &mut r }.body(k % 4);
        one_doc(ctx, &t);
        let m = mutate(&mut r, &t, BODY);
        one_doc(ctx, &m);
    }
}
