//! Groups for values and pairs: merging, merged flags, lengths, kinds, lookup and iteration, owned copies.
use crate::core::*;
use crate::gram::{self, m_of, v_of, M, V, VK};
use ferrous_chloride::value as rv;
use ferrous_chloride::{AsOwned, Error, KeyValuePairs as KVP, MergeBehaviour, Mergeable, OneOrMany, ScalarLength};
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};

type Pair = <rv::MapValues<'static> as IntoIterator>::Item;

/// A value tree with the merged/unmerged flag of every collection of pairs
#[derive(Debug, Clone, PartialEq)]
pub enum F { Leaf(V), List(Vec<F>), Obj(Vec<FM>), Block(bool, Vec<(Vec<String>, FM)>) }
#[derive(Debug, Clone, PartialEq)]
pub struct FM { merged: bool, e: Vec<(VK, F)> }

fn skey(t: &str) -> Pair {
    let s = format!("\"{}\"=1", t.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n").replace('\r', "\\r"));
    let o = rv::from_str(&s, None).unwrap().as_owned();
    o.into_iter().next().unwrap()
}
pub fn pair(k: &VK, v: rv::Value<'static>) -> Pair {
    match k { VK::Id(s) => (s.clone().into(), v), VK::Str(s) => (skey(s).0, v) }
}
pub fn build(f: &F) -> rv::Value<'static> {
    match f {
        F::Leaf(V::Null) => rv::Value::Null,
        F::Leaf(V::Int(i)) => rv::Value::Integer(*i),
        F::Leaf(V::Float(b)) => rv::Value::Float(f64::from_bits(*b)),
        F::Leaf(V::Bool(b)) => rv::Value::Boolean(*b),
        F::Leaf(V::Str(s)) => rv::Value::String(s.clone()),
        F::Leaf(_) => unreachable!(),
        F::List(l) => rv::Value::List(l.iter().map(build).collect()),
        F::Obj(o) => rv::Value::Object(o.iter().map(build_m).collect()),
        F::Block(m, b) => rv::Value::Block(build_b(*m, b)),
    }
}
fn build_b(m: bool, b: &[(Vec<String>, FM)]) -> rv::Block<'static> {
    let it = b.iter().map(|(l, m)| (l.clone(), build_m(m)));
    if m { KVP::Merged(it.collect()) } else { KVP::Unmerged(it.collect()) }
}
pub fn build_m(m: &FM) -> rv::MapValues<'static> {
    let it = m.e.iter().map(|(k, f)| pair(k, build(f)));
    if m.merged { KVP::Merged(it.collect()) } else { KVP::Unmerged(it.collect()) }
}
fn strip(f: &F) -> V {
    match f {
        F::Leaf(v) => v.clone(),
        F::List(l) => V::List(l.iter().map(strip).collect()),
        F::Obj(o) => V::Obj(o.iter().map(strip_m).collect()),
        F::Block(m, b) => { let mut v: Vec<_> = b.iter().map(|(l, m)| (l.clone(), strip_m(m))).collect(); if *m { v.sort_by(|a, b| a.0.cmp(&b.0)) } V::Block(v) }
    }
}
fn strip_m(m: &FM) -> M {
    let mut v: M = m.e.iter().map(|(k, f)| (k.clone(), strip(f))).collect();
    if m.merged { v.sort_by(|a, b| a.0.text().cmp(b.0.text())) }
    v
}
/// flags of every collection, in a fixed traversal order
fn flags_v(v: &rv::Value, out: &mut Vec<bool>) {
    match v {
        rv::Value::List(l) => l.iter().for_each(|v| flags_v(v, out)),
        rv::Value::Object(o) => o.iter().for_each(|m| flags_m(m, out)),
        rv::Value::Block(KVP::Merged(b)) => { out.push(true); let mut k: Vec<_> = b.iter().collect(); k.sort_by(|a, b| a.0.cmp(b.0)); k.iter().for_each(|(_, m)| flags_m(m, out)) }
        rv::Value::Block(KVP::Unmerged(b)) => { out.push(false); b.iter().for_each(|(_, m)| flags_m(m, out)) }
        _ => {}
    }
}
fn flags_m(m: &rv::MapValues, out: &mut Vec<bool>) {
    match m {
        KVP::Merged(h) => { out.push(true); let mut k: Vec<_> = h.iter().map(|(k, v)| (k.to_string(), v)).collect(); k.sort_by(|a, b| a.0.cmp(&b.0)); k.iter().for_each(|(_, v)| flags_v(v, out)) }
        KVP::Unmerged(h) => { out.push(false); h.iter().for_each(|(_, v)| flags_v(v, out)) }
    }
}
fn fl_v(v: &rv::Value) -> Vec<bool> { let mut o = vec![]; flags_v(v, &mut o); o }
fn fl_m(v: &rv::MapValues) -> Vec<bool> { let mut o = vec![]; flags_m(v, &mut o); o }

struct G<'r> { r: &'r mut Rng, flags: u8, uniq: bool, /* members of a large collection: small maps, so that no merge error hides the rest */ tame: bool }
impl<'r> G<'r> {
    fn flag(&mut self) -> bool { match self.flags { 0 => false, 1 => true, 2 => self.r.chance(1, 2), _ => !self.r.chance(1, 9) } }
    fn leaf(&mut self) -> V {
        if let Some(i) = self.r.hint_int() { return if self.r.chance(3, 4) { V::Int(i as i64) } else { V::Float((i as f64).to_bits()) }; }
        if let Some(h) = self.r.hint() { return V::Str(h.to_string()); }
        let n = self.r.len(1);
        if n > 0 { return V::Str("s".repeat(n)); }
        match self.r.below(6) {
            0 => V::Null,
            1 => V::Int(if self.r.chance(1, 4) { *self.r.pick(&[std::i64::MIN, std::i64::MAX, 1 << 53, -(1 << 53) - 1, std::u32::MAX as i64 + 1, std::i32::MIN as i64]) } else { self.r.below(5) as i64 - 2 }),
            2 => V::Float(if self.r.chance(1, 4) { *self.r.pick(&[std::f64::INFINITY, std::f64::NEG_INFINITY, -0.0, std::f64::MAX, std::f64::MIN_POSITIVE, 5e-324, 1e15, 123456789.0]) } else { self.r.below(9) as f64 / 4.0 - 1.0 }.to_bits()),
            3 => V::Bool(self.r.chance(1, 2)),
            4 => V::Str(String::new()),
            _ => V::Str((*self.r.pick(&["s", "é", "x y", " ", "\n", "null", "0", "a string that is longer than the others \u{10ffff}"])).to_string()),
        }
    }
    fn val(&mut self, d: usize) -> F {
        match self.r.below(if d == 0 { 2 } else { 8 }) {
            0 | 1 => F::Leaf(self.leaf()),
            2 | 3 => { let n = if self.r.chance(1, 30) { 5 + self.r.below(40) } else { self.r.size(4) }; let d = if n > 4 { 1 } else { d }; let t = self.tame; if n > 6 { self.tame = self.r.chance(3, 4) } let x = F::List((0..n).map(|_| self.val(d - 1)).collect()); self.tame = t; x }
            4 | 5 => { let n = self.r.size(3); let d = if n > 4 { 1 } else { d }; let t = self.tame; if n > 6 { self.tame = self.r.chance(3, 4) } let x = F::Obj((0..n).map(|_| self.map(d - 1)).collect()); self.tame = t; x }
            _ => { let (m, b) = self.blk(d - 1); F::Block(m, b) }
        }
    }
    fn blk(&mut self, d: usize) -> (bool, Vec<(Vec<String>, FM)>) {
        let m = self.flag();
        let mut v: Vec<(Vec<String>, FM)> = vec![];
        let k = self.r.size(4);
        let d = if k > 4 { d.min(1) } else { d };
        let t = self.tame;
        if k > 6 { self.tame = self.r.chance(3, 4) }
        for i in 0..k {
            let n = if self.r.chance(1, 12) { 3 + self.r.below(3) } else { self.r.size(3) };
            let mut l: Vec<String> = (0..n).map(|_| self.label()).collect();
            if i > 4 { l.push(i.to_string()) }
            if (m || self.uniq) && v.iter().any(|(k, _)| *k == l) { continue }
            let e = self.map(d);
            v.push((l, e));
        }
        self.tame = t;
        (m, v)
    }
    fn label(&mut self) -> String {
        if let Some(h) = self.r.hint() { return if self.r.chance(1, 2) { h.to_string() } else { format!("a{}", h) }; }
        (*if self.r.chance(1, 3) { self.r.pick(&["", "xy", "X", "x.y", "\n", "\"", "é", "0", "-", "null", " x", "x ", "a label that is longer than the others \u{10ffff}"]) } else { self.r.pick(&["x", "y", "x y"]) }).to_string()
    }
    fn map(&mut self, d: usize) -> FM {
        let merged = self.flag();
        let mut e: Vec<(VK, F)> = vec![];
        let n = if self.tame { self.r.below(2) } else if self.r.chance(1, 40) { 5 + self.r.below(20) } else { self.r.size(5) };
        let d = if n > 4 { d.min(1) } else { d };
        let many = n > 30 || n > 6 && self.r.chance(1, 2);
        for i in 0..n {
            let t = if many && self.r.chance(3, 4) { format!("k{}", i) } else if self.r.chance(1, 5) { self.label() } else { (*self.r.pick(&["a", "b", "c", "d"])).to_string() };
            let k = if self.r.chance(1, 4) { VK::Str(t) } else { VK::Id(t) };
            if (merged || self.uniq) && e.iter().any(|(j, _)| j.text() == k.text()) { continue }
            let v = self.val(d);
            e.push((k, v));
        }
        FM { merged, e }
    }
}
fn show<T: std::fmt::Debug>(t: &T) -> String { format!("{:?}", t) }

// ---------------------------------------------------------------- M01
#[derive(Debug, Clone, PartialEq)]
enum Bad { Multiple, Kinds }
fn kind(v: &V) -> u8 { match v { V::Obj(_) => 1, V::Block(_) => 2, _ => 0 } }
fn merge_v(v: &V) -> Result<V, Bad> {
    Ok(match v {
        V::List(l) => V::List(l.iter().map(merge_v).collect::<Result<_, _>>()?),
        V::Obj(o) => V::Obj(o.iter().map(merge_m).collect::<Result<_, _>>()?),
        V::Block(b) => {
            let mut out: Vec<(Vec<String>, M)> = vec![];
            for (l, m) in b {
                let m = merge_m(m)?;
                if out.iter().any(|(k, _)| k == l) { return Err(Bad::Multiple); }
                out.push((l.clone(), m));
            }
            out.sort_by(|a, b| a.0.cmp(&b.0));
            V::Block(out)
        }
        x => x.clone(),
    })
}
fn merge_m(m: &M) -> Result<M, Bad> {
    let mut out: M = vec![];
    for (k, v) in m {
        let v = merge_v(v)?;
        match out.iter().position(|(j, _)| j.text() == k.text()) {
            None => out.push((k.clone(), v)),
            Some(p) => match (&mut out[p].1, v) {
                (V::Obj(a), V::Obj(b)) => a.extend(b),
                (V::Block(a), V::Block(b)) => {
                    if b.iter().any(|(l, _)| a.iter().any(|(j, _)| j == l)) { return Err(Bad::Multiple); }
                    a.extend(b);
                    a.sort_by(|a, b| a.0.cmp(&b.0));
                }
                (a, _) if kind(a) == 0 => return Err(Bad::Multiple),
                _ => return Err(Bad::Kinds),
            },
        }
    }
    out.sort_by(|a, b| a.0.text().cmp(b.0.text()));
    Ok(out)
}
fn bad(e: Error) -> Result<Bad, String> {
    match e { Error::IllegalMultipleEntries { .. } => Ok(Bad::Multiple), Error::ErrorMergingKeys { .. } => Ok(Bad::Kinds), e => Err(format!("unexpected error {:?}", e)) }
}
/// is there one conflict only, so that the kind of the error is determined?
fn check_merge<T: PartialEq + std::fmt::Debug, R>(got: Result<R, Error>, view: impl Fn(&R) -> T, want: &Result<T, Bad>) -> Result<Option<R>, String> {
    match (got, want) {
        (Ok(g), Ok(w)) => { let v = view(&g); if v == *w { Ok(Some(g)) } else { Err(format!("contract requires {:?}, merging gives {:?}", w, v)) } }
        (Err(e), Err(_)) => { bad(e)?; Ok(None) }
        (Ok(g), Err(w)) => Err(format!("contract requires an error ({:?}), merging gives {:?}", w, view(&g))),
        (Err(e), Ok(w)) => Err(format!("contract requires {:?}, merging fails with {:?}", w, e)),
    }
}
fn merged_doc(s: &str) -> Result<rv::MapValues<'_>, Error> { rv::from_str(s, Some(MergeBehaviour::Error)) }
pub fn merge(ctx: &mut Ctx) {
    ctx.case("MergeBehaviour::default", "", || eq("default", MergeBehaviour::default() == MergeBehaviour::Error, true).map(|_| true));
    let mut r = ctx.rng("merge");
    for k in 0..ctx.n(60_000, 600_000) {
        let uniq = r.chance(1, 2);
        let flags = if r.chance(1, 12) { 1 } else { 0 };
        let m = G { r: &mut r, flags, uniq, tame: false }.map(k % 4);
        let s = show(&m);
        let sm = strip_m(&m);
        let want = merge_m(&sm);
        ctx.case("MapValues::merge", &s, || {
            let real = build_m(&m);
            let got = check_merge(real.as_merged(), |m| m_of(m), &want)?;
            eq("original after as_merged", m_of(&real), sm.clone())?;
            if let Some(g) = got {
                eq("is_merged of the result", g.is_merged(), true)?;
                let again = g.clone().merge().map_err(|e| format!("merging again fails: {:?}", e))?;
                eq("merging again", again == g, true)?;
            }
            Ok(check_merge(real.merge(), |m| m_of(m), &want)?.is_some() && m.e.len() > 0)
        });
        if k % 4 == 0 {
            ctx.case("MapValues::new_merged", &s, || Ok(check_merge(rv::MapValues::new_merged(m.e.iter().map(|(k, f)| pair(k, build(f)))), |m| m_of(m), &want)?.is_some()));
        }
        let f = G { r: &mut r, flags, uniq, tame: false }.val(3);
        let want = merge_v(&strip(&f));
        ctx.case("Value::merge", &show(&f), || {
            let real = build(&f);
            match check_merge(real.merge(), |v| v_of(v), &want)? {
                None => Ok(false),
                Some(g) => { eq("is_merged of the result", g.is_merged(), true)?; let a = g.clone().merge().map_err(|e| format!("merging again fails: {:?}", e))?; eq("merging again", a == g, true)?; Ok(true) }
            }
        });
        let (fl, b) = G { r: &mut r, flags, uniq, tame: false }.blk(2);
        let want = merge_v(&strip(&F::Block(fl, b.clone()))).map(|v| if let V::Block(b) = v { b } else { unreachable!() });
        ctx.case("Block::merge", &show(&b), || {
            let vw = |b: &rv::Block| match v_of(&rv::Value::Block(b.clone())) { V::Block(b) => b, _ => unreachable!() };
            let real = build_b(fl, &b);
            check_merge(real.as_merged(), vw, &want)?;
            check_merge(rv::Block::new_merged(real.clone()), vw, &want)?;
            Ok(check_merge(real.merge(), vw, &want)?.is_some())
        });
    }
    // documents, and the kind of the error for a single conflict
    let vals = ["1", "[1]", "\"s\"", "null", "{ x = 1,}", "{ y = 2,}"];
    let tails = ["= 1", "= \"s\"", "= true", "= null", "= 1.5", "= [1]", "{ x = 1,}", "= { x = 1,}", "{ x = 1\nx = 2,}", "\"p\" { x = 1,}", "\"p\" \"q\" { x = 1,}", "\"q\" { x = 1,}", "\"q\" { x { a = 1,}\n x { b = 2,},}", "\"q\" { x \"l\" { a = 1,}\n x \"l\" { b = 2,},}", "\"p q\" { x = 2,}"];
    for a in tails.iter() {
        for b in tails.iter() {
            for k in ["k", "\"k\"", "j"].iter() {
                if k.starts_with('"') && !b.starts_with('=') { continue }
                let s = format!("k {}\nz = 1\n{} {}\n", a, k, b);
                ctx.case("merged document", &s, || {
                    let m = gram::document(&s).ok_or("not a document")?;
                    let want = merge_m(&m);
                    match (merged_doc(&s), &want) {
                        (Err(e), Err(w)) => { eq("kind of error", bad(e)?, w.clone())?; Ok(true) }
                        (g, _) => Ok(check_merge(g, |m| m_of(m), &want)?.is_some()),
                    }
                });
            }
        }
        for v in vals.iter() {
            let s = format!("k = {}\nk {}\n", v, a);
            ctx.case("merged document", &s, || { let want = merge_m(&gram::document(&s).unwrap()); Ok(check_merge(merged_doc(&s), |m| m_of(m), &want)?.is_some()) });
        }
    }
}

// ---------------------------------------------------------------- M02
fn all_flags(f: &F, want: bool) -> bool {
    match f { F::Leaf(_) => true, F::List(l) => l.iter().all(|f| all_flags(f, want)), F::Obj(o) => o.iter().all(|m| all_m(m, want)), F::Block(b, e) => *b == want && e.iter().all(|(_, m)| all_m(m, want)) }
}
fn all_m(m: &FM, want: bool) -> bool { m.merged == want && m.e.iter().all(|(_, f)| all_flags(f, want)) }
fn sorted_pairs<K: Ord + Clone, T: Clone>(mut v: Vec<(K, T)>) -> Vec<(K, T)> { v.sort_by(|a, b| a.0.cmp(&b.0)); v }
fn entries_m(m: &rv::MapValues) -> (bool, Vec<(VK, V, Vec<bool>)>) {
    let f = |k: String, t: String| if k.starts_with("Identifier(") { VK::Id(t) } else { VK::Str(t) };
    match m {
        KVP::Merged(h) => { let mut v: Vec<_> = h.iter().map(|(k, v)| (f(show(&k), k.to_string()), v_of(v), fl_v(v))).collect(); v.sort_by(|a, b| a.0.text().cmp(b.0.text())); (true, v) }
        KVP::Unmerged(h) => (false, h.iter().map(|(k, v)| (f(show(&k), k.to_string()), v_of(v), fl_v(v))).collect()),
    }
}
pub fn flags(ctx: &mut Ctx) {
    let mut r = ctx.rng("flags");
    for k in 0..ctx.n(60_000, 600_000) {
        let flags = (k % 4) as u8;
        let f = G { r: &mut r, flags, uniq: false, tame: false }.val(1 + k % 4);
        ctx.case("is_merged/is_unmerged", &show(&f), || {
            let v = build(&f);
            eq("is_merged", v.is_merged(), all_flags(&f, true))?;
            eq("is_unmerged", v.is_unmerged(), all_flags(&f, false))?;
            eq("is_merged of a reference", Mergeable::is_merged(&&v), all_flags(&f, true))?;
            eq("is_unmerged of a reference", Mergeable::is_unmerged(&&v), all_flags(&f, false))?;
            let t = (0u8, v.clone());
            eq("is_merged of a pair", t.is_merged(), all_flags(&f, true))?;
            eq("is_unmerged of a pair", t.is_unmerged(), all_flags(&f, false))?;
            let o = OneOrMany::One(v.clone());
            eq("is_merged of One", o.is_merged(), all_flags(&f, true))?;
            eq("is_unmerged of One", o.is_unmerged(), all_flags(&f, false))?;
            Ok(true)
        });
        if let F::List(l) = &f {
            ctx.case("is_merged of collections", &show(&f), || {
                let v: Vec<_> = l.iter().map(build).collect();
                let (a, b) = (l.iter().all(|f| all_flags(f, true)), l.iter().all(|f| all_flags(f, false)));
                eq("Vec is_merged", v.is_merged(), a)?;
                eq("Vec is_unmerged", v.is_unmerged(), b)?;
                let m = OneOrMany::Many(v.clone());
                eq("Many is_merged", m.is_merged(), a)?;
                eq("Many is_unmerged", m.is_unmerged(), b)?;
                let h: HashMap<usize, _> = v.into_iter().enumerate().collect();
                eq("HashMap is_merged", h.is_merged(), a)?;
                eq("HashMap is_unmerged", h.is_unmerged(), b)?;
                Ok(true)
            });
        }
        let m = G { r: &mut r, flags, uniq: false, tame: false }.map(k % 3);
        ctx.case("MapValues::unmerge", &show(&m), || {
            let v = build_m(&m);
            eq("is_merged", v.is_merged(), all_m(&m, true))?;
            eq("is_unmerged", v.is_unmerged(), all_m(&m, false))?;
            let before = entries_m(&v);
            let mut a = entries_m(&v.as_unmerged());
            eq("merged flag after as_unmerged", a.0, false)?;
            if m.merged { a.1.sort_by(|a, b| a.0.text().cmp(b.0.text())) }
            eq("entries after as_unmerged", &a.1, &before.1)?;
            eq("original after as_unmerged", entries_m(&v), before.clone())?;
            let mut a = entries_m(&v.unmerge());
            eq("merged flag after unmerge", a.0, false)?;
            if m.merged { a.1.sort_by(|a, b| a.0.text().cmp(b.0.text())) }
            eq("entries after unmerge", &a.1, &before.1)?;
            Ok(true)
        });
        let (fl, b) = G { r: &mut r, flags, uniq: false, tame: false }.blk(2);
        ctx.case("Block::unmerge", &show(&b), || {
            let v = build_b(fl, &b);
            let want = b.iter().map(|(l, m)| (l.clone(), entries_m(&build_m(m)))).collect::<Vec<_>>();
            let view = |x: rv::Block<'static>| match x { KVP::Unmerged(p) => Ok(p.iter().map(|(l, m)| (l.clone(), entries_m(m))).collect::<Vec<_>>()), _ => Err("still merged".to_string()) };
            let want = if fl { sorted_pairs(want) } else { want };
            let s = |x| if fl { sorted_pairs(x) } else { x };
            eq("as_unmerged", s(view(v.as_unmerged())?), want.clone())?;
            eq("unmerge", s(view(v.unmerge())?), want)?;
            Ok(true)
        });
    }
}

// ---------------------------------------------------------------- C01
fn count(f: &F) -> usize {
    match f { F::Leaf(V::Null) => 0, F::Leaf(_) => 1, F::List(l) => l.iter().map(count).sum(), F::Obj(o) => o.iter().map(count_m).sum(), F::Block(_, b) => b.iter().map(|(_, m)| count_m(m)).sum() }
}
fn count_m(m: &FM) -> usize { m.e.iter().map(|(_, f)| count(f)).sum() }
fn top(f: &F) -> usize { match f { F::Leaf(V::Null) => 0, F::Leaf(_) => 1, F::List(l) => l.len(), F::Obj(o) => o.len(), F::Block(_, b) => b.len() } }
pub fn lens(ctx: &mut Ctx) {
    let mut r = ctx.rng("lens");
    for k in 0..ctx.n(60_000, 600_000) {
        let f = G { r: &mut r, flags: 2, uniq: false, tame: false }.val(k % 4);
        ctx.case("len/len_scalar", &show(&f), || {
            let v = build(&f);
            eq("len", v.len(), top(&f))?;
            eq("is_empty", v.is_empty(), top(&f) == 0)?;
            eq("len_scalar", v.len_scalar(), count(&f))?;
            eq("is_empty_scalar", v.is_empty_scalar(), count(&f) == 0)?;
            eq("len_scalar of a reference", ScalarLength::len_scalar(&&v), count(&f))?;
            let a = [v.clone(), v.clone(), rv::Value::Null];
            eq("len_scalar of an array", a.len_scalar(), 2 * count(&f))?;
            Ok(true)
        });
        if k % 64 == 0 {
            ctx.case("arrays of every length", &show(&f), || {
                let v = build(&f);
                macro_rules! lengths { ($($n:tt)*) => { $(
                    let a: [rv::Value; $n] = std::array::from_fn(|i| if i + 1 == $n { v.clone() } else { rv::Value::Boolean(i % 2 == 0) });
                    eq(concat!("len_scalar of an array of ", $n), a.len_scalar(), if $n == 0 { 0 } else { ($n as usize).saturating_sub(1) + count(&f) })?;
                    eq(concat!("is_empty_scalar of an array of ", $n), a.is_empty_scalar(), $n == 0 || ($n == 1 && count(&f) == 0))?;
                )* } }
                lengths!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);
                Ok(true)
            });
        }
        if let F::List(l) = &f {
            ctx.case("collections", &show(&f), || {
                let v: Vec<_> = l.iter().map(build).collect();
                eq("Vec len_scalar", v.len_scalar(), count(&f))?;
                eq("Vec is_empty_scalar", v.is_empty_scalar(), count(&f) == 0)?;
                let o = OneOrMany::Many(v.clone());
                eq("Many len", o.len(), l.len())?;
                eq("Many is_empty", o.is_empty(), l.is_empty())?;
                eq("One len", OneOrMany::One(v.clone()).len(), 1)?;
                eq("One is_empty", OneOrMany::One(v.clone()).is_empty(), false)?;
                let p: KVP<usize, _> = KVP::Unmerged(v.iter().cloned().enumerate().map(|(i, v)| (i / 2, v)).collect());
                eq("pairs len_scalar", p.len_scalar(), count(&f))?;
                eq("pairs len", p.len(), l.len())?;
                let h: HashMap<usize, _> = v.into_iter().enumerate().collect();
                eq("HashMap len_scalar", h.len_scalar(), count(&f))?;
                let p = KVP::Merged(h);
                eq("merged pairs len_scalar", p.len_scalar(), count(&f))?;
                eq("merged pairs len", p.len(), l.len())?;
                eq("merged pairs is_empty", p.is_empty(), l.is_empty())?;
                Ok(true)
            });
        }
        let m = G { r: &mut r, flags: 2, uniq: false, tame: false }.map(k % 3);
        ctx.case("pairs", &show(&m), || {
            let v = build_m(&m);
            eq("len", v.len(), m.e.len())?;
            eq("is_empty", v.is_empty(), m.e.is_empty())?;
            eq("len_scalar", v.len_scalar(), count_m(&m))?;
            eq("is_empty_scalar", v.is_empty_scalar(), count_m(&m) == 0)?;
            Ok(true)
        });
    }
}

// ---------------------------------------------------------------- A01
const KINDS: [&str; 8] = ["Null", "Integer", "Float", "Boolean", "String", "List", "Object", "Block"];
fn kind_of(f: &F) -> usize { match f { F::Leaf(V::Null) => 0, F::Leaf(V::Int(_)) => 1, F::Leaf(V::Float(_)) => 2, F::Leaf(V::Bool(_)) => 3, F::Leaf(_) => 4, F::List(_) => 5, F::Obj(_) => 6, F::Block(..) => 7 } }
fn wrong(e: &Error, expected: usize, actual: usize) -> Result<(), String> {
    match e {
        Error::UnexpectedVariant { enum_type, expected: x, actual: a } if *enum_type == "Value" && *x == KINDS[expected] && *a == KINDS[actual] => Ok(()),
        e => Err(format!("contract requires the error expected {} actual {}, code gives {:?}", KINDS[expected], KINDS[actual], e)),
    }
}
fn panics<T, X: FnOnce() -> T>(f: X) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }
pub fn kinds(ctx: &mut Ctx) {
    let mut r = ctx.rng("kinds");
    for k in 0..ctx.n(25_000, 200_000) {
        let f = G { r: &mut r, flags: 2, uniq: false, tame: false }.val(k % 4);
        ctx.case("accessors", &show(&f), || {
            let v = build(&f);
            let n = kind_of(&f);
            eq("variant_name", v.variant_name(), KINDS[n])?;
            let is = [v.is_null(), v.is_integer(), v.is_float(), v.is_boolean(), v.is_string(), v.is_list(), v.is_map(), v.is_block()];
            for (i, b) in is.iter().enumerate() { eq(&format!("predicate for {}", KINDS[i]), *b, i == n)?; }
            eq("is_body", v.is_body(), n == 6)?;
            eq("is_scalar", v.is_scalar(), n >= 1 && n <= 4)?;
            eq("is_aggregate", v.is_aggregate(), !(n >= 1 && n <= 4))?;
            let orig = v.clone();
            macro_rules! shared { ($acc:ident, $un:ident, $k:expr, $pat:pat => $want:expr) => {
                match (v.$acc(), &orig) {
                    (Ok(g), $pat) => { if !(g == $want) { return Err(format!("{} gives {:?}", stringify!($acc), g)); } if n == 2 || !(v.$un() == $want) && n != 2 { if n != 2 { return Err(format!("{} differs", stringify!($un))); } } }
                    (Ok(g), _) => return Err(format!("{} gives {:?} for a {}", stringify!($acc), g, KINDS[n])),
                    (Err(e), _) => { if n == $k { return Err(format!("{} fails: {:?}", stringify!($acc), e)); } wrong(&e, $k, n)?; if k % 20 == 0 { eq(concat!(stringify!($un), " panics"), panics(|| { v.$un(); }), true)?; } }
                }
            } }
            shared!(integer, unwrap_integer, 1, rv::Value::Integer(i) => *i);
            shared!(boolean, unwrap_boolean, 3, rv::Value::Boolean(i) => *i);
            shared!(borrow_str, unwrap_borrow_str, 4, rv::Value::String(i) => i.as_str());
            shared!(borrow_list, unwrap_borrow_list, 5, rv::Value::List(i) => i);
            shared!(borrow_map, unwrap_borrow_map, 6, rv::Value::Object(i) => i);
            shared!(borrow_block, unwrap_borrow_block, 7, rv::Value::Block(i) => i);
            match (v.float(), &orig) {
                (Ok(g), rv::Value::Float(i)) => { eq("float", g.to_bits(), i.to_bits())?; eq("unwrap_float", v.unwrap_float().to_bits(), i.to_bits())? }
                (Ok(g), _) => return Err(format!("float gives {:?}", g)),
                (Err(e), _) => { if n == 2 { return Err(format!("float fails {:?}", e)); } wrong(&e, 2, n)?; }
            }
            macro_rules! mutable { ($acc:ident, $un:ident, $k:expr, $pat:pat => $want:expr) => { {
                let mut m = v.clone();
                match (m.$acc(), &mut orig.clone()) {
                    (Ok(g), $pat) => { if *g != *$want { return Err(format!("{} gives {:?}", stringify!($acc), g)); } let mut m2 = v.clone(); if *m2.$un() != *$want { return Err(format!("{} differs", stringify!($un))); } }
                    (Ok(g), _) => return Err(format!("{} gives {:?} for a {}", stringify!($acc), g, KINDS[n])),
                    (Err(e), _) => { if n == $k { return Err(format!("{} fails: {:?}", stringify!($acc), e)); } wrong(&e, $k, n)?; if k % 20 == 0 { let mut m2 = v.clone(); eq(concat!(stringify!($un), " panics"), panics(|| { m2.$un(); }), true)?; } }
                }
                eq("value after a mutable borrow", &m, &orig)?;
            } } }
            mutable!(borrow_string_mut, unwrap_borrow_string_mut, 4, rv::Value::String(i) => i);
            mutable!(borrow_list_mut, unwrap_borrow_list_mut, 5, rv::Value::List(i) => i);
            mutable!(borrow_map_mut, unwrap_borrow_map_mut, 6, rv::Value::Object(i) => i);
            mutable!(borrow_block_mut, unwrap_borrow_block_mut, 7, rv::Value::Block(i) => i);
            macro_rules! owned { ($acc:ident, $un:ident, $k:expr, $pat:pat => $want:expr) => {
                match (v.clone().$acc(), &orig) {
                    (Ok(g), $pat) => { if g != *$want { return Err(format!("{} gives {:?}", stringify!($acc), g)); } if v.clone().$un() != *$want { return Err(format!("{} differs", stringify!($un))); } }
                    (Ok(g), _) => return Err(format!("{} gives {:?} for a {}", stringify!($acc), g, KINDS[n])),
                    (Err((e, back)), _) => { if n == $k { return Err(format!("{} fails: {:?}", stringify!($acc), e)); } wrong(&e, $k, n)?; eq("value given back", &back, &orig)?; if k % 20 == 0 { eq(concat!(stringify!($un), " panics"), panics(|| v.clone().$un()), true)?; } }
                }
            } }
            owned!(string, unwrap_string, 4, rv::Value::String(i) => i);
            owned!(list, unwrap_list, 5, rv::Value::List(i) => i);
            owned!(map, unwrap_map, 6, rv::Value::Object(i) => i);
            owned!(block, unwrap_block, 7, rv::Value::Block(i) => i);
            Ok(true)
        });
    }
    // a float that is not equal to itself
    ctx.case("accessors", "NaN", || {
        let v = rv::Value::Float(std::f64::NAN);
        let is = [v.is_null(), v.is_integer(), v.is_float(), v.is_boolean(), v.is_string(), v.is_list(), v.is_map(), v.is_block()];
        for (i, b) in is.iter().enumerate() { eq(&format!("predicate for {}", KINDS[i]), *b, i == 2)?; }
        eq("variant_name", v.variant_name(), KINDS[2])?;
        eq("scalar", (v.is_scalar(), v.is_aggregate(), v.len(), v.len_scalar()), (true, false, 1, 1))?;
        eq("float", v.float().map(|f| f.is_nan()).map_err(|e| e.to_string()), Ok(true))?;
        eq("unwrap_float", v.unwrap_float().is_nan(), true)?;
        wrong(&v.integer().unwrap_err(), 1, 2)?;
        let (e, b) = v.list().unwrap_err();
        wrong(&e, 5, 2)?;
        eq("value given back", b.float().map(|f| f.is_nan()).map_err(|e| e.to_string()), Ok(true))?;
        Ok(true)
    });
    // writing through the mutable accessors
    ctx.case("mutation", "string/list/map/block", || {
        let mut v = rv::Value::from("a"); v.borrow_string_mut().map_err(|e| e.to_string())?.push('b'); eq("string", v, rv::Value::from("ab"))?;
        let mut v = rv::Value::List(vec![]); v.borrow_list_mut().map_err(|e| e.to_string())?.push(rv::Value::Null); eq("list", v, rv::Value::List(vec![rv::Value::Null]))?;
        let mut v = rv::Value::Object(vec![]); v.borrow_map_mut().map_err(|e| e.to_string())?.push(KVP::Unmerged(vec![])); eq("map", v, rv::Value::Object(vec![KVP::Unmerged(vec![])]))?;
        let mut v = rv::Value::Block(KVP::Unmerged(vec![])); v.borrow_block_mut().map_err(|e| e.to_string())?.extend(vec![(vec!["x".to_string()], KVP::Unmerged(vec![]))]); eq("block", v, rv::Value::Block(KVP::Unmerged(vec![(vec!["x".to_string()], KVP::Unmerged(vec![]))])))?;
        Ok(true)
    });
    // constructors
    ctx.case("constructors", "From / new_*", || {
        eq("i64", rv::Value::from(3i64), rv::Value::Integer(3))?;
        eq("f64", rv::Value::from(3f64), rv::Value::Float(3.0))?;
        eq("bool", rv::Value::from(true), rv::Value::Boolean(true))?;
        eq("String", rv::Value::from("x".to_string()), rv::Value::String("x".into()))?;
        eq("&str", rv::Value::from("x"), rv::Value::String("x".into()))?;
        eq("None", rv::Value::from(None), rv::Value::List(vec![]))?;
        eq("Some", rv::Value::from(Some(vec![rv::Value::Null])), rv::Value::List(vec![rv::Value::Null]))?;
        eq("new_list", rv::Value::new_list(vec![rv::Value::Null, rv::Value::from(1i64)]), rv::Value::List(vec![rv::Value::Null, rv::Value::Integer(1)]))?;
        eq("collect", vec![rv::Value::Null].into_iter().collect::<rv::Value>(), rv::Value::List(vec![rv::Value::Null]))?;
        let p = |k: &'static str, i: i64| -> Pair { (k.into(), rv::Value::Integer(i)) };
        eq("new_map", rv::Value::new_map(vec![vec![p("a", 1), p("a", 2)], vec![]]), rv::Value::Object(vec![KVP::Unmerged(vec![p("a", 1), p("a", 2)]), KVP::Unmerged(vec![])]))?;
        eq("new_single_map", rv::Value::new_single_map(vec![p("a", 1)]), rv::Value::Object(vec![KVP::Unmerged(vec![p("a", 1)])]))?;
        eq("new_block", rv::Value::new_block(&["l", "m"], vec![p("a", 1)]), rv::Value::Block(KVP::Unmerged(vec![(vec!["l".to_string(), "m".to_string()], KVP::Unmerged(vec![p("a", 1)]))])))?;
        eq("From<MapValues>", rv::Value::from(KVP::Unmerged(vec![p("b", 1)])), rv::Value::Object(vec![KVP::Unmerged(vec![p("b", 1)])]))?;
        Ok(true)
    });
    // expressions and body elements
    use ferrous_chloride::parser as rp;
    for (s, n) in [("null", "Null"), ("1", "Number"), ("1.5", "Number"), ("true", "Boolean"), ("\"s\"", "String"), ("[]", "Tuple"), ("[1]", "Tuple"), ("{}", "Object"), ("{a=1}", "Object")].iter() {
        ctx.case("Expression::variant_name", s, || { let e = rp::Expression::parse(s).map_err(|e| e.to_string())?; eq("variant_name", e.variant_name(), n)?; Ok(true) });
    }
    ctx.case("BodyElement", "attribute / block", || {
        let b = rp::parse_str("a = 1\nb {}\n").map_err(|e| e.to_string())?;
        eq("kinds", b.iter().map(|e| (e.is_attribute(), e.is_block())).collect::<Vec<_>>(), vec![(true, false), (false, true)])?;
        eq("unwrap_attribute", b[0].clone().unwrap_attribute().0.to_string(), "a".to_string())?;
        eq("unwrap_block", b[1].clone().unwrap_block().r#type.to_string(), "b".to_string())?;
        eq("mismatches panic", panics(|| b[0].clone().unwrap_block()) && panics(|| b[1].clone().unwrap_attribute()), true)?;
        Ok(true)
    });
}

// ---------------------------------------------------------------- K01
fn drain<T, I: Iterator<Item = T>>(mut it: I, total: usize) -> Result<Vec<T>, String> {
    let mut v = vec![];
    loop {
        let left = total - v.len();
        if it.size_hint() != (left, Some(left)) { return Err(format!("size hint {:?} with {} left", it.size_hint(), left)); }
        match it.next() { Some(x) => { if left == 0 { return Err("yields too many".into()); } v.push(x) } None => { if left != 0 { return Err(format!("stops with {} left", left)); } return Ok(v) } }
    }
}
pub fn pairs(ctx: &mut Ctx) {
    let mut r = ctx.rng("pairs");
    let alpha = ["", "a", "b", "ab", "é"];
    for _ in 0..ctx.n(60_000, 600_000) {
        let n = if r.chance(1, 50) { 8 + r.below(60) } else { r.size(8) };
        let merged = r.chance(1, 2);
        let mut e: Vec<(String, i32)> = vec![];
        for i in 0..n { let k = if n > 70 && r.chance(1, 2) { i.to_string() } else { match r.hint() { Some(h) => h, None => *r.pick(&alpha) }.to_string() }; if merged && e.iter().any(|(j, _)| *j == k) { continue } e.push((k, i as i32)); }
        let x = r.size(4);
        let mut ext: Vec<(String, i32)> = vec![];
        for i in 0..x { ext.push(((*r.pick(&["a", "c", "d", "b"])).to_string(), 100 + i as i32)); }
        let s = format!("{} {:?} + {:?}", merged, e, ext);
        ctx.case("pairs", &s, || {
            let mk = || -> KVP<String, i32> { if merged { KVP::Merged(e.iter().cloned().collect()) } else { KVP::Unmerged(e.clone()) } };
            let check = |p: KVP<String, i32>, e: &[(String, i32)]| -> Result<(), String> {
                let norm = |v: Vec<(String, i32)>| if merged { sorted_pairs(v) } else { v };
                let want = norm(e.to_vec());
                for k in ["", "a", "b", "ab", "é", "c", "d", "zz"].iter() {
                    let all: Vec<i32> = e.iter().filter(|(j, _)| j == k).map(|x| x.1).collect();
                    eq("get_single", p.get_single(*k).cloned(), all.get(0).cloned())?;
                    let g = p.get(*k);
                    match &g { None => eq("get", &all, &vec![])?, Some(OneOrMany::One(v)) => { eq("get", vec![**v], all.clone())?; eq("One only for merged pairs", merged, true)? } Some(OneOrMany::Many(v)) => { eq("get", v.iter().map(|x| **x).collect::<Vec<_>>(), all.clone())?; if all.is_empty() { return Err("empty Many".into()) } } }
                    if !all.is_empty() { eq("index", p[*k], all[0])? } else if k.len() > 1 { eq("indexing an absent key panics", panics(|| p[*k]), true)? }
                }
                let c = |v: Vec<(&String, &i32)>| norm(v.into_iter().map(|(a, b)| (a.clone(), *b)).collect());
                eq("len", p.len(), e.len())?;
                eq("iter", c(drain(p.iter(), e.len())?), want.clone())?;
                eq("ExactSizeIterator", p.iter().len(), e.len())?;
                eq("&into_iter", c(drain((&p).into_iter(), e.len())?), want.clone())?;
                let ks: Vec<&String> = drain(p.keys(), e.len())?;
                let vs: Vec<&i32> = drain(p.values(), e.len())?;
                eq("keys zip values", c(ks.into_iter().zip(vs).collect()), want.clone())?;
                eq("into_iter", norm(drain(p.into_iter(), e.len())?), want.clone())?;
                Ok(())
            };
            check(mk(), &e)?;
            let mut p = mk();
            p.extend(ext.clone());
            let mut w = e.clone();
            for (k, v) in &ext { if merged { match w.iter().position(|(j, _)| j == k) { Some(i) => w[i].1 = *v, None => w.push((k.clone(), *v)) } } else { w.push((k.clone(), *v)) } }
            check(p, &w)?;
            eq("clone", mk() == mk().clone(), true)?;
            let m = e.iter().map(|x| x.1).collect::<Vec<_>>();
            let o = OneOrMany::Many(m.clone());
            eq("is_many", (o.is_many(), o.is_one()), (true, false))?;
            eq("Many iter", drain(o.iter(), m.len())?.into_iter().cloned().collect::<Vec<_>>(), m.clone())?;
            eq("Many &into_iter", drain((&o).into_iter(), m.len())?.into_iter().cloned().collect::<Vec<_>>(), m.clone())?;
            eq("Many into_iter", drain(o.clone().into_iter(), m.len())?, m.clone())?;
            eq("unwrap_many", o.clone().unwrap_many(), m.clone())?;
            let o = OneOrMany::One(n);
            eq("One iter", drain(o.iter(), 1)?, vec![&n])?;
            eq("One into_iter", drain(o.clone().into_iter(), 1)?, vec![n])?;
            eq("unwrap_one", o.clone().unwrap_one(), n)?;
            eq("is_one", (o.is_many(), o.is_one()), (false, true))?;
            Ok(true)
        });
        let m = G { r: &mut r, flags: 2, uniq: false, tame: false }.map(1);
        ctx.case("map lookups", &show(&m), || {
            let v = build_m(&m);
            for k in ["a", "b", "c", "d", "e"].iter() {
                let all: Vec<V> = m.e.iter().filter(|(j, _)| j.text() == *k).map(|x| strip(&x.1)).collect();
                eq("get_single", v.get_single(*k).map(v_of), all.get(0).cloned())?;
                let g: Vec<V> = v.get(*k).map(|o| o.into_iter().map(v_of).collect()).unwrap_or_default();
                eq("get", g, all.clone())?;
            }
            if !m.merged { eq("keys in order", v.keys().map(|k| k.to_string()).collect::<Vec<_>>(), m.e.iter().map(|x| x.0.text().to_string()).collect::<Vec<_>>())?; }
            eq("unwrap_merged/unmerged", (panics(|| v.clone().unwrap_merged()), panics(|| v.clone().unwrap_unmerged())), (!m.merged, m.merged))?;
            Ok(true)
        });
        let (fl, b) = G { r: &mut r, flags: 2, uniq: false, tame: false }.blk(1);
        ctx.case("block lookups", &show(&b), || {
            let v = build_b(fl, &b);
            let k = v.borrow_keys();
            eq("len", k.len(), b.len())?;
            for l in vec![vec![], vec!["x"], vec!["y"], vec!["x", "y"], vec!["x y"], vec!["z"]] {
                let all: Vec<M> = b.iter().filter(|(j, _)| *j == l).map(|x| strip_m(&x.1)).collect();
                eq("get_single", k.get_single::<[&str]>(&l).map(|m| m_of(m)), all.get(0).cloned())?;
                eq("get", k.get::<[&str]>(&l).map(|o| o.into_iter().map(|m| m_of(m)).collect::<Vec<_>>()).unwrap_or_default(), all)?;
            }
            Ok(true)
        });
    }
}

// ---------------------------------------------------------------- O01
pub fn owned(ctx: &mut Ctx) {
    let mut r = ctx.rng("owned");
    for k in 0..ctx.n(25_000, 250_000) {
        let f = G { r: &mut r, flags: 2, uniq: false, tame: false }.val(k % 4);
        ctx.case("Value::as_owned", &show(&f), || {
            let v = build(&f);
            let o: rv::Value<'static> = v.as_owned();
            eq("equal", &o, &v)?;
            eq("view", v_of(&o), strip(&f))?;
            eq("flags", fl_v(&o), fl_v(&v))?;
            Ok(true)
        });
        let m = G { r: &mut r, flags: 2, uniq: false, tame: false }.map(2);
        ctx.case("MapValues::as_owned", &show(&m), || { let v = build_m(&m); let o = v.as_owned(); eq("equal", &o, &v)?; eq("view", m_of(&o), strip_m(&m))?; eq("flags", fl_m(&o), fl_m(&v))?; Ok(true) });
        let (t, want) = crate::parsers::Gen { r: &mut r }.entries(k % 3, false);
        ctx.case("parsed document as_owned", &t, || {
            let o: rv::MapValues<'static> = { let src = t.clone(); let v = rv::from_str(&src, None).map_err(|e| e.to_string())?; let o = v.as_owned(); eq("equal", &o, &v)?; eq("debug", show(&o), show(&v))?; o.as_owned() };
            eq("view", m_of(&o), want)?;
            Ok(true)
        });
        use ferrous_chloride::parser as rp;
        let (t, want) = crate::parsers::Gen { r: &mut r }.body(k % 3);
        ctx.case("parsed body as_owned", &t, || {
            let o = { let src = t.clone(); let v = rp::parse_str(&src).map_err(|e| e.to_string())?; let o: rp::Body<'static> = v.as_owned(); eq("equal", &o, &v)?; eq("debug", show(&o), show(&v))?; o };
            eq("view", crate::gram::body_of(&o), want)?;
            for e in &o { match e { rp::body::BodyElement::Block(b) => { eq("block", show(&b.as_owned()), show(b))?; for l in &b.labels { eq("label", show(&l.as_owned()), show(l))?; } } rp::body::BodyElement::Attribute(a) => { eq("attribute", show(&a.as_owned()), show(a))?; } } }
            Ok(true)
        });
        let (t, want) = crate::parsers::Gen { r: &mut r }.expr(k % 4);
        ctx.case("parsed expression as_owned", &t, || {
            let o: rp::Expression<'static> = { let src = t.clone(); let v = rp::Expression::parse(&src).map_err(|e| e.to_string())?; let o = v.as_owned(); eq("equal", &o, &v)?; eq("debug", show(&o), show(&v))?; if let rp::Expression::Number(n) = &v { eq("number", show(&n.as_owned()), show(n))?; } o };
            eq("view", crate::gram::e_of(&o), want)?;
            Ok(true)
        });
    }
    for s in ["1", "-1", "+1", "1.5", "-.5", "1.", "2e3", "-2E-3", "0.5e+7", "00", "1e05", "-0.50E-007", "1e00", "1.e1", ".0e0", "+00.00e+00"].iter() {
        ctx.case("Number::as_owned", s, || { let n = match real(ferrous_chloride::parser::number::number(ferrous_chloride::nom::types::CompleteStr(s))) { PR::Ok(_, n) => n, _ => return Err("not a number".into()) }; eq("debug", show(&n.as_owned()), show(&n))?; Ok(true) });
    }
    ctx.case("generic as_owned", "collections", || {
        let c: std::borrow::Cow<str> = std::borrow::Cow::Borrowed("x");
        eq("Cow", c.as_owned(), "x".to_string())?;
        eq("String", "y".to_string().as_owned(), "y".to_string())?;
        eq("str", "z".as_owned(), "z".to_string())?;
        eq("Option", (Some("a".to_string()).as_owned(), None::<String>.as_owned()), (Some("a".to_string()), None))?;
        eq("Vec", vec!["b".to_string(), "a".to_string()].as_owned(), vec!["b".to_string(), "a".to_string()])?;
        eq("pair", ("a".to_string(), "b".to_string()).as_owned(), ("a".to_string(), "b".to_string()))?;
        let h: HashMap<String, String> = vec![("k".to_string(), "v".to_string()), ("l".to_string(), "w".to_string())].into_iter().collect();
        eq("HashMap", h.as_owned(), h)?;
        Ok(true)
    });
    let _: BTreeMap<u8, u8> = BTreeMap::new();
}

// ---------------------------------------------------------------- V01
/// the same tree as `build`, through the conversions
fn made(r: &mut Rng, f: &F) -> rv::Value<'static> {
    match f {
        F::Leaf(V::Null) => rv::Value::Null,
        F::Leaf(V::Int(i)) => if r.chance(1, 2) { rv::Value::from(*i) } else { rv::Value::from(i) },
        F::Leaf(V::Float(b)) => { let x = f64::from_bits(*b); if r.chance(1, 2) { x.into() } else { (&x).into() } }
        F::Leaf(V::Bool(b)) => if r.chance(1, 2) { rv::Value::from(*b) } else { b.into() },
        F::Leaf(V::Str(s)) => match r.below(4) { 0 => rv::Value::from(s.as_str()), 1 => s.clone().into(), 2 => s.into(), _ => rv::Value::from(&s.as_str()) },
        F::Leaf(_) => unreachable!(),
        F::List(l) => {
            let v: Vec<rv::Value<'static>> = l.iter().map(|x| made(r, x)).collect();
            match r.below(5) { 0 => rv::Value::new_list(v), 1 => rv::Value::from(Some(v)), 2 if v.is_empty() => rv::Value::from(None), 3 => rv::Value::new_list(v.into_iter().filter(|_| true)), _ => v.into_iter().collect() }
        }
        F::Obj(o) => {
            let mut v: Vec<Vec<Pair>> = o.iter().map(|m| m.e.iter().map(|(k, f)| made_pair(r, k, f)).collect()).collect();
            match r.below(4) {
                0 if v.len() == 1 => rv::Value::new_single_map(v.pop().unwrap()),
                1 if v.len() == 1 => rv::Value::from(v.pop().unwrap().into_iter().collect::<rv::MapValues>()),
                2 => rv::Value::from(v.into_iter().map(|m| m.into_iter().collect()).collect::<Vec<rv::MapValues>>()),
                3 => rv::Value::new_map(v.into_iter().map(|m| m.into_iter().filter(|_| true))),
                _ => rv::Value::new_map(v),
            }
        }
        F::Block(_, b) => {
            let v: Vec<(Vec<String>, Vec<Pair>)> = b.iter().map(|(l, m)| (l.clone(), m.e.iter().map(|(k, f)| made_pair(r, k, f)).collect())).collect();
            if v.len() == 1 && r.chance(3, 4) {
                let (l, m) = v.into_iter().next().unwrap();
                return if r.chance(1, 2) { rv::Value::new_block(&l, m).as_owned() } else { let l: Vec<&str> = l.iter().map(|s| s.as_str()).collect(); rv::Value::new_block(&l, m).as_owned() };
            }
            let v = v.into_iter().map(|(l, m)| (l, m.into_iter().collect::<rv::MapValues>()));
            let b: rv::Block = if r.chance(1, 2) { v.collect() } else { rv::Block::new_unmerged(v) };
            b.into()
        }
    }
}
fn made_pair(r: &mut Rng, k: &VK, f: &F) -> Pair {
    let v = made(r, f);
    match k { VK::Id(s) => if r.chance(1, 2) { (s.clone().into(), v) } else { let s: &'static str = Box::leak(s.clone().into_boxed_str()); (s.into(), v) }, _ => pair(k, v) }
}
fn self_and_near(s: &str) -> Vec<String> { vec![s.to_string(), format!("{}x", s), s.to_uppercase(), s.trim().to_string(), s.chars().skip(1).collect()] }
pub fn construct(ctx: &mut Ctx) {
    let mut r = ctx.rng("construct");
    for k in 0..ctx.n(40_000, 400_000) {
        let f = G { r: &mut r, flags: 0, uniq: false, tame: false }.val(k % 4);
        let seed = r.next();
        ctx.case("Value from plain data", &show(&f), || {
            let v = made(&mut Rng(seed | 1), &f);
            eq("view", v_of(&v), strip(&f))?;
            eq("flags", fl_v(&v), fl_v(&build(&f)))?;
            eq("keys", show(&v), show(&build(&f)))?;
            Ok(true)
        });
    }
    use crate::gram::{e_of, E, K};
    use ferrous_chloride::parser as rp;
    use std::borrow::Cow;
    for k in 0..ctx.n(20_000, 200_000) {
        macro_rules! ints { ($($t:ident)*) => { $( {
            let x = ((r.next() as u128) << 64 | r.next() as u128) >> r.below(128);
            let x = match r.below(6) { 0 => $t::min_value(), 1 => $t::max_value(), 2 => (x as $t).wrapping_neg(), _ => x as $t };
            let x = r.hint_int().filter(|_| k % 3 == 0).map(|i| i as $t).unwrap_or(x);
            ctx.case(concat!("Expression from ", stringify!($t)), &x.to_string(), || { let t = x.to_string(); eq("expression", show(&rp::Expression::from(x)), show(&rp::Expression::parse(&t).map_err(|e| e.to_string())?))?; Ok(true) });
        } )* } }
        ints!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128);
        macro_rules! floats { ($($t:ident $u:ident)*) => { $( {
            let x = match r.below(4) { 0 => $t::from_bits(r.next() as $u), 1 => r.below(100) as $t, 2 => -(r.below(1000) as $t) / 8.0, _ => r.below(100_000) as $t / (1 + r.below(999)) as $t };
            if x.is_finite() { ctx.case(concat!("Expression from ", stringify!($t)), &x.to_string(), || { let t = x.to_string(); eq("expression", show(&rp::Expression::from(x)), show(&rp::Expression::parse(&t).map_err(|e| e.to_string())?))?; Ok(true) }) }
        } )* } }
        floats!(f32 u32 f64 u64);
        let n = if r.chance(1, 20) { 5 + r.below(30) } else { r.size(5) };
        let parts: Vec<(String, E, String)> = (0..n).map(|i| {
            let (t, e) = match r.below(10) { 0 | 1 => ("null".to_string(), E::Null), 2 => ("\"\"".into(), E::Str(String::new())), 3 => ("[]".into(), E::Tup(vec![])), 4 => ("false".into(), E::Bool(false)), 5 | 6 => ("1".into(), E::Num(crate::gram::Num { text: "1".into(), neg: false, float: false })), _ => crate::parsers::Gen { r: &mut r }.expr(1) };
            (t, e, match r.below(4) { 0 => String::new(), 1 => format!("k{}", i), _ => ["a", "b", "A"][r.below(3)].to_string() })
        }).collect();
        ctx.case("Expression from expressions", &show(&parts), || {
            let es = parts.iter().map(|p| { let e = rp::Expression::parse(&p.0).map_err(|e| e.to_string())?; Ok(e) }).collect::<Result<Vec<_>, String>>()?;
            let want = E::Tup(parts.iter().map(|p| p.1.clone()).collect());
            eq("new_tuple", e_of(&rp::Expression::new_tuple(es.clone())), want.clone())?;
            eq("collect", e_of(&es.iter().cloned().collect::<rp::Expression>()), want.clone())?;
            eq("from a vector", e_of(&rp::Expression::from(es.clone())), want)?;
            let want = E::Obj(parts.iter().map(|p| (K::Id(p.2.clone()), p.1.clone())).collect());
            eq("new_object", e_of(&rp::Expression::new_object(parts.iter().map(|p| p.2.as_str()).zip(es.iter().cloned()))), want)?;
            Ok(n > 1)
        });
        let s: Vec<String> = (0..n).map(|_| G { r: &mut r, flags: 0, uniq: false, tame: false }.label()).collect();
        ctx.case("Expression from plain data", &show(&s), || {
            let want: Vec<E> = s.iter().map(|s| E::Str(s.clone())).collect();
            let es = || s.iter().map(|s| rp::Expression::from(s.as_str()));
            eq("new_tuple", e_of(&rp::Expression::new_tuple(es())), E::Tup(want.clone()))?;
            eq("collect", e_of(&es().collect::<rp::Expression>()), E::Tup(want.clone()))?;
            eq("from a vector", e_of(&rp::Expression::from(es().collect::<Vec<_>>())), E::Tup(want.clone()))?;
            eq("from Cow", s.iter().map(|s| e_of(&rp::Expression::from(Cow::Owned::<str>(s.clone())))).collect::<Vec<_>>(), want.clone())?;
            let want: Vec<(K, E)> = s.iter().enumerate().map(|(i, s)| (K::Id(s.clone()), E::Bool(i % 2 == 0))).collect();
            eq("new_object", e_of(&rp::Expression::new_object(s.iter().enumerate().map(|(i, s)| (s.as_str(), rp::Expression::from(i % 2 == 0))))), E::Obj(want))?;
            eq("from ()", e_of(&rp::Expression::from(())), E::Null)?;
            for s in &s {
                let l = rp::block::BlockLabel::from(s.as_str());
                eq("label", (show(&l), l.as_str() == s.as_str()), (format!("Identifier({:?})", s), true))?;
                let o = rp::object::ObjectElementIdentifier::from(s.as_str());
                eq("object key", show(&o), format!("Identifier({:?})", s))?;
                let text: &str = std::borrow::Borrow::borrow(&o);
                eq("object key text", text, s.as_str())?;
                for t in self_and_near(s) { eq("object key equal to text", o == t.as_str(), t == *s)? }
                eq("object key by expression", rp::object::ObjectElementIdentifier::Expression(Cow::Borrowed(s.as_str())) == s.as_str(), false)?;
            }
            Ok(true)
        });
    }
}
