//! The block index.
use crate::core::*;
use crate::gram::{body_of, B, E};
use ferrous_chloride::parser as rp;
use rp::block::{Block, BlockBody, BlockLabel, Blocks};
use std::collections::{BTreeMap, BTreeSet};

type Item = (String, Vec<String>, usize);

fn body<'a>(id: usize) -> rp::Body<'a> { vec![rp::body::BodyElement::Attribute(("n".into(), rp::Expression::from(id as u32)))] }
fn id_of(b: &rp::Body) -> Result<usize, String> {
    match &body_of(b)[..] { [B::Attr(_, E::Num(n))] => n.text.parse().map_err(|_| "bad body".to_string()), x => Err(format!("body altered: {:?}", x)) }
}
fn label<'a>(t: &str, lit: bool) -> BlockLabel<'a> { if lit { BlockLabel::StringLiteral(t.to_string()) } else { BlockLabel::Identifier(t.to_string().into()) } }
fn block<'a>(i: &Item) -> Block<'a> { Block::new(i.0.clone().into(), i.1.iter().enumerate().map(|(k, l)| label(l, (i.2 + k) % 3 == 0)).collect(), body(i.2)) }

/// groups by remaining labels, bodies in order
fn groups(it: impl Iterator<Item = (Vec<String>, usize)>) -> BTreeMap<Vec<String>, Vec<usize>> {
    let mut m: BTreeMap<Vec<String>, Vec<usize>> = BTreeMap::new();
    for (l, i) in it { m.entry(l).or_default().push(i) }
    m
}
fn under<'x>(items: &'x [Item], t: &'x str, path: &'x [String]) -> impl Iterator<Item = (Vec<String>, usize)> + 'x {
    items.iter().filter(move |i| i.0 == t && i.1.starts_with(path)).map(move |i| (i.1[path.len()..].to_vec(), i.2))
}
fn check_node(b: &BlockBody, want: &BTreeMap<Vec<String>, Vec<usize>>) -> Result<(), String> {
    let total: usize = want.values().map(|v| v.len()).sum();
    eq("len_blocks", b.len_blocks(), total)?;
    let empty = want.get(&vec![]).cloned().unwrap_or_default();
    eq("get_empty", b.get_empty().iter().map(id_of).collect::<Result<Vec<_>, _>>()?, empty)?;
    let firsts: BTreeSet<String> = want.keys().filter_map(|k| k.get(0).cloned()).collect();
    eq("has_further_labels", b.has_further_labels(), !firsts.is_empty())?;
    let got: BTreeSet<String> = b.get_labels().map(|h| h.keys().map(|k| k.as_str().to_string()).collect()).unwrap_or_default();
    eq("get_labels", got, firsts)?;
    let mut lens: BTreeSet<usize> = want.keys().map(|k| k.len()).collect();
    if lens.is_empty() { lens.insert(0); }
    eq("label_lens", b.label_lens(), lens.clone())?;
    let u = if lens.len() == 1 { lens.iter().next().cloned() } else { None };
    eq("label_lens_uniform", b.label_lens_uniform(), u)?;
    eq("is_label_lens_uniform", b.is_label_lens_uniform(), u.is_some())?;
    let flat = b.flat_iter().map(|(l, b)| Ok((l.into_iter().map(|s| s.to_string()).collect(), id_of(b)?))).collect::<Result<Vec<(Vec<String>, usize)>, String>>()?;
    eq("number of flattened blocks", flat.len(), total)?;
    eq("flat_iter", &groups(flat.into_iter()), want)?;
    let flat = b.clone().flat_into_iter().map(|(l, b)| Ok((l.into_iter().map(|s| s.to_string()).collect(), id_of(&b)?))).collect::<Result<Vec<(Vec<String>, usize)>, String>>()?;
    eq("flat_into_iter", &groups(flat.into_iter()), want)?;
    Ok(())
}
fn check(x: &Blocks, items: &[Item], paths: &[Vec<String>], types: &[&str]) -> Result<(), String> {
    let ts: BTreeSet<&str> = items.iter().map(|i| i.0.as_str()).collect();
    eq("len", x.len(), ts.len())?;
    eq("is_empty", x.is_empty(), ts.is_empty())?;
    eq("len_blocks", x.len_blocks(), items.len())?;
    eq("types", x.iter().map(|(k, _)| k.to_string()).collect::<BTreeSet<_>>(), ts.iter().map(|s| s.to_string()).collect())?;
    let all: BTreeSet<&str> = types.iter().cloned().chain(ts.iter().cloned()).collect();
    for t in all.iter() {
        for p in paths.iter() {
            let want = groups(under(items, t, p));
            match x.get(t, p) {
                None => eq(&format!("lookup of {} {:?}", t, p), BTreeMap::new(), want)?,
                Some(b) => { if want.is_empty() { return Err(format!("lookup of {} {:?} finds something", t, p)); } check_node(b, &want).map_err(|e| format!("under {} {:?}: {}", t, p, e))? }
            }
        }
    }
    let flat = x.flat_iter().map(|(t, l, b)| { let mut v = vec![t.to_string()]; v.extend(l.into_iter().map(|s| s.to_string())); Ok((v, id_of(b)?)) }).collect::<Result<Vec<_>, String>>()?;
    eq("number of flattened blocks", flat.len(), items.len())?;
    let want = groups(items.iter().map(|i| { let mut v = vec![i.0.clone()]; v.extend(i.1.iter().cloned()); (v, i.2) }));
    eq("flat_iter", &groups(flat.into_iter()), &want)?;
    let lens = x.label_lens();
    let uni = x.label_lens_uniform();
    let isu = x.is_label_lens_uniform();
    eq("label_lens types", (lens.len(), uni.len(), isu.len()), (ts.len(), ts.len(), ts.len()))?;
    for t in ts.iter() {
        let l: BTreeSet<usize> = items.iter().filter(|i| i.0 == *t).map(|i| i.1.len()).collect();
        eq("label_lens", lens.get(t), Some(&l))?;
        let u = if l.len() == 1 { l.iter().next().cloned() } else { None };
        eq("label_lens_uniform", uni.get(t), Some(&u))?;
        eq("is_label_lens_uniform", isu.get(t), Some(&u.is_some()))?;
    }
    Ok(())
}
pub fn index(ctx: &mut Ctx) {
    label_text(ctx);
    let mut r = ctx.rng("index");
    let sets = [["x", "y", "z"], ["", "x", "xy"], ["x y", "\n", "é"], ["0", "X", "x"]];
    for round in 0..ctx.n(12_000, 120_000) {
        let labels = if round % 4 == 3 { sets[r.below(4)] } else { sets[0] };
        let mut paths: Vec<Vec<String>> = vec![vec![]];
        for a in labels.iter() { paths.push(vec![a.to_string()]); for b in labels.iter() { paths.push(vec![a.to_string(), b.to_string()]); for c in labels.iter() { paths.push(vec![a.to_string(), b.to_string(), c.to_string()]) } } }
        paths.push(vec!["nope".into()]);
        paths.push(vec!["x".into(), "nope".into()]);
        // now and then very many blocks, with very many types or labels
        let vast = round % 300 == 7;
        let n = if vast { [65, 130, 260, 520][(round / 300) % 4] + r.below(9) } else if r.chance(1, 40) { 8 + r.below(25) } else { r.size(8) };
        let depth = 1 + r.below(4);
        let nt = 1 + r.below(3);
        let items: Vec<Item> = (0..n).map(|i| {
            let t = match r.hint() { Some(h) => h, None => ["t", "u", "x"][r.below(nt)] }.to_string();
            if vast {
                let d = r.below(3);
                return match (round / 300) % 3 {
                    0 => (format!("t{}", i), (0..d).map(|_| r.pick(&labels).to_string()).collect(), i),
                    1 => (t, std::iter::once(format!("l{}", i)).chain((0..d).map(|_| r.pick(&labels).to_string())).collect(), i),
                    _ => (format!("t{}", i % (n / 2)), vec![format!("l{}", i % 7)], i),
                };
            }
            let d = if round % 3 == 0 { depth - 1 } else { r.size(depth).min(40) };
            (t, (0..d).map(|_| match r.hint() { Some(h) => h.to_string(), None => r.pick(&labels).to_string() }).collect(), i)
        }).collect();
        if !hints().sizes.is_empty() { for i in items.iter() { for k in 0..=i.1.len().min(6) { if paths.len() < 120 { paths.push(i.1[..k].to_vec()); } } if paths.len() < 130 { paths.push(i.1.clone()) } } }
        let s = format!("{:?}", items);
        ctx.case("block index", &s, || {
            let x = Blocks::new(items.iter().map(block));
            check(&x, &items, &paths, &["t", "u", "x", "none"])?;
            let mut y = Blocks::new(vec![]);
            for i in &items { y.append(block(i)) }
            eq("appending one by one", y == x, true)?;
            let mut y = Blocks::new(items[..n / 2].iter().map(block));
            y.extend(items[n / 2..].iter().map(block));
            eq("extending", y == x, true)?;
            check(&y, &items, &paths[..5], &["t", "u"])?;
            let y: Blocks = items.iter().map(block).collect();
            eq("collecting", y == x, true)?;
            eq("into_iter", x.clone().into_iter().count(), x.len())?;
            eq("&into_iter", (&x).into_iter().count(), x.len())?;
            let flat = x.clone().flat_into_iter().map(|(t, l, b)| { let mut v = vec![t.to_string()]; v.extend(l.into_iter().map(|s| s.to_string())); Ok((v, id_of(&b)?)) }).collect::<Result<Vec<_>, String>>()?;
            let want = groups(items.iter().map(|i| { let mut v = vec![i.0.clone()]; v.extend(i.1.iter().cloned()); (v, i.2) }));
            eq("number of flattened blocks", flat.len(), n)?;
            eq("flat_into_iter", groups(flat.into_iter()), want)?;
            // through a mutable lookup
            let mut y = x.clone();
            for i in &items {
                match y.get_mut(&i.0, &i.1) { None => return Err("get_mut finds nothing".into()), Some(b) => eq("get_mut", Some(&*b), x.get(&i.0, &i.1))? }
            }
            for i in &items {
                y.append(block(&(i.0.clone(), i.1.clone(), 100 + i.2)));
            }
            eq("get_mut of an absent path", y.get_mut("t", &["nope"]).is_none() && y.get_mut("none", &["x"]).is_none(), true)?;
            let mut more = items.clone();
            for i in &items { more.push((i.0.clone(), i.1.clone(), 100 + i.2)) }
            check(&y, &more, &paths[..6], &["t", "u"])?;
            // a single body index
            let mut b = BlockBody::new();
            for i in &items { b.append(i.1.iter().map(|l| label(l, false)).collect(), body(i.2)) }
            check_node(&b, &groups(items.iter().map(|i| (i.1.clone(), i.2))))?;
            let c: BlockBody = items.iter().map(|i| (i.1.iter().map(|l| label(l, true)).collect::<Vec<_>>(), body(i.2))).collect();
            eq("collected body index", c == b, true)?;
            // a type whose blocks have been taken out
            let mut z = x.clone();
            if let Some(i) = items.get(0) {
                if let Some((_, b)) = z.iter_mut().find(|(t, _)| **t == i.0) { *b = BlockBody::new() }
                eq("blocks left", z.len_blocks(), items.iter().filter(|j| j.0 != i.0).count())?;
                eq("types left", z.len(), x.len())?;
            }
            Ok(n > 1)
        });
        ctx.case("mutable iteration", &s, || {
            let mut z = Blocks::new(items.iter().map(block));
            for (_, b) in z.iter_mut() { b.append(vec![], body(9999)) }
            let nt: BTreeSet<&str> = items.iter().map(|i| i.0.as_str()).collect();
            eq("iter_mut reaches every type", z.len_blocks(), n + nt.len())?;
            let mut x = Blocks::new(items.iter().map(block));
            let k = touch(&mut x);
            eq("flat_iter_mut", k?, groups(items.iter().map(|i| { let mut v = vec![i.0.clone()]; v.extend(i.1.iter().cloned()); (v, i.2) })))?;
            Ok(n > 1)
        });
    }
}
/// Text near `t`.
fn near(t: &str) -> Vec<String> {
    let mut v = vec![String::new(), t.to_string(), t.to_uppercase(), t.to_lowercase(), t.trim().to_string(), format!("{} ", t), format!(" {}", t), format!("{}x", t), format!("x{}", t), format!("{0}{0}", t), format!("\"{}\"", t), t.replace('_', "-"), t.replace('-', "_"), t.chars().rev().collect(), t.chars().skip(1).collect()];
    let mut s = t.to_string();
    s.pop();
    v.push(s);
    v
}
/// One label, of either kind, against text and against labels of either kind.
pub fn label_text(ctx: &mut Ctx) {
    use std::borrow::Borrow;
    use std::hash::{Hash, Hasher};
    let mut r = ctx.rng("label text");
    let h = |x: &dyn Fn(&mut std::collections::hash_map::DefaultHasher)| { let mut s = std::collections::hash_map::DefaultHasher::new(); x(&mut s); s.finish() };
    for _ in 0..ctx.n(3_000, 30_000) {
        let t: String = match r.hint() { Some(h) if r.chance(1, 2) => h.to_string(), _ => { let n = if r.chance(1, 8) { 20 + r.below(60) } else { r.size(6) }; (0..n).map(|_| *r.pick(&['a', 'B', 'x', '_', '-', '.', ' ', '0', '9', '\n', '\u{0}', '"', '\\', 'é', 'ß', 'İ', 'Σ', '\u{301}', '😀', '$', '{', '}', '\t'])).collect() } };
        let mut others = near(&t);
        if let Some(h) = r.hint() { others.push(h.to_string()) }
        ctx.case("label text", &format!("{:?}", t), || {
            for lit in [false, true].iter() {
                let l = label(&t, *lit);
                eq("as_str", l.as_str(), t.as_str())?;
                eq("as_cow", &*l.as_cow(), t.as_str())?;
                eq("borrow", Borrow::<str>::borrow(&l), t.as_str())?;
                eq("hash", h(&|s| l.hash(s)), h(&|s| t.as_str().hash(s)))?;
                let from: BlockLabel = t.as_str().into();
                eq("label from text", (from.as_str(), from == l), (t.as_str(), true))?;
                for o in &others {
                    let same = *o == t;
                    eq(&format!("equal to the text {:?}", o), (l == *o, l == o.as_str(), l == std::borrow::Cow::Borrowed(o.as_str())), (same, same, same))?;
                    eq(&format!("equal to the labels {:?}", o), (l == label(o, false), l == label(o, true)), (same, same))?;
                }
            }
            Ok(!t.is_empty())
        });
    }
}
fn touch<'b, 'a: 'b>(x: &'a mut Blocks<'a>) -> Result<BTreeMap<Vec<String>, Vec<usize>>, String> {
    let mut v = vec![];
    for (t, l, b) in x.flat_iter_mut() {
        let mut k = vec![t.to_string()];
        k.extend(l.into_iter().map(|s| s.to_string()));
        v.push((k, id_of(b)?));
        b.clear();
    }
    Ok(groups(v.into_iter()))
}
