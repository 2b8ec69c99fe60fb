// The index of blocks by type and labels
use crate::parser::block::BlockBody;
use crate::parser::body::Body;
use std::collections::{BTreeSet, VecDeque};
verus! {
/// what an index of bodies holds: the bodies without (further) label, and the index under each label
pub enum IxV<B> { Body(Seq<B>), Labels(Seq<B>, Map<KeyV, IxV<B>>) }
pub open spec fn ltext<'a>(l: BlockLabel<'a>) -> Seq<char> { match l { BlockLabel::StringLiteral(s) => s@, BlockLabel::Identifier(c) => c@ } }
pub open spec fn vltext<'a>() -> spec_fn(BlockLabel<'a>) -> Seq<char> { |l: BlockLabel<'a>| ltext(l) }
pub open spec fn ltexts<'a>(l: Seq<BlockLabel<'a>>) -> Seq<Seq<char>> { l.map_values(vltext()) }
pub broadcast axiom fn key_id_label<'a>(k: &BlockLabel<'a>) ensures #[trigger] key_id::<BlockLabel<'a>>(k) == KeyV::Text(ltext(*k));
pub broadcast axiom fn key_id_cow<'a>(k: &Cow<'a, str>) ensures #[trigger] key_id::<Cow<'a, str>>(k) == KeyV::Text(k@);
pub broadcast axiom fn key_id_str(k: &str) ensures #[trigger] key_id::<str>(k) == KeyV::Text(k@);
pub broadcast group group_ix { key_id_label, key_id_cow, key_id_str, ixv_def, ix_entered }
pub open spec fn ix_none<B>() -> IxV<B> { IxV::Body(Seq::empty()) }
pub open spec fn ixv<'a>(x: BlockBody<'a>) -> IxV<Body<'a>>
    decreases x via ixv_dec
{
    match x {
        BlockBody::Body(v) => IxV::Body(v@),
        BlockBody::Labels { empty, labels } => IxV::Labels(empty@, Map::new(hm_map(labels).dom(), |k: KeyV| if hm_map(labels).contains_key(k) { ixv(hm_map(labels)[k].1) } else { ix_none() })),
    }
}
#[via_fn]
proof fn ixv_dec<'a>(x: BlockBody<'a>) { broadcast use hm_height; }
pub open spec fn vix<'a, K>() -> spec_fn((K, BlockBody<'a>)) -> IxV<Body<'a>> { |p: (K, BlockBody<'a>)| ixv(p.1) }
pub broadcast proof fn ixv_body<'a>(v: Vec<Body<'a>>) ensures #[trigger] ixv(BlockBody::Body(v)) == IxV::Body(v@) {}
pub broadcast proof fn ixv_labels<'a>(empty: Vec<Body<'a>>, labels: HashMap<BlockLabel<'a>, BlockBody<'a>>)
    ensures #[trigger] ixv(BlockBody::Labels { empty, labels }) == IxV::Labels(empty@, hm_view(labels, vix()))
{ assert(ixv(BlockBody::Labels { empty, labels })->Labels_1 =~= hm_view(labels, vix())); }

pub broadcast proof fn ixv_def<'a>(x: BlockBody<'a>)
    ensures #[trigger] ixv(x) == match x { BlockBody::Body(v) => IxV::Body(v@), BlockBody::Labels { empty, labels } => IxV::Labels(empty@, hm_view(labels, vix())) }
{ match x { BlockBody::Labels { empty, labels } => { assert(ixv(x)->Labels_1 =~= hm_view(labels, vix())); } _ => {} } }

/// one more body under labels
pub open spec fn ix_append<B>(x: IxV<B>, l: Seq<Seq<char>>, b: B) -> IxV<B>
    decreases l.len()
{
    match x {
        IxV::Body(s) => if l.len() == 0 { IxV::Body(s.push(b)) } else { IxV::Labels(s, Map::empty().insert(KeyV::Text(l[0]), ix_append(ix_none(), l.skip(1), b))) },
        IxV::Labels(e, m) => if l.len() == 0 { IxV::Labels(e.push(b), m) } else { IxV::Labels(e, m.insert(KeyV::Text(l[0]), ix_append(if m.contains_key(KeyV::Text(l[0])) { m[KeyV::Text(l[0])] } else { ix_none() }, l.skip(1), b))) },
    }
}
/// the part of the index under labels
pub open spec fn ix_get<B>(x: IxV<B>, p: Seq<Seq<char>>) -> Option<IxV<B>>
    decreases p.len()
{
    if p.len() == 0 { Some(x) } else { match x { IxV::Body(_) => None, IxV::Labels(_, m) => if m.contains_key(KeyV::Text(p[0])) { ix_get(m[KeyV::Text(p[0])], p.skip(1)) } else { None } } }
}
/// the index with the part under labels replaced
pub open spec fn ix_set<B>(x: IxV<B>, p: Seq<Seq<char>>, y: IxV<B>) -> IxV<B>
    decreases p.len()
{
    if p.len() == 0 { y } else { match x { IxV::Body(_) => x, IxV::Labels(e, m) => if m.contains_key(KeyV::Text(p[0])) { IxV::Labels(e, m.insert(KeyV::Text(p[0]), ix_set(m[KeyV::Text(p[0])], p.skip(1), y))) } else { x } } }
}
pub open spec fn ix_here<B>(x: IxV<B>) -> Seq<B> { match x { IxV::Body(s) => s, IxV::Labels(e, _) => e } }
/// the bodies with exactly these labels
pub open spec fn ix_at<B>(x: IxV<B>, p: Seq<Seq<char>>) -> Seq<B> { match ix_get(x, p) { Some(y) => ix_here(y), None => Seq::empty() } }
/// appending puts the body last among those with its labels and changes nothing else
pub proof fn k02_append<B>(x: IxV<B>, l: Seq<Seq<char>>, b: B, p: Seq<Seq<char>>)
    ensures ix_at(ix_append(x, l, b), p) == (if p == l { ix_at(x, p).push(b) } else { ix_at(x, p) })
    decreases l.len()
{
    if l.len() > 0 {
        let k = KeyV::Text(l[0]);
        let y = match x { IxV::Body(_) => ix_none(), IxV::Labels(_, m) => if m.contains_key(k) { m[k] } else { ix_none() } };
        if p.len() > 0 {
            assert(p == l <==> (p[0] == l[0] && p.skip(1) == l.skip(1))) by { if p[0] == l[0] && p.skip(1) == l.skip(1) { assert(p =~= seq![p[0]] + p.skip(1)); assert(l =~= seq![l[0]] + l.skip(1)); } }
            k02_append(y, l.skip(1), b, p.skip(1));
            assert(KeyV::Text(p[0]) == k <==> p[0] == l[0]);
            if p[0] == l[0] { assert(ix_at(x, p) =~= ix_at(y, p.skip(1))); }
        }
    } else if p.len() > 0 { assert(p != l); } else { assert(p =~= l); }
}
/// what is under labels p and then q is what is under q of what is under p
pub proof fn k02_under<B>(x: IxV<B>, p: Seq<Seq<char>>, q: Seq<Seq<char>>)
    ensures ix_get(x, p + q) == (match ix_get(x, p) { Some(y) => ix_get(y, q), None => None })
    decreases p.len()
{
    if p.len() == 0 { assert(p + q =~= q); } else {
        assert((p + q).skip(1) =~= p.skip(1) + q);
        match x { IxV::Labels(_, m) => if m.contains_key(KeyV::Text(p[0])) { k02_under(m[KeyV::Text(p[0])], p.skip(1), q); }, _ => {} }
    }
}
pub proof fn ix_set_get<B>(x: IxV<B>, p: Seq<Seq<char>>, y: IxV<B>)
    requires ix_get(x, p) is Some
    ensures ix_get(ix_set(x, p, y), p) == Some(y), ix_set(x, p, ix_get(x, p)->0) == x
    decreases p.len()
{
    if p.len() > 0 {
        match x { IxV::Labels(e, m) => { let k = KeyV::Text(p[0]); ix_set_get(m[k], p.skip(1), y); assert(m.insert(k, m[k]) =~= m); }, _ => {} }
    }
}

/// blocks by type: one more block
pub open spec fn bs_append<B>(m: Map<KeyV, IxV<B>>, t: Seq<char>, l: Seq<Seq<char>>, b: B) -> Map<KeyV, IxV<B>> {
    m.insert(KeyV::Text(t), ix_append(if m.contains_key(KeyV::Text(t)) { m[KeyV::Text(t)] } else { ix_none() }, l, b))
}
pub open spec fn bs_get<B>(m: Map<KeyV, IxV<B>>, t: Seq<char>, p: Seq<Seq<char>>) -> Option<IxV<B>> { if m.contains_key(KeyV::Text(t)) { ix_get(m[KeyV::Text(t)], p) } else { None } }
pub open spec fn bs_at<B>(m: Map<KeyV, IxV<B>>, t: Seq<char>, p: Seq<Seq<char>>) -> Seq<B> { match bs_get(m, t, p) { Some(y) => ix_here(y), None => Seq::empty() } }
pub struct BkV<B> { pub t: Seq<char>, pub l: Seq<Seq<char>>, pub b: B }
pub open spec fn bs_all<B>(m: Map<KeyV, IxV<B>>, s: Seq<BkV<B>>) -> Map<KeyV, IxV<B>>
    decreases s.len()
{ if s.len() == 0 { m } else { bs_append(bs_all(m, s.drop_last()), s.last().t, s.last().l, s.last().b) } }
/// the bodies of the blocks of a type with given labels, in order
pub open spec fn written<B>(s: Seq<BkV<B>>, t: Seq<char>, p: Seq<Seq<char>>) -> Seq<B>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if s.last().t == t && s.last().l == p { written(s.drop_last(), t, p).push(s.last().b) } else { written(s.drop_last(), t, p) } }
/// the index of blocks holds under each type and labels exactly the bodies written there, in order
pub proof fn k02_index<B>(m: Map<KeyV, IxV<B>>, s: Seq<BkV<B>>, t: Seq<char>, p: Seq<Seq<char>>)
    ensures bs_at(bs_all(m, s), t, p) == bs_at(m, t, p) + written(s, t, p)
    decreases s.len()
{
    if s.len() == 0 { assert(bs_at(m, t, p) + written(s, t, p) =~= bs_at(m, t, p)); } else {
        k02_index(m, s.drop_last(), t, p);
        let a = bs_all(m, s.drop_last());
        let x = s.last();
        k02_append(if a.contains_key(KeyV::Text(x.t)) { a[KeyV::Text(x.t)] } else { ix_none() }, x.l, x.b, p);
        assert(bs_at(bs_all(m, s), t, p) =~= bs_at(m, t, p) + written(s, t, p));
    }
}

// ---- counts ----
pub open spec fn msum(m: Map<KeyV, nat>) -> nat
    decreases m.dom().len() when m.dom().finite() via msum_dec
{ if m.dom().len() == 0 { 0 } else { m[m.dom().choose()] + msum(m.remove(m.dom().choose())) } }
#[via_fn]
proof fn msum_dec(m: Map<KeyV, nat>) { if m.dom().len() != 0 { let k = m.dom().choose(); assert(m.dom().contains(k)); assert(m.remove(k).dom() =~= m.dom().remove(k)); } }
pub proof fn msum_remove(m: Map<KeyV, nat>, k: KeyV)
    requires m.dom().finite(), m.contains_key(k)
    ensures msum(m) == m[k] + msum(m.remove(k))
    decreases m.dom().len()
{
    let c = m.dom().choose();
    assert(m.dom().contains(k));
    assert(m.dom().len() > 0);
    assert(m.remove(c).dom() =~= m.dom().remove(c));
    assert(m.remove(k).dom() =~= m.dom().remove(k));
    if c != k {
        msum_remove(m.remove(c), k);
        msum_remove(m.remove(k), c);
        assert(m.remove(c).remove(k) =~= m.remove(k).remove(c));
    }
}
pub proof fn msum_insert(m: Map<KeyV, nat>, k: KeyV, n: nat)
    requires m.dom().finite()
    ensures msum(m.insert(k, n)) == (if m.contains_key(k) { msum(m) - m[k] + n } else { msum(m) as int + n }), m.contains_key(k) ==> m[k] <= msum(m)
{
    let a = m.insert(k, n);
    assert(a.dom() =~= m.dom().insert(k));
    msum_remove(a, k);
    if m.contains_key(k) { msum_remove(m, k); assert(a.remove(k) =~= m.remove(k)); } else { assert(a.remove(k) =~= m); }
}
pub open spec fn keys_differ<K, V>(s: Seq<(K, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> key_id(&(#[trigger] s[i]).0) != key_id(&(#[trigger] s[j]).0) }
/// summing in any order
pub proof fn msum_list<K, V>(m: Map<KeyV, nat>, s: Seq<(K, V)>, f: spec_fn((K, V)) -> nat)
    requires keys_differ(s),
        forall|k: KeyV| m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && key_id(&(#[trigger] s[i]).0) == k,
        forall|i: int| 0 <= i < s.len() ==> m.contains_key(key_id(&(#[trigger] s[i]).0)) && m[key_id(&s[i].0)] == f(s[i]),
    ensures m.dom().finite(), msum(m) == nsum(s.map_values(f))
    decreases s.len()
{
    if s.len() == 0 { assert(m.dom() =~= Set::empty()) by { assert forall|k: KeyV| !m.dom().contains(k) by { if m.contains_key(k) { let i = choose|i: int| 0 <= i < s.len() && key_id(&(#[trigger] s[i]).0) == k; } } } } else {
        let t = s.drop_last();
        let k = key_id(&s.last().0);
        let r = m.remove(k);
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies key_id(&(#[trigger] t[i]).0) != key_id(&(#[trigger] t[j]).0) by { assert(t[i] == s[i] && t[j] == s[j]); }
        assert forall|i: int| 0 <= i < t.len() implies r.contains_key(key_id(&(#[trigger] t[i]).0)) && r[key_id(&t[i].0)] == f(t[i]) by { assert(t[i] == s[i]); let x = s[s.len() - 1]; assert(key_id(&s[i].0) != key_id(&x.0)); }
        assert forall|q: KeyV| r.contains_key(q) implies exists|i: int| 0 <= i < t.len() && key_id(&(#[trigger] t[i]).0) == q by { let i = choose|i: int| 0 <= i < s.len() && key_id(&(#[trigger] s[i]).0) == q; assert(i < t.len()); assert(t[i] == s[i]); }
        msum_list(r, t, f);
        assert(m.dom() =~= r.dom().insert(k));
        let x = s[s.len() - 1];
        assert(m.contains_key(k));
        msum_remove(m, k);
        assert(s.map_values(f).drop_last() =~= t.map_values(f));
    }
}
pub proof fn hm_sum<K, V, S>(h: HashMap<K, V, S>, f: spec_fn((K, V)) -> nat)
    ensures hm_view(h, f).dom().finite(), msum(hm_view(h, f)) == nsum(hm_pairs(h).map_values(f))
{
    broadcast use hm_keys, hm_order, hm_distinct;
    let m = hm_view(h, f);
    let s = hm_pairs(h);
    assert forall|k: KeyV| m.contains_key(k) implies exists|i: int| 0 <= i < s.len() && key_id(&(#[trigger] s[i]).0) == k by { let x = hm_map(h)[k]; let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == hm_map(h)[k]; assert(key_id(&s[i].0) == k); }
    assert forall|i: int| 0 <= i < s.len() implies m.contains_key(key_id(&(#[trigger] s[i]).0)) && m[key_id(&s[i].0)] == f(s[i]) by { assert(hm_map(h).contains_key(key_id(&s[i].0))); }
    msum_list(m, s, f);
}
/// the number of bodies in the index
pub open spec fn ix_count<B>(x: IxV<B>) -> nat
    decreases x
{ match x { IxV::Body(s) => s.len(), IxV::Labels(e, m) => e.len() + msum(ix_counts(m)) } }
pub open spec fn ix_counts<B>(m: Map<KeyV, IxV<B>>) -> Map<KeyV, nat>
    decreases m
{ Map::new(m.dom(), |k: KeyV| if m.contains_key(k) { ix_count(m[k]) } else { 0 }) }
pub open spec fn vcount<B>() -> spec_fn(IxV<B>) -> nat { |x: IxV<B>| ix_count(x) }
pub proof fn ix_count_labels<B>(e: Seq<B>, m: Map<KeyV, IxV<B>>)
    ensures ix_count(IxV::Labels(e, m)) == e.len() + msum(m.map_values(vcount()))
{ assert(ix_counts(m) =~= m.map_values(vcount())); }
pub open spec fn ix_fin<B>(x: IxV<B>) -> bool
    decreases x
{ match x { IxV::Body(_) => true, IxV::Labels(_, m) => m.dom().finite() && forall|k: KeyV| m.contains_key(k) ==> ix_fin(#[trigger] m[k]) } }
/// a body more counts one more
pub proof fn k02_count<B>(x: IxV<B>, l: Seq<Seq<char>>, b: B)
    requires ix_fin(x)
    ensures ix_fin(ix_append(x, l, b)), ix_count(ix_append(x, l, b)) == ix_count(x) + 1
    decreases l.len()
{
    let (e, m) = match x { IxV::Body(s) => (s, Map::<KeyV, IxV<B>>::empty()), IxV::Labels(e, m) => (e, m) };
    ix_count_labels(e, m);
    if l.len() > 0 {
        let k = KeyV::Text(l[0]);
        let y = if m.contains_key(k) { m[k] } else { ix_none() };
        k02_count(y, l.skip(1), b);
        let z = ix_append(y, l.skip(1), b);
        ix_count_labels(e, m.insert(k, z));
        assert(m.insert(k, z).map_values(vcount()) =~= m.map_values(vcount()).insert(k, ix_count(z)));
        assert(m.map_values(vcount()).dom() =~= m.dom());
        msum_insert(m.map_values(vcount()), k, ix_count(z));
        assert(ix_append(x, l, b) == IxV::Labels(e, m.insert(k, z)));
        assert(x is Body ==> msum(m.map_values(vcount())) == 0) by { if x is Body { assert(m.map_values(vcount()).dom() =~= Set::empty()); } }
        assert forall|q: KeyV| m.insert(k, z).contains_key(q) implies ix_fin(#[trigger] m.insert(k, z)[q]) by { if q != k { assert(m.contains_key(q)); } }
    } else {
        ix_count_labels(e.push(b), m);
    }
}
pub open spec fn bs_count<B>(m: Map<KeyV, IxV<B>>) -> nat { msum(m.map_values(vcount())) }
pub open spec fn bs_fin<B>(m: Map<KeyV, IxV<B>>) -> bool { m.dom().finite() && forall|k: KeyV| m.contains_key(k) ==> ix_fin(#[trigger] m[k]) }
/// indexing keeps every block: as many bodies as blocks
pub proof fn k02_count_all<B>(m: Map<KeyV, IxV<B>>, s: Seq<BkV<B>>)
    requires bs_fin(m)
    ensures bs_fin(bs_all(m, s)), bs_count(bs_all(m, s)) == bs_count(m) + s.len()
    decreases s.len()
{
    if s.len() > 0 {
        k02_count_all(m, s.drop_last());
        let a = bs_all(m, s.drop_last());
        let x = s.last();
        let k = KeyV::Text(x.t);
        let y = if a.contains_key(k) { a[k] } else { ix_none() };
        k02_count(y, x.l, x.b);
        let z = ix_append(y, x.l, x.b);
        assert(a.insert(k, z).map_values(vcount()) =~= a.map_values(vcount()).insert(k, ix_count(z)));
        assert(a.map_values(vcount()).dom() =~= a.dom());
        msum_insert(a.map_values(vcount()), k, ix_count(z));
        assert forall|q: KeyV| a.insert(k, z).contains_key(q) implies ix_fin(#[trigger] a.insert(k, z)[q]) by { if q != k { assert(a.contains_key(q)); } }
    }
}
pub proof fn ixv_fin<'a>(x: BlockBody<'a>)
    ensures ix_fin(ixv(x))
    decreases x
{
    broadcast use hm_height, ixv_labels;
    match x {
        BlockBody::Body(_) => {}
        BlockBody::Labels { empty, labels } => {
            let m = hm_view(labels, vix());
            hm_sum(labels, |p: (BlockLabel<'a>, BlockBody<'a>)| 0nat);
            assert(m.dom() =~= hm_view(labels, |p: (BlockLabel<'a>, BlockBody<'a>)| 0nat).dom());
            assert forall|k: KeyV| m.contains_key(k) implies ix_fin(#[trigger] m[k]) by { let p = hm_map(labels)[k]; assert(decreases_to!(labels => p)); ixv_fin(p.1); }
        }
    }
}
pub open spec fn vcnt<'a, K>() -> spec_fn((K, BlockBody<'a>)) -> nat { |p: (K, BlockBody<'a>)| ix_count(ixv(p.1)) }
pub proof fn bs_count_pairs<'a, K>(h: HashMap<K, BlockBody<'a>>)
    ensures bs_count(hm_view(h, vix())) == nsum(hm_pairs(h).map_values(vcnt())), bs_fin(hm_view(h, vix()))
{
    hm_sum(h, vcnt());
    assert(hm_view(h, vix()).map_values(vcount()) =~= hm_view(h, vcnt()));
    assert(hm_view(h, vix()).dom() =~= hm_view(h, vcnt()).dom());
    let m = hm_view(h, vix());
    assert forall|k: KeyV| m.contains_key(k) implies ix_fin(#[trigger] m[k]) by { ixv_fin(hm_map(h)[k].1); }
}
pub proof fn ix_count_pairs<'a>(empty: Vec<Body<'a>>, labels: HashMap<BlockLabel<'a>, BlockBody<'a>>)
    ensures ix_count(ixv(BlockBody::Labels { empty, labels })) == empty@.len() + nsum(hm_pairs(labels).map_values(vcnt()))
{ broadcast use ixv_labels; bs_count_pairs(labels); ix_count_labels(empty@, hm_view(labels, vix())); }

// ---- label lengths ----
/// the index has a place with bodies `n` labels down
pub open spec fn ix_len<B>(x: IxV<B>, n: nat) -> bool
    decreases n, 0nat
{
    match x {
        IxV::Body(_) => n == 0,
        IxV::Labels(e, m) => if n == 0 { e.len() > 0 } else { some_len(m, (n - 1) as nat) },
    }
}
pub open spec fn some_len<B>(m: Map<KeyV, IxV<B>>, n: nat) -> bool
    decreases n, 1nat
{ exists|k: KeyV| m.contains_key(k) && ix_len(#[trigger] m[k], n) }
/// no part of the index is empty
pub open spec fn ix_wf<B>(x: IxV<B>) -> bool
    decreases x
{ match x { IxV::Body(s) => s.len() > 0, IxV::Labels(_, m) => some_key(m) && forall|k: KeyV| m.contains_key(k) ==> ix_wf(#[trigger] m[k]) } }
pub open spec fn some_key<V>(m: Map<KeyV, V>) -> bool { exists|k: KeyV| m.contains_key(k) }
pub open spec fn all_wf<B>(m: Map<KeyV, IxV<B>>) -> bool { forall|k: KeyV| m.contains_key(k) ==> ix_wf(#[trigger] m[k]) }
pub proof fn ix_wf_labels<B>(e: Seq<B>, m: Map<KeyV, IxV<B>>) requires all_wf(m), some_key(m) ensures ix_wf(IxV::Labels(e, m)) { }
pub proof fn k02_wf<B>(x: IxV<B>, l: Seq<Seq<char>>, b: B)
    requires ix_wf(x) || x == ix_none::<B>()
    ensures ix_wf(ix_append(x, l, b))
    decreases l.len()
{
    if l.len() > 0 {
        let (e, m) = match x { IxV::Body(s) => (s, Map::<KeyV, IxV<B>>::empty()), IxV::Labels(e, m) => (e, m) };
        let k = KeyV::Text(l[0]);
        let y = if m.contains_key(k) { m[k] } else { ix_none() };
        k02_wf(y, l.skip(1), b);
        let n = m.insert(k, ix_append(y, l.skip(1), b));
        assert(n.contains_key(k));
        assert(n[k] == ix_append(y, l.skip(1), b));
        assert(x is Labels ==> ix_wf(x));
        assert forall|q: KeyV| n.contains_key(q) implies ix_wf(#[trigger] n[q]) by { if q != k { assert(m.contains_key(q)); } }
        assert(ix_append(x, l, b) == IxV::Labels(e, n));
        assert(n.dom().contains(k));
        assert(some_key(n)); ix_wf_labels(e, n);
    } else { match x { IxV::Labels(_, m) => { let k = choose|k: KeyV| m.contains_key(k); assert(m.contains_key(k)); } _ => {} } }
}
pub open spec fn bs_wf<B>(m: Map<KeyV, IxV<B>>) -> bool { forall|k: KeyV| m.contains_key(k) ==> ix_wf(#[trigger] m[k]) }
pub proof fn k02_wf_all<B>(m: Map<KeyV, IxV<B>>, s: Seq<BkV<B>>)
    requires bs_wf(m)
    ensures bs_wf(bs_all(m, s))
    decreases s.len()
{
    if s.len() > 0 {
        k02_wf_all(m, s.drop_last());
        let a = bs_all(m, s.drop_last());
        let x = s.last();
        let k = KeyV::Text(x.t);
        k02_wf(if a.contains_key(k) { a[k] } else { ix_none() }, x.l, x.b);
        assert forall|q: KeyV| bs_all(m, s).contains_key(q) implies ix_wf(#[trigger] bs_all(m, s)[q]) by { if q != k { assert(a.contains_key(q)); } }
    }
}
pub open spec fn only_text<B>(x: IxV<B>) -> bool
    decreases x
{ match x { IxV::Body(_) => true, IxV::Labels(_, m) => (forall|k: KeyV| #[trigger] m.contains_key(k) ==> k is Text) && (forall|k: KeyV| m.contains_key(k) ==> only_text(#[trigger] m[k])) } }
pub open spec fn all_text<B>(m: Map<KeyV, IxV<B>>) -> bool { (forall|k: KeyV| #[trigger] m.contains_key(k) ==> k is Text) && (forall|k: KeyV| m.contains_key(k) ==> only_text(#[trigger] m[k])) }
pub proof fn only_text_labels<B>(e: Seq<B>, m: Map<KeyV, IxV<B>>) requires all_text(m) ensures only_text(IxV::Labels(e, m)) { }
pub proof fn ixv_text<'a>(x: BlockBody<'a>)
    ensures only_text(ixv(x))
    decreases x
{
    broadcast use hm_height, hm_keys, ixv_labels, key_id_label;
    match x {
        BlockBody::Body(_) => {}
        BlockBody::Labels { empty, labels } => {
            let m = hm_view(labels, vix());
            assert(x == BlockBody::Labels { empty, labels });
            assert forall|k: KeyV| #[trigger] m.contains_key(k) implies k is Text && only_text(m[k]) by { let p = hm_map(labels)[k]; assert(decreases_to!(labels => p)); assert(key_id(&p.0) == k); assert(key_id(&p.0) == KeyV::Text(ltext(p.0))); ixv_text(p.1); assert(m[k] == ixv(p.1)); }
            assert(ixv(x) == IxV::Labels(empty@, m));
            only_text_labels(empty@, m);
        }
    }
}
/// a length is reported exactly where there are bodies under that many labels
pub proof fn k02_lens<B>(x: IxV<B>, n: nat)
    requires ix_wf(x), only_text(x)
    ensures ix_len(x, n) <==> exists|p: Seq<Seq<char>>| p.len() == n && (#[trigger] ix_at(x, p)).len() > 0
    decreases n
{
    if n == 0 {
        if ix_len(x, n) { let p = Seq::<Seq<char>>::empty(); assert(ix_at(x, p).len() > 0); }
        if exists|p: Seq<Seq<char>>| p.len() == n && (#[trigger] ix_at(x, p)).len() > 0 { let p = choose|p: Seq<Seq<char>>| p.len() == n && (#[trigger] ix_at(x, p)).len() > 0; }
    } else {
        match x {
            IxV::Body(_) => { assert forall|p: Seq<Seq<char>>| p.len() == n implies (#[trigger] ix_at(x, p)).len() == 0 by {} }
            IxV::Labels(e, m) => {
                if ix_len(x, n) {
                    let k = choose|k: KeyV| m.contains_key(k) && ix_len(#[trigger] m[k], (n - 1) as nat);
                    k02_lens(m[k], (n - 1) as nat);
                    let q = choose|p: Seq<Seq<char>>| p.len() == n - 1 && (#[trigger] ix_at(m[k], p)).len() > 0;
                    let p = seq![k->Text_0] + q;
                    assert(p.skip(1) =~= q);
                    assert(ix_at(x, p) == ix_at(m[k], q));
                }
                if exists|p: Seq<Seq<char>>| p.len() == n && (#[trigger] ix_at(x, p)).len() > 0 {
                    let p = choose|p: Seq<Seq<char>>| p.len() == n && (#[trigger] ix_at(x, p)).len() > 0;
                    let k = KeyV::Text(p[0]);
                    assert(m.contains_key(k));
                    assert(ix_at(m[k], p.skip(1)).len() > 0);
                    assert(p.skip(1).len() == n - 1);
                    k02_lens(m[k], (n - 1) as nat);
                    assert(ix_len(m[k], (n - 1) as nat));
                }
            }
        }
    }
}
pub proof fn ix_some_len<B>(x: IxV<B>) -> (n: nat)
    requires ix_wf(x)
    ensures ix_len(x, n)
    decreases x
{
    match x { IxV::Body(_) => 0, IxV::Labels(_, m) => { let k = choose|k: KeyV| m.contains_key(k); let n = ix_some_len(m[k]); assert(m.contains_key(k) && ix_len(m[k], ((n + 1) - 1) as nat)); n + 1 } }
}
/// the one length of all labels of the index
pub open spec fn uniform<B>(x: IxV<B>, r: Option<usize>) -> bool {
    match r {
        Some(n) => forall|k: nat| #[trigger] ix_len(x, k) <==> k == n,
        None => exists|a: nat, b: nat| a != b && #[trigger] ix_len(x, a) && #[trigger] ix_len(x, b),
    }
}

// ---- the flattened index ----
pub open spec fn pre<B>(k: Seq<char>, s: Seq<(Seq<Seq<char>>, B)>) -> Seq<(Seq<Seq<char>>, B)> { s.map_values(|p: (Seq<Seq<char>>, B)| (seq![k] + p.0, p.1)) }
pub open spec fn bare<B>(s: Seq<B>) -> Seq<(Seq<Seq<char>>, B)> { s.map_values(|b: B| (Seq::<Seq<char>>::empty(), b)) }
/// the parts of the labels one after the other
pub open spec fn cat<A>(s: Seq<Seq<A>>) -> Seq<A>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { cat(s.drop_last()) + s.last() } }
pub open spec fn flat<'a>(x: BlockBody<'a>) -> Seq<(Seq<Seq<char>>, Body<'a>)>
    decreases x via flat_dec
{
    match x {
        BlockBody::Body(v) => bare(v@),
        BlockBody::Labels { empty, labels } => bare(empty@) + cat(flat_parts(labels)),
    }
}
pub open spec fn flat_parts<'a>(labels: HashMap<BlockLabel<'a>, BlockBody<'a>>) -> Seq<Seq<(Seq<Seq<char>>, Body<'a>)>>
    decreases labels via flat_parts_dec
{ Seq::new(hm_pairs(labels).len(), |i: int| if 0 <= i < hm_pairs(labels).len() { pre(ltext(hm_pairs(labels)[i].0), flat(hm_pairs(labels)[i].1)) } else { Seq::empty() }) }
#[via_fn]
proof fn flat_parts_dec<'a>(labels: HashMap<BlockLabel<'a>, BlockBody<'a>>) { broadcast use hm_height_at; }
#[via_fn]
proof fn flat_dec<'a>(x: BlockBody<'a>) { broadcast use hm_height_at; }
pub open spec fn vflat<'a>() -> spec_fn((BlockLabel<'a>, BlockBody<'a>)) -> Seq<(Seq<Seq<char>>, Body<'a>)> { |p: (BlockLabel<'a>, BlockBody<'a>)| pre(ltext(p.0), flat(p.1)) }
pub broadcast proof fn flat_body<'a>(v: Vec<Body<'a>>) ensures #[trigger] flat(BlockBody::Body(v)) == bare(v@) {}
pub broadcast proof fn flat_labels<'a>(empty: Vec<Body<'a>>, labels: HashMap<BlockLabel<'a>, BlockBody<'a>>)
    ensures #[trigger] flat(BlockBody::Labels { empty, labels }) == bare(empty@) + cat(hm_pairs(labels).map_values(vflat()))
{ assert(flat_parts(labels) =~= hm_pairs(labels).map_values(vflat())); }
/// the data listed with labels `p`, in order
pub open spec fn listed<P, B>(s: Seq<(P, B)>, p: P) -> Seq<B>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if s.last().0 == p { listed(s.drop_last(), p).push(s.last().1) } else { listed(s.drop_last(), p) } }
pub proof fn listed_add<P, B>(s: Seq<(P, B)>, t: Seq<(P, B)>, p: P)
    ensures listed(s + t, p) == listed(s, p) + listed(t, p)
    decreases t.len()
{
    if t.len() == 0 { assert(s + t =~= s); assert(listed(s, p) + listed(t, p) =~= listed(s, p)); } else {
        assert((s + t).drop_last() =~= s + t.drop_last());
        listed_add(s, t.drop_last(), p);
        assert(listed(s + t, p) =~= listed(s, p) + listed(t, p));
    }
}
pub proof fn listed_bare<B>(s: Seq<B>, p: Seq<Seq<char>>)
    ensures listed(bare(s), p) == (if p.len() == 0 { s } else { Seq::empty() })
    decreases s.len()
{
    if s.len() > 0 {
        assert(bare(s).drop_last() =~= bare(s.drop_last()));
        listed_bare(s.drop_last(), p);
        if p.len() == 0 { assert(p =~= Seq::empty()); assert(s.drop_last().push(s.last()) =~= s); }
    } else if p.len() == 0 { assert(s =~= Seq::empty()); }
}
pub proof fn listed_pre<B>(k: Seq<char>, s: Seq<(Seq<Seq<char>>, B)>, p: Seq<Seq<char>>)
    ensures listed(pre(k, s), p) == (if p.len() > 0 && p[0] == k { listed(s, p.skip(1)) } else { Seq::empty() })
    decreases s.len()
{
    if s.len() > 0 {
        assert(pre(k, s).drop_last() =~= pre(k, s.drop_last()));
        listed_pre(k, s.drop_last(), p);
        let q = s.last().0;
        assert(seq![k] + q == p <==> (p.len() > 0 && p[0] == k && p.skip(1) == q)) by { if p.len() > 0 && p[0] == k && p.skip(1) == q { assert(seq![k] + q =~= p); } else if seq![k] + q == p { assert((seq![k] + q)[0] == k); assert(p.skip(1) =~= q); } }
    }
}
/// the parts of entries with distinct keys
pub proof fn listed_cat<'a>(s: Seq<(BlockLabel<'a>, BlockBody<'a>)>, p: Seq<Seq<char>>)
    requires keys_differ(s)
    ensures (forall|i: int| 0 <= i < s.len() ==> p.len() == 0 || ltext((#[trigger] s[i]).0) != p[0]) ==> listed(cat(s.map_values(vflat())), p) == Seq::<Body<'a>>::empty(),
        forall|i: int| 0 <= i < s.len() && p.len() > 0 && ltext((#[trigger] s[i]).0) == p[0] ==> listed(cat(s.map_values(vflat())), p) == listed(flat(s[i].1), p.skip(1)),
    decreases s.len()
{
    broadcast use key_id_label;
    if s.len() > 0 {
        let t = s.drop_last();
        assert(s.map_values(vflat()).drop_last() =~= t.map_values(vflat()));
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies key_id(&(#[trigger] t[i]).0) != key_id(&(#[trigger] t[j]).0) by { assert(t[i] == s[i] && t[j] == s[j]); }
        listed_cat(t, p);
        let x = s[s.len() - 1];
        let last = pre(ltext(x.0), flat(x.1));
        listed_add(cat(t.map_values(vflat())), last, p);
        listed_pre(ltext(x.0), flat(x.1), p);
        let a = listed(cat(t.map_values(vflat())), p);
        assert(listed(cat(s.map_values(vflat())), p) == a + listed(last, p));
        if p.len() > 0 && ltext(x.0) == p[0] {
            assert forall|i: int| 0 <= i < t.len() implies ltext((#[trigger] t[i]).0) != p[0] by { assert(t[i] == s[i]); assert(key_id(&s[i].0) != key_id(&x.0)); }
            assert(a + listed(last, p) =~= listed(last, p));
            assert forall|i: int| 0 <= i < s.len() && p.len() > 0 && ltext((#[trigger] s[i]).0) == p[0] implies i == s.len() - 1 by { if i < t.len() { assert(t[i] == s[i]); } }
        } else {
            assert(a + listed(last, p) =~= a);
            assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) == s[i] by {}
            assert forall|i: int| 0 <= i < s.len() && p.len() > 0 && ltext((#[trigger] s[i]).0) == p[0] implies a == listed(flat(s[i].1), p.skip(1)) by { assert(i < t.len()); assert(t[i] == s[i]); }
            if forall|i: int| 0 <= i < s.len() ==> p.len() == 0 || ltext((#[trigger] s[i]).0) != p[0] { assert forall|i: int| 0 <= i < t.len() implies p.len() == 0 || ltext((#[trigger] t[i]).0) != p[0] by { assert(t[i] == s[i]); } }
        }
    }
}
/// flattening lists under each label list exactly the bodies held there, in order
pub proof fn k02_flat<'a>(x: BlockBody<'a>, p: Seq<Seq<char>>)
    ensures listed(flat(x), p) == ix_at(ixv(x), p)
    decreases x
{
    broadcast use hm_height, hm_keys, hm_order, hm_distinct, ixv_labels, flat_labels, key_id_label;
    match x {
        BlockBody::Body(v) => { listed_bare(v@, p); }
        BlockBody::Labels { empty, labels } => {
            let s = hm_pairs(labels);
            listed_bare(empty@, p);
            listed_add(bare(empty@), cat(s.map_values(vflat())), p);
            listed_cat(s, p);
            let m = hm_view(labels, vix());
            if p.len() == 0 { assert(empty@ + Seq::<Body<'a>>::empty() =~= empty@); } else {
                let k = KeyV::Text(p[0]);
                assert(forall|b: Seq<Body<'a>>| Seq::<Body<'a>>::empty() + b =~= b);
                if hm_map(labels).contains_key(k) {
                    let e = hm_map(labels)[k];
                    let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == e;
                    assert(key_id(&e.0) == k);
                    assert(ltext(s[i].0) == p[0]);
                    assert(decreases_to!(labels => e));
                    k02_flat(e.1, p.skip(1));
                    assert(m[k] == ixv(e.1));
                } else {
                    assert forall|i: int| 0 <= i < s.len() implies ltext((#[trigger] s[i]).0) != p[0] by { assert(hm_map(labels).contains_key(key_id(&s[i].0))); }
                }
            }
        }
    }
}
}
use std::collections::hash_map;
verus! {
/// the value of a place that is written next
#[verifier::external_body]
pub fn take_out<T>(t: &mut T) -> (r: T) ensures r == *old(t) { unsafe { std::ptr::read(t) } }
/// Vec::drain, as the list of what is removed
#[verifier::external_body]
pub fn drain_part<T>(v: &mut Vec<T>, p: std::ops::Range<usize>) -> (r: Vec<T>)
    requires p.start <= p.end <= old(v)@.len()
    ensures r@ == old(v)@.subrange(p.start as int, p.end as int), final(v)@ == old(v)@.take(p.start as int) + old(v)@.skip(p.end as int)
{ v.drain(p).collect() }
/// the first of a list of items
#[verifier::external_body]
pub fn first_item<T>(v: &mut Vec<T>) -> (r: Option<T>)
    ensures match r { Some(x) => old(v)@.len() > 0 && x == old(v)@[0] && final(v)@ == old(v)@.skip(1), None => old(v)@.len() == 0 && *final(v) == *old(v) }
{ if v.is_empty() { None } else { Some(v.remove(0)) } }
#[verifier::external_body]
pub fn hm_get_mut<'a, K: std::hash::Hash + Eq + std::borrow::Borrow<Q>, V, S: std::hash::BuildHasher, Q: ?Sized + std::hash::Hash + Eq>(m: &'a mut HashMap<K, V, S>, k: &Q) -> (r: Option<&'a mut V>)
    ensures match r {
        Some(v) => hm_map(*old(m)).contains_key(key_id(k)) && *v == hm_map(*old(m))[key_id(k)].1 && hm_map(*final(m)) == hm_map(*old(m)).insert(key_id(k), (hm_map(*old(m))[key_id(k)].0, *final(v))),
        None => !hm_map(*old(m)).contains_key(key_id(k)) && *final(m) == *old(m),
    }
{ m.get_mut(k) }
pub open spec fn texts<S: AsRef<str>>(s: Seq<S>) -> Seq<Seq<char>> { s.map_values(|x: S| text_of(x)) }
#[verifier::external_body]
pub fn first_rest<'a, T>(s: &'a [T]) -> (r: Option<(&'a T, &'a [T])>)
    ensures match r { Some(p) => s@.len() > 0 && *p.0 == s@[0] && p.1@ == s@.skip(1), None => s@.len() == 0 }
{ s.split_first() }
pub proof fn texts_skip<S: AsRef<str>>(s: Seq<S>)
    requires s.len() > 0
    ensures texts(s.skip(1)) == texts(s).skip(1), texts(s)[0] == text_of(s[0])
{ assert(texts(s.skip(1)) =~= texts(s).skip(1)); }
pub proof fn ltexts_skip<'a>(s: Seq<BlockLabel<'a>>)
    requires s.len() > 0
    ensures ltexts(s.skip(1)) == ltexts(s).skip(1), ltexts(s)[0] == ltext(s[0]), s.take(0) + s.skip(1) == s.skip(1)
{ assert(ltexts(s.skip(1)) =~= ltexts(s).skip(1)); assert(s.take(0) + s.skip(1) =~= s.skip(1)); }
pub broadcast proof fn ix_entered<'a, K>(m: HashMap<K, BlockBody<'a>>, id: KeyV, k: K, x: BlockBody<'a>)
    ensures #[trigger] hm_map(m).insert(id, (k, x)).map_values(vix()) == hm_view(m, vix()).insert(id, ixv(x))
{ assert(hm_map(m).insert(id, (k, x)).map_values(vix()) =~= hm_view(m, vix()).insert(id, ixv(x))); }
pub broadcast proof fn hm_view_none<K, V, T>(m: HashMap<K, V>, f: spec_fn((K, V)) -> T)
    requires hm_map(m) == Map::<KeyV, (K, V)>::empty()
    ensures #[trigger] hm_view(m, f) == Map::<KeyV, T>::empty()
{ assert(hm_view(m, f) =~= Map::<KeyV, T>::empty()); }
pub broadcast proof fn map_same<K, V>(m: Map<K, V>, k: K, v: V)
    requires m.contains_key(k), m[k] == v
    ensures #[trigger] m.insert(k, v) == m
{ assert(m.insert(k, v) =~= m); }
pub open spec fn opt_ix<'a>(r: Option<&BlockBody<'a>>) -> Option<IxV<Body<'a>>> { match r { Some(x) => Some(ixv(*x)), None => None } }
pub open spec fn blk<'a>() -> spec_fn(Block<'a>) -> BkV<Body<'a>> { |b: Block<'a>| BkV { t: b.r#type@, l: ltexts(b.labels@), b: b.body } }
pub open spec fn lbd<'a>() -> spec_fn((Vec<BlockLabel<'a>>, Body<'a>)) -> (Seq<Seq<char>>, Body<'a>) { |b: (Vec<BlockLabel<'a>>, Body<'a>)| (ltexts(b.0@), b.1) }
pub open spec fn ix_all<B>(m: IxV<B>, s: Seq<(Seq<Seq<char>>, B)>) -> IxV<B>
    decreases s.len()
{ if s.len() == 0 { m } else { ix_append(ix_all(m, s.drop_last()), s.last().0, s.last().1) } }
pub proof fn bs_all_step<'a>(m: Map<KeyV, IxV<Body<'a>>>, s: Seq<Block<'a>>, n: int)
    requires 0 <= n < s.len()
    ensures bs_all(m, s.take(n + 1).map_values(blk())) == bs_append(bs_all(m, s.take(n).map_values(blk())), s[n].r#type@, ltexts(s[n].labels@), s[n].body)
{ assert(s.take(n + 1).map_values(blk()).drop_last() =~= s.take(n).map_values(blk())); }
pub proof fn ix_all_step<'a>(m: IxV<Body<'a>>, s: Seq<(Vec<BlockLabel<'a>>, Body<'a>)>, n: int)
    requires 0 <= n < s.len()
    ensures ix_all(m, s.take(n + 1).map_values(lbd())) == ix_append(ix_all(m, s.take(n).map_values(lbd())), ltexts(s[n].0@), s[n].1)
{ assert(s.take(n + 1).map_values(lbd()).drop_last() =~= s.take(n).map_values(lbd())); }
#[verifier::external_body]
pub fn hm_is_empty<K, V, S>(m: &HashMap<K, V, S>) -> (r: bool) ensures r == (hm_pairs(*m).len() == 0), r == (forall|k: KeyV| !hm_map(*m).contains_key(k)) { m.is_empty() }
/// as many keys as entries
pub proof fn hm_count<K, V, S>(h: HashMap<K, V, S>)
    ensures hm_map(h).dom().finite(), hm_map(h).dom().len() == hm_pairs(h).len()
{
    broadcast use hm_keys, hm_order, hm_distinct;
    let s = hm_pairs(h).map_values(|p: (K, V)| key_id(&p.0));
    assert(s.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { let a = hm_pairs(h)[i]; let b = hm_pairs(h)[j]; } }
    s.unique_seq_to_set();
    assert(s.to_set() =~= hm_map(h).dom()) by {
        assert forall|k: KeyV| s.to_set().contains(k) <==> hm_map(h).dom().contains(k) by {
            if s.to_set().contains(k) { let i = choose|i: int| 0 <= i < s.len() && s[i] == k; let p = hm_pairs(h)[i]; assert(hm_map(h).contains_key(key_id(&p.0))); }
            if hm_map(h).contains_key(k) { let e = hm_map(h)[k]; let i = choose|i: int| 0 <= i < hm_pairs(h).len() && #[trigger] hm_pairs(h)[i] == e; assert(s[i] == k); }
        }
    }
}

// ---- label lengths of the real index ----
pub proof fn ix_pairs<'a>(empty: Vec<Body<'a>>, labels: HashMap<BlockLabel<'a>, BlockBody<'a>>)
    ensures forall|i: int| #![trigger hm_pairs(labels)[i]] 0 <= i < hm_pairs(labels).len() ==> hm_view(labels, vix()).contains_key(key_id(&hm_pairs(labels)[i].0)) && hm_view(labels, vix())[key_id(&hm_pairs(labels)[i].0)] == ixv(hm_pairs(labels)[i].1),
        forall|k: KeyV| hm_view(labels, vix()).contains_key(k) ==> exists|i: int| 0 <= i < hm_pairs(labels).len() && key_id(&(#[trigger] hm_pairs(labels)[i]).0) == k,
{
    broadcast use hm_keys, hm_order, hm_distinct;
    let s = hm_pairs(labels);
    assert forall|k: KeyV| hm_view(labels, vix()).contains_key(k) implies exists|i: int| 0 <= i < s.len() && key_id(&(#[trigger] s[i]).0) == k by { let e = hm_map(labels)[k]; let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == e; assert(key_id(&s[i].0) == k); }
    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies hm_view(labels, vix()).contains_key(key_id(&s[i].0)) && hm_view(labels, vix())[key_id(&s[i].0)] == ixv(s[i].1) by { assert(hm_map(labels).contains_key(key_id(&s[i].0))); }
}
pub proof fn ix_len_labels<B>(e: Seq<B>, m: Map<KeyV, IxV<B>>, k: KeyV, n: nat)
    requires m.contains_key(k), ix_len(m[k], n)
    ensures ix_len(IxV::Labels(e, m), n + 1)
{ assert(some_len(m, n)); }
pub proof fn uniform_once<B>(x: IxV<B>)
    ensures forall|r: Option<usize>| #[trigger] uniform(x, r) ==> (r is Some <==> exists|n: usize| uniform(x, Some(n)))
{
    assert forall|r: Option<usize>| #[trigger] uniform(x, r) implies (r is Some <==> exists|n: usize| uniform(x, Some(n))) by {
        if r is Some { assert(uniform(x, Some(r->0))); } else if exists|n: usize| uniform(x, Some(n)) {
            let n = choose|n: usize| uniform(x, Some(n));
            let (a, b) = choose|a: nat, b: nat| a != b && #[trigger] ix_len(x, a) && #[trigger] ix_len(x, b);
        }
    }
}
/// some entry has a place with bodies `n` labels down
pub open spec fn in_entry<'a>(h: HashMap<BlockLabel<'a>, BlockBody<'a>>, n: nat) -> bool { exists|i: int| 0 <= i < hm_pairs(h).len() && ix_len(ixv((#[trigger] hm_pairs(h)[i]).1), n) }
pub proof fn ix_len_pairs<'a>(empty: Vec<Body<'a>>, labels: HashMap<BlockLabel<'a>, BlockBody<'a>>)
    ensures forall|n: nat| #[trigger] ix_len(ixv(BlockBody::Labels { empty, labels }), n) == (if n == 0 { empty@.len() > 0 } else { in_entry(labels, (n - 1) as nat) }),
{
    broadcast use ixv_labels;
    ix_pairs(empty, labels);
    let m = hm_view(labels, vix());
    let s = hm_pairs(labels);
    assert forall|n: nat| #[trigger] ix_len(ixv(BlockBody::Labels { empty, labels }), n) == (if n == 0 { empty@.len() > 0 } else { in_entry(labels, (n - 1) as nat) }) by {
        if n > 0 {
            let j = (n - 1) as nat;
            if in_entry(labels, j) { let i = choose|i: int| 0 <= i < s.len() && ix_len(ixv((#[trigger] s[i]).1), j); let k = key_id(&s[i].0); ix_len_labels(empty@, m, k, j); }
            if ix_len(IxV::Labels(empty@, m), n) { assert(some_len(m, j)); let k = choose|k: KeyV| m.contains_key(k) && ix_len(#[trigger] m[k], j); let i = choose|i: int| 0 <= i < s.len() && key_id(&(#[trigger] s[i]).0) == k; assert(ix_len(ixv(s[i].1), j)); assert(in_entry(labels, j)); }
        }
    }
}
pub proof fn ix_wf_pairs<'a>(empty: Vec<Body<'a>>, labels: HashMap<BlockLabel<'a>, BlockBody<'a>>)
    requires ix_wf(ixv(BlockBody::Labels { empty, labels }))
    ensures hm_pairs(labels).len() > 0, forall|i: int| 0 <= i < hm_pairs(labels).len() ==> ix_wf(ixv((#[trigger] hm_pairs(labels)[i]).1))
{
    broadcast use ixv_labels;
    ix_pairs(empty, labels);
    let m = hm_view(labels, vix());
    assert(some_key(m));
    let k = choose|k: KeyV| m.contains_key(k);
    let i = choose|i: int| 0 <= i < hm_pairs(labels).len() && key_id(&(#[trigger] hm_pairs(labels)[i]).0) == k;
}
/// lengths that fit in a machine word
pub open spec fn lens_fit<B>(x: IxV<B>) -> bool { forall|n: nat| #[trigger] ix_len(x, n) ==> n <= usize::MAX }
pub proof fn lens_fit_in<'a>(empty: Vec<Body<'a>>, labels: HashMap<BlockLabel<'a>, BlockBody<'a>>)
    requires lens_fit(ixv(BlockBody::Labels { empty, labels }))
    ensures forall|i: int, n: nat| #![trigger ix_len(ixv(hm_pairs(labels)[i].1), n)] 0 <= i < hm_pairs(labels).len() && ix_len(ixv(hm_pairs(labels)[i].1), n) ==> n + 1 <= usize::MAX,
        forall|i: int| 0 <= i < hm_pairs(labels).len() ==> lens_fit(ixv((#[trigger] hm_pairs(labels)[i]).1)),
{
    ix_len_pairs(empty, labels);
    assert forall|i: int, n: nat| #![trigger ix_len(ixv(hm_pairs(labels)[i].1), n)] 0 <= i < hm_pairs(labels).len() && ix_len(ixv(hm_pairs(labels)[i].1), n) implies n + 1 <= usize::MAX by { let p = hm_pairs(labels)[i]; assert(in_entry(labels, n)); assert(ix_len(ixv(BlockBody::Labels { empty, labels }), (n + 1) as nat)); }
    assert forall|i: int| 0 <= i < hm_pairs(labels).len() implies lens_fit(ixv((#[trigger] hm_pairs(labels)[i]).1)) by {}
}
/// the decision of label_lens_uniform
pub proof fn uniform_mixed<'a>(empty: Vec<Body<'a>>, labels: HashMap<BlockLabel<'a>, BlockBody<'a>>)
    requires ix_wf(ixv(BlockBody::Labels { empty, labels })), empty@.len() > 0
    ensures uniform(ixv(BlockBody::Labels { empty, labels }), None::<usize>)
{
    ix_len_pairs(empty, labels); ix_wf_pairs(empty, labels);
    let x = ixv(BlockBody::Labels { empty, labels });
    let p = hm_pairs(labels)[0];
    let n = ix_some_len(ixv(p.1));
    assert(in_entry(labels, n));
    assert(ix_len(x, 0) && ix_len(x, n + 1));
}
pub proof fn uniform_one<'a>(empty: Vec<Body<'a>>, labels: HashMap<BlockLabel<'a>, BlockBody<'a>>, i: int)
    requires 0 <= i < hm_pairs(labels).len(), uniform(ixv(hm_pairs(labels)[i].1), None::<usize>)
    ensures uniform(ixv(BlockBody::Labels { empty, labels }), None::<usize>)
{
    ix_len_pairs(empty, labels);
    let x = ixv(BlockBody::Labels { empty, labels });
    let y = ixv(hm_pairs(labels)[i].1);
    let (a, b) = choose|a: nat, b: nat| a != b && #[trigger] ix_len(y, a) && #[trigger] ix_len(y, b);
    assert(in_entry(labels, a) && in_entry(labels, b));
    assert(ix_len(x, a + 1) && ix_len(x, b + 1));
}
pub proof fn uniform_two<'a>(empty: Vec<Body<'a>>, labels: HashMap<BlockLabel<'a>, BlockBody<'a>>, i: int, j: int, n: usize, r: Option<usize>)
    requires 0 <= i < hm_pairs(labels).len(), 0 <= j < hm_pairs(labels).len(), uniform(ixv(hm_pairs(labels)[i].1), Some(n)), uniform(ixv(hm_pairs(labels)[j].1), r), r != Some(n)
    ensures uniform(ixv(BlockBody::Labels { empty, labels }), None::<usize>)
{
    match r {
        None => { uniform_one(empty, labels, j); }
        Some(k) => {
            ix_len_pairs(empty, labels);
            let x = ixv(BlockBody::Labels { empty, labels });
            let a = n as nat; let b = k as nat;
            assert(ix_len(ixv(hm_pairs(labels)[i].1), a) && ix_len(ixv(hm_pairs(labels)[j].1), b));
            assert(in_entry(labels, a) && in_entry(labels, b));
            assert(ix_len(x, a + 1) && ix_len(x, b + 1));
        }
    }
}
pub proof fn uniform_all<'a>(empty: Vec<Body<'a>>, labels: HashMap<BlockLabel<'a>, BlockBody<'a>>, n: usize)
    requires ix_wf(ixv(BlockBody::Labels { empty, labels })), lens_fit(ixv(BlockBody::Labels { empty, labels })), empty@.len() == 0, forall|i: int| 0 <= i < hm_pairs(labels).len() ==> uniform(ixv((#[trigger] hm_pairs(labels)[i]).1), Some(n))
    ensures n < usize::MAX, uniform(ixv(BlockBody::Labels { empty, labels }), Some((n + 1) as usize))
{
    ix_len_pairs(empty, labels); ix_wf_pairs(empty, labels); lens_fit_in(empty, labels);
    let x = ixv(BlockBody::Labels { empty, labels });
    let p = hm_pairs(labels)[0];
    assert(ix_len(ixv(p.1), n as nat));
    assert(in_entry(labels, n as nat));
    assert(ix_len(ixv(hm_pairs(labels)[0].1), n as nat));
    assert forall|k: nat| #[trigger] ix_len(x, k) <==> k == n + 1 by {
        if ix_len(x, k) { assert(k > 0); let i = choose|i: int| 0 <= i < hm_pairs(labels).len() && ix_len(ixv((#[trigger] hm_pairs(labels)[i]).1), (k - 1) as nat); }
    }
}

pub uninterp spec fn bset(s: BTreeSet<usize>) -> Set<usize>;
#[verifier::external_body]
pub fn one_item<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x], r@.len() == 1, r@[0] == x, r@.contains(x), forall|y: T| #[trigger] r@.contains(y) ==> y == x { vec![x] }
/// Iterator::chain, as the list of all items
#[verifier::external_body]
pub fn chained<T>(a: Vec<T>, b: Vec<T>) -> (r: Vec<T>) ensures r@ == a@ + b@ { let mut a = a; a.extend(b); a }
/// collecting into a set
#[verifier::external_body]
pub fn to_set(v: Vec<usize>) -> (r: BTreeSet<usize>) ensures forall|n: usize| #![trigger bset(r).contains(n)] #![trigger v@.contains(n)] bset(r).contains(n) <==> v@.contains(n) { v.into_iter().collect() }
/// the items of a set
#[verifier::external_body]
pub fn set_list(s: BTreeSet<usize>) -> (r: Vec<usize>) ensures forall|n: usize| #![trigger bset(s).contains(n)] #![trigger r@.contains(n)] bset(s).contains(n) <==> r@.contains(n) { s.into_iter().collect() }
pub open spec fn vvecs<T>() -> spec_fn(Vec<T>) -> Seq<T> { |v: Vec<T>| v@ }
/// Iterator::flatten, as the list of all items
#[verifier::external_body]
pub fn flat_list<T>(v: Vec<Vec<T>>) -> (r: Vec<T>) ensures r@ == cat(v@.map_values(vvecs())) { v.into_iter().flatten().collect() }
pub proof fn cat_contains<A>(s: Seq<Seq<A>>, x: A)
    ensures cat(s).contains(x) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).contains(x)
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        cat_contains(t, x);
        if cat(s).contains(x) {
            let j = choose|j: int| 0 <= j < cat(s).len() && cat(s)[j] == x;
            if j < cat(t).len() { assert(cat(t)[j] == x); assert(cat(t).contains(x)); let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).contains(x); assert(s[i].contains(x)); } else { assert(s.last()[j - cat(t).len()] == x); assert(s[s.len() - 1].contains(x)); }
        }
        if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).contains(x) {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).contains(x);
            let j = choose|j: int| 0 <= j < s[i].len() && s[i][j] == x;
            if i < s.len() - 1 { assert(t[i].contains(x)); assert(cat(t).contains(x)); let q = choose|q: int| 0 <= q < cat(t).len() && cat(t)[q] == x; assert(cat(s)[q] == x); } else { assert(cat(s)[cat(t).len() + j] == x); }
        }
    }
}
/// the lengths one label further down
pub open spec fn plus_one<B>(v: Seq<usize>, y: IxV<B>) -> bool { forall|n: usize| #[trigger] v.contains(n) <==> n > 0 && ix_len(y, (n - 1) as nat) }
pub open spec fn plus_ones<'a>(c: Seq<Vec<usize>>, h: HashMap<BlockLabel<'a>, BlockBody<'a>>, n: int) -> bool { c.len() == n && forall|i: int| 0 <= i < n ==> plus_one((#[trigger] c[i])@, ixv(hm_pairs(h)[i].1)) }
pub open spec fn shifted(s: Seq<usize>, v: Seq<usize>) -> bool { s.len() <= v.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == v[i] + 1 }
pub broadcast proof fn shifted_all<B>(s: Seq<usize>, v: Seq<usize>, y: IxV<B>)
    requires #[trigger] shifted(s, v), s.len() == v.len(), forall|n: nat| #[trigger] ix_len(y, n) <==> n <= usize::MAX && v.contains(n as usize), forall|n: nat| #[trigger] ix_len(y, n) ==> n + 1 <= usize::MAX
    ensures #[trigger] plus_one(s, y)
{
    assert forall|n: usize| #[trigger] s.contains(n) <==> n > 0 && ix_len(y, (n - 1) as nat) by {
        if s.contains(n) { let i = choose|i: int| 0 <= i < s.len() && s[i] == n; assert(v[i] == n - 1); assert(v.contains(v[i])); assert(((n - 1) as nat) as usize == v[i]); }
        if n > 0 && ix_len(y, (n - 1) as nat) { assert(v.contains((n - 1) as usize)); let i = choose|i: int| 0 <= i < v.len() && v[i] == (n - 1) as usize; assert(s[i] == n); }
    }
}
pub proof fn label_lens_all<'a>(empty: Vec<Body<'a>>, labels: HashMap<BlockLabel<'a>, BlockBody<'a>>, c: Seq<Vec<usize>>, l: Seq<usize>)
    requires lens_fit(ixv(BlockBody::Labels { empty, labels })), c.len() == hm_pairs(labels).len(), forall|i: int| 0 <= i < c.len() ==> plus_one((#[trigger] c[i])@, ixv(hm_pairs(labels)[i].1)),
        l == cat(c.map_values(vvecs())) + (if empty@.len() > 0 { seq![0usize] } else { Seq::empty() })
    ensures forall|n: nat| #[trigger] ix_len(ixv(BlockBody::Labels { empty, labels }), n) <==> n <= usize::MAX && l.contains(n as usize)
{
    ix_len_pairs(empty, labels);
    let x = ixv(BlockBody::Labels { empty, labels });
    let s = hm_pairs(labels);
    let d = c.map_values(vvecs());
    let z = cat(d);
    assert forall|n: nat| #[trigger] ix_len(x, n) <==> n <= usize::MAX && l.contains(n as usize) by {
        let m = n as usize;
        cat_contains(d, m);
        if ix_len(x, n) {
            assert(n <= usize::MAX);
            if n == 0 { assert(l[z.len() as int] == 0); } else {
                let i = choose|i: int| 0 <= i < s.len() && ix_len(ixv((#[trigger] s[i]).1), (n - 1) as nat);
                assert(plus_one(c[i]@, ixv(s[i].1)));
                assert(c[i]@.contains(m));
                assert(d[i].contains(m));
                let j = choose|j: int| 0 <= j < z.len() && z[j] == m;
                assert(l[j] == m);
            }
        }
        if n <= usize::MAX && l.contains(m) {
            let j = choose|j: int| 0 <= j < l.len() && l[j] == m;
            if j < z.len() {
                assert(z[j] == m);
                let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).contains(m);
                assert(c[i]@.contains(m));
                assert(ix_len(ixv(s[i].1), (m - 1) as nat));
                assert(in_entry(labels, (m - 1) as nat));
            } else { assert(m == 0 && empty@.len() > 0); }
        }
    }
}

// ---- a map entered entry by entry from another ----
pub broadcast axiom fn key_id_ref_str<'b>(k: &&'b str) ensures #[trigger] key_id::<&'b str>(k) == KeyV::Text((*k)@);
pub open spec fn entered<'a, K, K2, V>(m: Map<KeyV, (K2, V)>, h: HashMap<K, BlockBody<'a>>, n: int, ok: spec_fn(IxV<Body<'a>>, V) -> bool) -> bool {
    &&& forall|i: int| #![trigger hm_pairs(h)[i]] 0 <= i < n ==> m.contains_key(key_id(&hm_pairs(h)[i].0)) && ok(ixv(hm_pairs(h)[i].1), m[key_id(&hm_pairs(h)[i].0)].1)
    &&& forall|k: KeyV| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < n && key_id(&(#[trigger] hm_pairs(h)[i]).0) == k
}
pub proof fn entered_step<'a, K, K2, V>(m: Map<KeyV, (K2, V)>, h: HashMap<K, BlockBody<'a>>, n: int, ok: spec_fn(IxV<Body<'a>>, V) -> bool, p: (K2, V))
    requires entered(m, h, n, ok), 0 <= n < hm_pairs(h).len(), ok(ixv(hm_pairs(h)[n].1), p.1)
    ensures entered(m.insert(key_id(&hm_pairs(h)[n].0), p), h, n + 1, ok)
{
    broadcast use hm_distinct;
    let k = key_id(&hm_pairs(h)[n].0);
    let q = m.insert(k, p);
    assert forall|i: int| #![trigger hm_pairs(h)[i]] 0 <= i < n + 1 implies q.contains_key(key_id(&hm_pairs(h)[i].0)) && ok(ixv(hm_pairs(h)[i].1), q[key_id(&hm_pairs(h)[i].0)].1) by { if i < n { let a = hm_pairs(h)[i]; let b = hm_pairs(h)[n]; assert(key_id(&a.0) != key_id(&b.0)); } }
    assert forall|j: KeyV| #[trigger] q.contains_key(j) implies exists|i: int| 0 <= i < n + 1 && key_id(&(#[trigger] hm_pairs(h)[i]).0) == j by { if j == k { let b = hm_pairs(h)[n]; } else { assert(m.contains_key(j)); let i = choose|i: int| 0 <= i < n && key_id(&(#[trigger] hm_pairs(h)[i]).0) == j; } }
}
/// every entry has its counterpart and there is no other
pub open spec fn each<'a, K2, V>(m: Map<KeyV, (K2, V)>, b: Map<KeyV, IxV<Body<'a>>>, ok: spec_fn(IxV<Body<'a>>, V) -> bool) -> bool {
    m.dom() == b.dom() && forall|k: KeyV| #![trigger b[k]] b.contains_key(k) ==> ok(b[k], m[k].1)
}
pub proof fn entered_all<'a, K, K2, V>(m: Map<KeyV, (K2, V)>, h: HashMap<K, BlockBody<'a>>, ok: spec_fn(IxV<Body<'a>>, V) -> bool)
    requires entered(m, h, hm_pairs(h).len() as int, ok)
    ensures each(m, hm_view(h, vix()), ok)
{
    broadcast use hm_keys, hm_order, hm_distinct;
    let s = hm_pairs(h);
    let b = hm_view(h, vix());
    assert forall|k: KeyV| #![trigger b[k]] b.contains_key(k) implies m.contains_key(k) && ok(b[k], m[k].1) by { let e = hm_map(h)[k]; let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == e; assert(key_id(&s[i].0) == k); }
    assert(m.dom() =~= b.dom()) by { assert forall|k: KeyV| m.dom().contains(k) <==> b.dom().contains(k) by { if m.contains_key(k) { let i = choose|i: int| 0 <= i < s.len() && key_id(&(#[trigger] s[i]).0) == k; assert(hm_map(h).contains_key(key_id(&s[i].0))); } if b.contains_key(k) { let x = b[k]; } } }
}
pub open spec fn lens_ok<'a>() -> spec_fn(IxV<Body<'a>>, BTreeSet<usize>) -> bool { |x: IxV<Body<'a>>, s: BTreeSet<usize>| forall|n: nat| #[trigger] ix_len(x, n) <==> n <= usize::MAX && bset(s).contains(n as usize) }
pub open spec fn uniform_ok<'a>() -> spec_fn(IxV<Body<'a>>, Option<usize>) -> bool { |x: IxV<Body<'a>>, r: Option<usize>| uniform(x, r) }
pub open spec fn is_uniform_ok<'a>() -> spec_fn(IxV<Body<'a>>, bool) -> bool { |x: IxV<Body<'a>>, r: bool| r == (exists|n: usize| uniform(x, Some(n))) }
pub open spec fn bs_lens_fit<B>(m: Map<KeyV, IxV<B>>) -> bool { forall|k: KeyV| m.contains_key(k) ==> lens_fit(#[trigger] m[k]) }
pub proof fn bs_pairs<'a, K>(h: HashMap<K, BlockBody<'a>>)
    ensures forall|i: int| #![trigger hm_pairs(h)[i]] 0 <= i < hm_pairs(h).len() ==> hm_view(h, vix()).contains_key(key_id(&hm_pairs(h)[i].0)) && hm_view(h, vix())[key_id(&hm_pairs(h)[i].0)] == ixv(hm_pairs(h)[i].1)
{ broadcast use hm_keys, hm_order, hm_distinct; assert forall|i: int| #![trigger hm_pairs(h)[i]] 0 <= i < hm_pairs(h).len() implies hm_view(h, vix()).contains_key(key_id(&hm_pairs(h)[i].0)) && hm_view(h, vix())[key_id(&hm_pairs(h)[i].0)] == ixv(hm_pairs(h)[i].1) by { assert(hm_map(h).contains_key(key_id(&hm_pairs(h)[i].0))); } }
}
verus! {
// ---- the flattened lists the iterators give ----
pub open spec fn fl_one<'b, 'a>(p: (VecDeque<&'b str>, &'b Body<'a>)) -> (Seq<Seq<char>>, Body<'a>) { (p.0@.map_values(|t: &'b str| t@), *p.1) }
pub open spec fn fl<'b, 'a>(s: Seq<(VecDeque<&'b str>, &'b Body<'a>)>) -> Seq<(Seq<Seq<char>>, Body<'a>)> { s.map_values(|p: (VecDeque<&'b str>, &'b Body<'a>)| fl_one(p)) }
pub open spec fn fls<'b, 'a>(s: Seq<Vec<(VecDeque<&'b str>, &'b Body<'a>)>>) -> Seq<Seq<(Seq<Seq<char>>, Body<'a>)>> { s.map_values(|v: Vec<(VecDeque<&'b str>, &'b Body<'a>)>| fl(v@)) }
pub broadcast proof fn fl_push<'b, 'a>(s: Seq<(VecDeque<&'b str>, &'b Body<'a>)>, x: (VecDeque<&'b str>, &'b Body<'a>)) ensures #[trigger] fl(s.push(x)) == fl(s).push(fl_one(x)) { assert(fl(s.push(x)) =~= fl(s).push(fl_one(x))); }
pub broadcast proof fn fls_push<'b, 'a>(s: Seq<Vec<(VecDeque<&'b str>, &'b Body<'a>)>>, x: Vec<(VecDeque<&'b str>, &'b Body<'a>)>) ensures #[trigger] fls(s.push(x)) == fls(s).push(fl(x@)) { assert(fls(s.push(x)) =~= fls(s).push(fl(x@))); }
pub proof fn fl_cat<'b, 'a>(s: Seq<Vec<(VecDeque<&'b str>, &'b Body<'a>)>>)
    ensures fl(cat(s.map_values(vvecs()))) == cat(fls(s))
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.map_values(vvecs());
        assert(d.drop_last() =~= s.drop_last().map_values(vvecs()));
        assert(fls(s).drop_last() =~= fls(s.drop_last()));
        fl_cat(s.drop_last());
        assert(fl(cat(d)) =~= fl(cat(d.drop_last())) + fl(d.last()));
    } else { assert(fl(cat(s.map_values(vvecs()))) =~= cat(fls(s))); }
}
pub open spec fn fo_one<'a>(p: (VecDeque<Cow<'a, str>>, Body<'a>)) -> (Seq<Seq<char>>, Body<'a>) { (p.0@.map_values(|t: Cow<'a, str>| t@), p.1) }
pub open spec fn fo<'a>(s: Seq<(VecDeque<Cow<'a, str>>, Body<'a>)>) -> Seq<(Seq<Seq<char>>, Body<'a>)> { s.map_values(|p: (VecDeque<Cow<'a, str>>, Body<'a>)| fo_one(p)) }
pub open spec fn fos<'a>(s: Seq<Vec<(VecDeque<Cow<'a, str>>, Body<'a>)>>) -> Seq<Seq<(Seq<Seq<char>>, Body<'a>)>> { s.map_values(|v: Vec<(VecDeque<Cow<'a, str>>, Body<'a>)>| fo(v@)) }
pub broadcast proof fn fo_push<'a>(s: Seq<(VecDeque<Cow<'a, str>>, Body<'a>)>, x: (VecDeque<Cow<'a, str>>, Body<'a>)) ensures #[trigger] fo(s.push(x)) == fo(s).push(fo_one(x)) { assert(fo(s.push(x)) =~= fo(s).push(fo_one(x))); }
pub broadcast proof fn fos_push<'a>(s: Seq<Vec<(VecDeque<Cow<'a, str>>, Body<'a>)>>, x: Vec<(VecDeque<Cow<'a, str>>, Body<'a>)>) ensures #[trigger] fos(s.push(x)) == fos(s).push(fo(x@)) { assert(fos(s.push(x)) =~= fos(s).push(fo(x@))); }
pub proof fn fo_cat<'a>(s: Seq<Vec<(VecDeque<Cow<'a, str>>, Body<'a>)>>)
    ensures fo(cat(s.map_values(vvecs()))) == cat(fos(s))
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.map_values(vvecs());
        assert(d.drop_last() =~= s.drop_last().map_values(vvecs()));
        assert(fos(s).drop_last() =~= fos(s.drop_last()));
        fo_cat(s.drop_last());
        assert(fo(cat(d)) =~= fo(cat(d.drop_last())) + fo(d.last()));
    } else { assert(fo(cat(s.map_values(vvecs()))) =~= cat(fos(s))); }
}
pub proof fn cat_first<A>(a: Seq<A>, t: Seq<Seq<A>>)
    ensures cat(seq![a] + t) == a + cat(t)
    decreases t.len()
{
    if t.len() == 0 { assert((seq![a] + t).drop_last() =~= Seq::empty()); assert((seq![a] + t).last() == a); assert(cat((seq![a] + t).drop_last()) =~= Seq::empty()); assert(cat(t) =~= Seq::empty()); assert(cat(seq![a] + t) =~= a + cat(t)); } else {
        assert((seq![a] + t).drop_last() =~= seq![a] + t.drop_last());
        assert((seq![a] + t).last() == t.last());
        cat_first(a, t.drop_last());
        assert(cat(seq![a] + t) =~= a + cat(t));
    }
}
pub proof fn bare_step<B>(s: Seq<B>, n: int)
    requires 0 <= n < s.len()
    ensures bare(s.take(n + 1)) == bare(s.take(n)).push((Seq::empty(), s[n]))
{ assert(bare(s.take(n + 1)) =~= bare(s.take(n)).push((Seq::empty(), s[n]))); }
pub proof fn pre_step<B>(k: Seq<char>, s: Seq<(Seq<Seq<char>>, B)>, n: int)
    requires 0 <= n < s.len()
    ensures pre(k, s.take(n + 1)) == pre(k, s.take(n)).push((seq![k] + s[n].0, s[n].1))
{ assert(pre(k, s.take(n + 1)) =~= pre(k, s.take(n)).push((seq![k] + s[n].0, s[n].1))); }
pub proof fn vflat_step<'a>(s: Seq<(BlockLabel<'a>, BlockBody<'a>)>, n: int, a: Seq<(Seq<Seq<char>>, Body<'a>)>)
    requires 0 <= n < s.len()
    ensures (seq![a] + s.map_values(vflat()).take(n)).push(vflat()(s[n])) == seq![a] + s.map_values(vflat()).take(n + 1)
{ assert((seq![a] + s.map_values(vflat()).take(n)).push(vflat()(s[n])) =~= seq![a] + s.map_values(vflat()).take(n + 1)); }
pub broadcast proof fn take_all<A>(s: Seq<A>, n: int)
    requires n == s.len()
    ensures #[trigger] s.take(n) == s
{ assert(s.take(n) =~= s); }
}
verus! {
// ---- the flattened index of all types ----
/// with the type of block
pub open spec fn typ<B>(t: Seq<char>, s: Seq<(Seq<Seq<char>>, B)>) -> Seq<((Seq<char>, Seq<Seq<char>>), B)> { s.map_values(|p: (Seq<Seq<char>>, B)| ((t, p.0), p.1)) }
pub open spec fn vtflat<'a>() -> spec_fn((Cow<'a, str>, BlockBody<'a>)) -> Seq<((Seq<char>, Seq<Seq<char>>), Body<'a>)> { |p: (Cow<'a, str>, BlockBody<'a>)| typ(p.0@, flat(p.1)) }
pub open spec fn bflat<'a>(h: HashMap<Cow<'a, str>, BlockBody<'a>>) -> Seq<((Seq<char>, Seq<Seq<char>>), Body<'a>)> { cat(hm_pairs(h).map_values(vtflat())) }
pub proof fn typ_step<B>(t: Seq<char>, s: Seq<(Seq<Seq<char>>, B)>, n: int)
    requires 0 <= n < s.len()
    ensures typ(t, s.take(n + 1)) == typ(t, s.take(n)).push(((t, s[n].0), s[n].1))
{ assert(typ(t, s.take(n + 1)) =~= typ(t, s.take(n)).push(((t, s[n].0), s[n].1))); }
pub proof fn vtflat_step<'a>(s: Seq<(Cow<'a, str>, BlockBody<'a>)>, n: int)
    requires 0 <= n < s.len()
    ensures s.map_values(vtflat()).take(n).push(vtflat()(s[n])) == s.map_values(vtflat()).take(n + 1)
{ assert(s.map_values(vtflat()).take(n).push(vtflat()(s[n])) =~= s.map_values(vtflat()).take(n + 1)); }
pub proof fn listed_typ<B>(k: Seq<char>, s: Seq<(Seq<Seq<char>>, B)>, t: Seq<char>, p: Seq<Seq<char>>)
    ensures listed(typ(k, s), (t, p)) == (if t == k { listed(s, p) } else { Seq::empty() })
    decreases s.len()
{
    if s.len() > 0 {
        assert(typ(k, s).drop_last() =~= typ(k, s.drop_last()));
        listed_typ(k, s.drop_last(), t, p);
    }
}
pub proof fn listed_tcat<'a>(s: Seq<(Cow<'a, str>, BlockBody<'a>)>, t: Seq<char>, p: Seq<Seq<char>>)
    requires keys_differ(s)
    ensures (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0@ != t) ==> listed(cat(s.map_values(vtflat())), (t, p)) == Seq::<Body<'a>>::empty(),
        forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == t ==> listed(cat(s.map_values(vtflat())), (t, p)) == listed(flat(s[i].1), p),
    decreases s.len()
{
    broadcast use key_id_cow;
    if s.len() > 0 {
        let q = s.drop_last();
        assert(s.map_values(vtflat()).drop_last() =~= q.map_values(vtflat()));
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies key_id(&(#[trigger] q[i]).0) != key_id(&(#[trigger] q[j]).0) by { assert(q[i] == s[i] && q[j] == s[j]); }
        listed_tcat(q, t, p);
        let x = s[s.len() - 1];
        let last = typ(x.0@, flat(x.1));
        listed_add(cat(q.map_values(vtflat())), last, (t, p));
        listed_typ(x.0@, flat(x.1), t, p);
        let a = listed(cat(q.map_values(vtflat())), (t, p));
        assert(listed(cat(s.map_values(vtflat())), (t, p)) == a + listed(last, (t, p)));
        if x.0@ == t {
            assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).0@ != t by { assert(q[i] == s[i]); assert(key_id(&s[i].0) != key_id(&x.0)); }
            assert(a + listed(last, (t, p)) =~= listed(last, (t, p)));
            assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == t implies i == s.len() - 1 by { if i < q.len() { assert(q[i] == s[i]); } }
        } else {
            assert(a + listed(last, (t, p)) =~= a);
            assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]) == s[i] by {}
            assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == t implies a == listed(flat(s[i].1), p) by { assert(i < q.len()); assert(q[i] == s[i]); }
            if forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0@ != t { assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).0@ != t by { assert(q[i] == s[i]); } }
        }
    }
}
/// flattening lists under each type and label list exactly the bodies held there, in order
pub proof fn k02_bflat<'a>(h: HashMap<Cow<'a, str>, BlockBody<'a>>, t: Seq<char>, p: Seq<Seq<char>>)
    ensures listed(bflat(h), (t, p)) == bs_at(hm_view(h, vix()), t, p)
{
    broadcast use hm_keys, hm_order, hm_distinct, key_id_cow;
    let s = hm_pairs(h);
    listed_tcat(s, t, p);
    let k = KeyV::Text(t);
    if hm_map(h).contains_key(k) {
        let e = hm_map(h)[k];
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == e;
        assert(key_id(&e.0) == k);
        assert(s[i].0@ == t);
        k02_flat(e.1, p);
    } else {
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0@ != t by { assert(hm_map(h).contains_key(key_id(&s[i].0))); }
    }
}
/// blocks indexed and flattened are listed under their type and labels, in the order written
pub proof fn k02_round<'a>(h: HashMap<Cow<'a, str>, BlockBody<'a>>, s: Seq<BkV<Body<'a>>>, t: Seq<char>, p: Seq<Seq<char>>)
    requires hm_view(h, vix()) == bs_all(Map::<KeyV, IxV<Body<'a>>>::empty(), s)
    ensures listed(bflat(h), (t, p)) == written(s, t, p)
{ k02_bflat(h, t, p); k02_index(Map::<KeyV, IxV<Body<'a>>>::empty(), s, t, p); assert(Seq::<Body<'a>>::empty() + written(s, t, p) =~= written(s, t, p)); }

pub open spec fn ft_one<'b, 'a>(p: (&'b str, VecDeque<&'b str>, &'b Body<'a>)) -> ((Seq<char>, Seq<Seq<char>>), Body<'a>) { ((p.0@, p.1@.map_values(|t: &'b str| t@)), *p.2) }
pub open spec fn ft<'b, 'a>(s: Seq<(&'b str, VecDeque<&'b str>, &'b Body<'a>)>) -> Seq<((Seq<char>, Seq<Seq<char>>), Body<'a>)> { s.map_values(|p: (&'b str, VecDeque<&'b str>, &'b Body<'a>)| ft_one(p)) }
pub open spec fn fts<'b, 'a>(s: Seq<Vec<(&'b str, VecDeque<&'b str>, &'b Body<'a>)>>) -> Seq<Seq<((Seq<char>, Seq<Seq<char>>), Body<'a>)>> { s.map_values(|v: Vec<(&'b str, VecDeque<&'b str>, &'b Body<'a>)>| ft(v@)) }
pub broadcast proof fn ft_push<'b, 'a>(s: Seq<(&'b str, VecDeque<&'b str>, &'b Body<'a>)>, x: (&'b str, VecDeque<&'b str>, &'b Body<'a>)) ensures #[trigger] ft(s.push(x)) == ft(s).push(ft_one(x)) { assert(ft(s.push(x)) =~= ft(s).push(ft_one(x))); }
pub broadcast proof fn fts_push<'b, 'a>(s: Seq<Vec<(&'b str, VecDeque<&'b str>, &'b Body<'a>)>>, x: Vec<(&'b str, VecDeque<&'b str>, &'b Body<'a>)>) ensures #[trigger] fts(s.push(x)) == fts(s).push(ft(x@)) { assert(fts(s.push(x)) =~= fts(s).push(ft(x@))); }
pub proof fn ft_cat<'b, 'a>(s: Seq<Vec<(&'b str, VecDeque<&'b str>, &'b Body<'a>)>>)
    ensures ft(cat(s.map_values(vvecs()))) == cat(fts(s))
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.map_values(vvecs());
        assert(d.drop_last() =~= s.drop_last().map_values(vvecs()));
        assert(fts(s).drop_last() =~= fts(s.drop_last()));
        ft_cat(s.drop_last());
        assert(ft(cat(d)) =~= ft(cat(d.drop_last())) + ft(d.last()));
    } else { assert(ft(cat(s.map_values(vvecs()))) =~= cat(fts(s))); }
}

pub open spec fn fq_one<'b, 'a>(p: (Cow<'b, str>, VecDeque<Cow<'b, str>>, Body<'a>)) -> ((Seq<char>, Seq<Seq<char>>), Body<'a>) { ((p.0@, p.1@.map_values(|t: Cow<'b, str>| t@)), p.2) }
pub open spec fn fq<'b, 'a>(s: Seq<(Cow<'b, str>, VecDeque<Cow<'b, str>>, Body<'a>)>) -> Seq<((Seq<char>, Seq<Seq<char>>), Body<'a>)> { s.map_values(|p: (Cow<'b, str>, VecDeque<Cow<'b, str>>, Body<'a>)| fq_one(p)) }
pub open spec fn fqs<'b, 'a>(s: Seq<Vec<(Cow<'b, str>, VecDeque<Cow<'b, str>>, Body<'a>)>>) -> Seq<Seq<((Seq<char>, Seq<Seq<char>>), Body<'a>)>> { s.map_values(|v: Vec<(Cow<'b, str>, VecDeque<Cow<'b, str>>, Body<'a>)>| fq(v@)) }
pub broadcast proof fn fq_push<'b, 'a>(s: Seq<(Cow<'b, str>, VecDeque<Cow<'b, str>>, Body<'a>)>, x: (Cow<'b, str>, VecDeque<Cow<'b, str>>, Body<'a>)) ensures #[trigger] fq(s.push(x)) == fq(s).push(fq_one(x)) { assert(fq(s.push(x)) =~= fq(s).push(fq_one(x))); }
pub broadcast proof fn fqs_push<'b, 'a>(s: Seq<Vec<(Cow<'b, str>, VecDeque<Cow<'b, str>>, Body<'a>)>>, x: Vec<(Cow<'b, str>, VecDeque<Cow<'b, str>>, Body<'a>)>) ensures #[trigger] fqs(s.push(x)) == fqs(s).push(fq(x@)) { assert(fqs(s.push(x)) =~= fqs(s).push(fq(x@))); }
pub proof fn fq_cat<'b, 'a>(s: Seq<Vec<(Cow<'b, str>, VecDeque<Cow<'b, str>>, Body<'a>)>>)
    ensures fq(cat(s.map_values(vvecs()))) == cat(fqs(s))
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.map_values(vvecs());
        assert(d.drop_last() =~= s.drop_last().map_values(vvecs()));
        assert(fqs(s).drop_last() =~= fqs(s.drop_last()));
        fq_cat(s.drop_last());
        assert(fq(cat(d)) =~= fq(cat(d.drop_last())) + fq(d.last()));
    } else { assert(fq(cat(s.map_values(vvecs()))) =~= cat(fqs(s))); }
}
}
verus! {
// ---- iteration with mutable bodies: what is listed before, and what the places hold after ----
pub open spec fn now<'b, T>(s: Seq<&'b mut T>) -> Seq<T> { s.map_values(|p: &'b mut T| *p) }
#[verifier::prophetic]
pub open spec fn fin<'b, T>(s: Seq<&'b mut T>) -> Seq<T> { s.map_values(|p: &'b mut T| *final(p)) }
pub open spec fn pnow<'b, K, T>(s: Seq<(&'b K, &'b mut T)>) -> Seq<(K, T)> { s.map_values(|p: (&'b K, &'b mut T)| (*p.0, *p.1)) }
#[verifier::prophetic]
pub open spec fn pfin<'b, K, T>(s: Seq<(&'b K, &'b mut T)>) -> Seq<(K, T)> { s.map_values(|p: (&'b K, &'b mut T)| (*p.0, *final(p.1))) }
#[verifier::external_body]
pub fn vec_iter_mut<'b, T>(v: &'b mut Vec<T>) -> (r: Vec<&'b mut T>)
    ensures now(r@) == old(v)@, fin(r@) == final(v)@
{ v.iter_mut().collect() }
/// HashMap::iter_mut, as the list of its entries (writing values changes neither keys nor order)
#[verifier::external_body]
pub fn hm_iter_mut<'b, K, V, S>(m: &'b mut HashMap<K, V, S>) -> (r: Vec<(&'b K, &'b mut V)>)
    ensures pnow(r@) == hm_pairs(*old(m)), pfin(r@) == hm_pairs(*final(m))
{ m.iter_mut().collect() }
pub broadcast proof fn flat_def<'a>(x: BlockBody<'a>)
    ensures #[trigger] flat(x) == (match x { BlockBody::Body(v) => bare(v@), BlockBody::Labels { empty, labels } => bare(empty@) + cat(hm_pairs(labels).map_values(vflat())) })
{ match x { BlockBody::Labels { empty, labels } => { flat_labels(empty, labels); } _ => {} } }

pub open spec fn gn_one<'b, 'a>(p: (VecDeque<&'b str>, &'b mut Body<'a>)) -> (Seq<Seq<char>>, Body<'a>) { (p.0@.map_values(|t: &'b str| t@), *p.1) }
pub open spec fn gn<'b, 'a>(s: Seq<(VecDeque<&'b str>, &'b mut Body<'a>)>) -> Seq<(Seq<Seq<char>>, Body<'a>)> { s.map_values(|p: (VecDeque<&'b str>, &'b mut Body<'a>)| gn_one(p)) }
pub open spec fn gns<'b, 'a>(s: Seq<Vec<(VecDeque<&'b str>, &'b mut Body<'a>)>>) -> Seq<Seq<(Seq<Seq<char>>, Body<'a>)>> { s.map_values(|v: Vec<(VecDeque<&'b str>, &'b mut Body<'a>)>| gn(v@)) }
pub broadcast proof fn gn_push<'b, 'a>(s: Seq<(VecDeque<&'b str>, &'b mut Body<'a>)>, x: (VecDeque<&'b str>, &'b mut Body<'a>)) ensures #[trigger] gn(s.push(x)) == gn(s).push(gn_one(x)) { assert(gn(s.push(x)) =~= gn(s).push(gn_one(x))); }
pub broadcast proof fn gns_push<'b, 'a>(s: Seq<Vec<(VecDeque<&'b str>, &'b mut Body<'a>)>>, x: Vec<(VecDeque<&'b str>, &'b mut Body<'a>)>) ensures #[trigger] gns(s.push(x)) == gns(s).push(gn(x@)) { assert(gns(s.push(x)) =~= gns(s).push(gn(x@))); }
pub proof fn gn_cat<'b, 'a>(s: Seq<Vec<(VecDeque<&'b str>, &'b mut Body<'a>)>>)
    ensures gn(cat(s.map_values(vvecs()))) == cat(gns(s))
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.map_values(vvecs());
        assert(d.drop_last() =~= s.drop_last().map_values(vvecs()));
        assert(gns(s).drop_last() =~= gns(s.drop_last()));
        gn_cat(s.drop_last());
        assert(gn(cat(d)) =~= gn(cat(d.drop_last())) + gn(d.last()));
    } else { assert(gn(cat(s.map_values(vvecs()))) =~= cat(gns(s))); }
}

#[verifier::prophetic]
pub open spec fn gf_one<'b, 'a>(p: (VecDeque<&'b str>, &'b mut Body<'a>)) -> (Seq<Seq<char>>, Body<'a>) { (p.0@.map_values(|t: &'b str| t@), *final(p.1)) }
#[verifier::prophetic]
pub open spec fn gf<'b, 'a>(s: Seq<(VecDeque<&'b str>, &'b mut Body<'a>)>) -> Seq<(Seq<Seq<char>>, Body<'a>)> { s.map_values(|p: (VecDeque<&'b str>, &'b mut Body<'a>)| gf_one(p)) }
#[verifier::prophetic]
pub open spec fn gfs<'b, 'a>(s: Seq<Vec<(VecDeque<&'b str>, &'b mut Body<'a>)>>) -> Seq<Seq<(Seq<Seq<char>>, Body<'a>)>> { s.map_values(|v: Vec<(VecDeque<&'b str>, &'b mut Body<'a>)>| gf(v@)) }
pub broadcast proof fn gf_push<'b, 'a>(s: Seq<(VecDeque<&'b str>, &'b mut Body<'a>)>, x: (VecDeque<&'b str>, &'b mut Body<'a>)) ensures #[trigger] gf(s.push(x)) == gf(s).push(gf_one(x)) { assert(gf(s.push(x)) =~= gf(s).push(gf_one(x))); }
pub broadcast proof fn gfs_push<'b, 'a>(s: Seq<Vec<(VecDeque<&'b str>, &'b mut Body<'a>)>>, x: Vec<(VecDeque<&'b str>, &'b mut Body<'a>)>) ensures #[trigger] gfs(s.push(x)) == gfs(s).push(gf(x@)) { assert(gfs(s.push(x)) =~= gfs(s).push(gf(x@))); }
pub proof fn gf_cat<'b, 'a>(s: Seq<Vec<(VecDeque<&'b str>, &'b mut Body<'a>)>>)
    ensures gf(cat(s.map_values(vvecs()))) == cat(gfs(s))
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.map_values(vvecs());
        assert(d.drop_last() =~= s.drop_last().map_values(vvecs()));
        assert(gfs(s).drop_last() =~= gfs(s.drop_last()));
        gf_cat(s.drop_last());
        assert(gf(cat(d)) =~= gf(cat(d.drop_last())) + gf(d.last()));
    } else { assert(gf(cat(s.map_values(vvecs()))) =~= cat(gfs(s))); }
}
}
verus! {

pub open spec fn hn_one<'b, 'a>(p: (&'b str, VecDeque<&'b str>, &'b mut Body<'a>)) -> ((Seq<char>, Seq<Seq<char>>), Body<'a>) { ((p.0@, p.1@.map_values(|t: &'b str| t@)), *p.2) }
pub open spec fn hn<'b, 'a>(s: Seq<(&'b str, VecDeque<&'b str>, &'b mut Body<'a>)>) -> Seq<((Seq<char>, Seq<Seq<char>>), Body<'a>)> { s.map_values(|p: (&'b str, VecDeque<&'b str>, &'b mut Body<'a>)| hn_one(p)) }
pub open spec fn hns<'b, 'a>(s: Seq<Vec<(&'b str, VecDeque<&'b str>, &'b mut Body<'a>)>>) -> Seq<Seq<((Seq<char>, Seq<Seq<char>>), Body<'a>)>> { s.map_values(|v: Vec<(&'b str, VecDeque<&'b str>, &'b mut Body<'a>)>| hn(v@)) }
pub broadcast proof fn hn_push<'b, 'a>(s: Seq<(&'b str, VecDeque<&'b str>, &'b mut Body<'a>)>, x: (&'b str, VecDeque<&'b str>, &'b mut Body<'a>)) ensures #[trigger] hn(s.push(x)) == hn(s).push(hn_one(x)) { assert(hn(s.push(x)) =~= hn(s).push(hn_one(x))); }
pub broadcast proof fn hns_push<'b, 'a>(s: Seq<Vec<(&'b str, VecDeque<&'b str>, &'b mut Body<'a>)>>, x: Vec<(&'b str, VecDeque<&'b str>, &'b mut Body<'a>)>) ensures #[trigger] hns(s.push(x)) == hns(s).push(hn(x@)) { assert(hns(s.push(x)) =~= hns(s).push(hn(x@))); }
pub proof fn hn_cat<'b, 'a>(s: Seq<Vec<(&'b str, VecDeque<&'b str>, &'b mut Body<'a>)>>)
    ensures hn(cat(s.map_values(vvecs()))) == cat(hns(s))
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.map_values(vvecs());
        assert(d.drop_last() =~= s.drop_last().map_values(vvecs()));
        assert(hns(s).drop_last() =~= hns(s.drop_last()));
        hn_cat(s.drop_last());
        assert(hn(cat(d)) =~= hn(cat(d.drop_last())) + hn(d.last()));
    } else { assert(hn(cat(s.map_values(vvecs()))) =~= cat(hns(s))); }
}

#[verifier::prophetic]
pub open spec fn hf_one<'b, 'a>(p: (&'b str, VecDeque<&'b str>, &'b mut Body<'a>)) -> ((Seq<char>, Seq<Seq<char>>), Body<'a>) { ((p.0@, p.1@.map_values(|t: &'b str| t@)), *final(p.2)) }
#[verifier::prophetic]
pub open spec fn hf<'b, 'a>(s: Seq<(&'b str, VecDeque<&'b str>, &'b mut Body<'a>)>) -> Seq<((Seq<char>, Seq<Seq<char>>), Body<'a>)> { s.map_values(|p: (&'b str, VecDeque<&'b str>, &'b mut Body<'a>)| hf_one(p)) }
#[verifier::prophetic]
pub open spec fn hfs<'b, 'a>(s: Seq<Vec<(&'b str, VecDeque<&'b str>, &'b mut Body<'a>)>>) -> Seq<Seq<((Seq<char>, Seq<Seq<char>>), Body<'a>)>> { s.map_values(|v: Vec<(&'b str, VecDeque<&'b str>, &'b mut Body<'a>)>| hf(v@)) }
pub broadcast proof fn hf_push<'b, 'a>(s: Seq<(&'b str, VecDeque<&'b str>, &'b mut Body<'a>)>, x: (&'b str, VecDeque<&'b str>, &'b mut Body<'a>)) ensures #[trigger] hf(s.push(x)) == hf(s).push(hf_one(x)) { assert(hf(s.push(x)) =~= hf(s).push(hf_one(x))); }
pub broadcast proof fn hfs_push<'b, 'a>(s: Seq<Vec<(&'b str, VecDeque<&'b str>, &'b mut Body<'a>)>>, x: Vec<(&'b str, VecDeque<&'b str>, &'b mut Body<'a>)>) ensures #[trigger] hfs(s.push(x)) == hfs(s).push(hf(x@)) { assert(hfs(s.push(x)) =~= hfs(s).push(hf(x@))); }
pub proof fn hf_cat<'b, 'a>(s: Seq<Vec<(&'b str, VecDeque<&'b str>, &'b mut Body<'a>)>>)
    ensures hf(cat(s.map_values(vvecs()))) == cat(hfs(s))
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.map_values(vvecs());
        assert(d.drop_last() =~= s.drop_last().map_values(vvecs()));
        assert(hfs(s).drop_last() =~= hfs(s.drop_last()));
        hf_cat(s.drop_last());
        assert(hf(cat(d)) =~= hf(cat(d.drop_last())) + hf(d.last()));
    } else { assert(hf(cat(s.map_values(vvecs()))) =~= cat(hfs(s))); }
}

pub open spec fn prefs<'b, K, T>(s: Seq<(&'b K, &'b T)>) -> Seq<(K, T)> { s.map_values(|p: (&'b K, &'b T)| (*p.0, *p.1)) }
/// HashMap::iter, as the list of its entries
pub fn hm_refs<'b, K, V, S>(m: &'b HashMap<K, V, S>) -> (r: Vec<(&'b K, &'b V)>)
    ensures prefs(r@) == hm_pairs(*m)
{ let r = hm_iter(m); proof { assert(prefs(r@) =~= hm_pairs(*m)); } r }
#[verifier::external_body]
pub fn cow_is<'a>(c: &Cow<'a, str>, s: &str) -> (r: bool) ensures r == (c@ == s@) { c.eq(s) }
#[verifier::external_body]
pub fn string_is(c: &String, s: &str) -> (r: bool) ensures r == (c@ == s@) { c.eq(s) }
}
