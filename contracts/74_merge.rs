// Merging
verus! {
pub open spec fn kid(k: KeyLitV) -> KeyV { match k { KeyLitV::Ident(s) => KeyV::Text(s), KeyLitV::Str(s) => KeyV::Text(s) } }
pub open spec fn lid(l: Seq<Seq<char>>) -> KeyV { KeyV::Texts(l) }
/// two entries under one key: maps are put one after the other, blocks with distinct labels united
pub open spec fn combine(a: ValV, b: ValV) -> Option<ValV> {
    match (a, b) {
        (ValV::Object(x), ValV::Object(y)) => Some(ValV::Object(x + y)),
        (ValV::Block(BlV::Merged(x)), ValV::Block(BlV::Merged(y))) => if x.dom().disjoint(y.dom()) { Some(ValV::Block(BlV::Merged(x.union_prefer_right(y)))) } else { None },
        _ => None,
    }
}
/// one more entry
pub open spec fn mput(acc: Map<KeyV, (KeyLitV, ValV)>, k: KeyLitV, v: ValV) -> Option<Map<KeyV, (KeyLitV, ValV)>> {
    if acc.contains_key(kid(k)) { match combine(acc[kid(k)].1, v) { Some(w) => Some(acc.insert(kid(k), (acc[kid(k)].0, w))), None => None } }
    else { Some(acc.insert(kid(k), (k, v))) }
}
/// what a value is merged to; None where entries cannot be combined
pub open spec fn mval(v: ValV) -> Option<ValV>
    decreases v, 0nat
{
    match v {
        ValV::List(s) => if forall|i: int| 0 <= i < s.len() ==> mval(#[trigger] s[i]) is Some { Some(ValV::List(Seq::new(s.len(), |i: int| if 0 <= i < s.len() { mval(s[i])->0 } else { ValV::Null }))) } else { None },
        ValV::Object(s) => if forall|i: int| 0 <= i < s.len() ==> mmv(#[trigger] s[i]) is Some { Some(ValV::Object(Seq::new(s.len(), |i: int| if 0 <= i < s.len() { mmv(s[i])->0 } else { mv_none() }))) } else { None },
        ValV::Block(b) => match mbl(b) { Some(m) => Some(ValV::Block(BlV::Merged(m))), None => None },
        _ => Some(v),
    }
}
/// what a collection of pairs is merged to
pub open spec fn mmv(m: MvV) -> Option<MvV>
    decreases m, 0nat
{ match m { MvV::Merged(_) => Some(m), MvV::Unmerged(s) => match mfold(s, s.len() as int) { Some(acc) => Some(MvV::Merged(acc)), None => None } } }
pub open spec fn mfold(s: Seq<(KeyLitV, ValV)>, n: int) -> Option<Map<KeyV, (KeyLitV, ValV)>>
    decreases s, n
{
    if n <= 0 || n > s.len() { Some(Map::empty()) } else {
        match mfold(s, n - 1) { None => None, Some(acc) => match mval(s[n - 1].1) { None => None, Some(v) => mput(acc, s[n - 1].0, v) } }
    }
}
/// what the blocks of a value are merged to
pub open spec fn mbl(b: BlV) -> Option<Map<KeyV, (Seq<Seq<char>>, MvV)>>
    decreases b, 0nat
{
    match b {
        BlV::Unmerged(s) => bfold(s, s.len() as int),
        BlV::Merged(m) => if forall|k: KeyV| m.contains_key(k) ==> mmv((#[trigger] m[k]).1) is Some { Some(Map::new(m.dom(), |k: KeyV| if m.contains_key(k) { (m[k].0, mmv(m[k].1)->0) } else { (Seq::empty(), mv_none()) })) } else { None },
    }
}
pub open spec fn bfold(s: Seq<(Seq<Seq<char>>, MvV)>, n: int) -> Option<Map<KeyV, (Seq<Seq<char>>, MvV)>>
    decreases s, n
{
    if n <= 0 || n > s.len() { Some(Map::empty()) } else {
        match bfold(s, n - 1) { None => None, Some(acc) => match mmv(s[n - 1].1) { None => None, Some(v) => if acc.contains_key(lid(s[n - 1].0)) { None } else { Some(acc.insert(lid(s[n - 1].0), (s[n - 1].0, v))) } } }
    }
}
pub proof fn mfold_none(s: Seq<(KeyLitV, ValV)>, n: int, m: int)
    requires 0 <= n <= m <= s.len(), mfold(s, n) is None
    ensures mfold(s, m) is None
    decreases m - n
{ if n < m { mfold_none(s, n, m - 1); } }
pub proof fn bfold_none(s: Seq<(Seq<Seq<char>>, MvV)>, n: int, m: int)
    requires 0 <= n <= m <= s.len(), bfold(s, n) is None
    ensures bfold(s, m) is None
    decreases m - n
{ if n < m { bfold_none(s, n, m - 1); } }
/// blocks among the data are merged
pub open spec fn blocks_merged(acc: Map<KeyV, (KeyLitV, ValV)>) -> bool { forall|k: KeyV| acc.contains_key(k) && (#[trigger] acc[k]).1 is Block ==> acc[k].1->Block_0 is Merged }
pub proof fn mfold_blocks(s: Seq<(KeyLitV, ValV)>, n: int)
    requires 0 <= n <= s.len(), mfold(s, n) is Some
    ensures blocks_merged(mfold(s, n)->0)
    decreases n
{
    if n > 0 {
        mfold_blocks(s, n - 1);
        let acc = mfold(s, n - 1)->0;
        let out = mfold(s, n)->0;
        let k = kid(s[n - 1].0);
        let x = s[n - 1].1;
        assert(mval(x)->0 is Block ==> mval(x)->0->Block_0 is Merged);
        assert forall|j: KeyV| out.contains_key(j) && (#[trigger] out[j]).1 is Block implies out[j].1->Block_0 is Merged by { if j != k { assert(out[j] == acc[j]); assert(acc.contains_key(j)); } }
    }
}

/// where mfold goes wrong at an entry it is wrong for the whole
pub proof fn mfold_step(s: Seq<(KeyLitV, ValV)>, n: int)
    requires 0 <= n < s.len(), mfold(s, n) is Some
    ensures mval(s[n].1) is None ==> mfold(s, s.len() as int) is None,
        mval(s[n].1) is Some ==> mfold(s, n + 1) == mput(mfold(s, n)->0, s[n].0, mval(s[n].1)->0),
        mval(s[n].1) is Some && mput(mfold(s, n)->0, s[n].0, mval(s[n].1)->0) is None ==> mfold(s, s.len() as int) is None,
        mval(s[n].1) is Some ==> (mval(s[n].1)->0 is Block ==> mval(s[n].1)->0->Block_0 is Merged),
        blocks_merged(mfold(s, n)->0),
{ if mfold(s, n + 1) is None { mfold_none(s, n + 1, s.len() as int); } mfold_blocks(s, n); let x = s[n].1; assert(mval(x)->0 is Block && mval(x) is Some ==> mval(x)->0->Block_0 is Merged); }
pub proof fn bfold_step(s: Seq<(Seq<Seq<char>>, MvV)>, n: int)
    requires 0 <= n < s.len(), bfold(s, n) is Some
    ensures bfold(s, n + 1) is None ==> bfold(s, s.len() as int) is None,
        mmv(s[n].1) is None ==> bfold(s, n + 1) is None,
        mmv(s[n].1) is Some && bfold(s, n)->0.contains_key(lid(s[n].0)) ==> bfold(s, n + 1) is None,
        mmv(s[n].1) is Some && !bfold(s, n)->0.contains_key(lid(s[n].0)) ==> bfold(s, n + 1) == Some(bfold(s, n)->0.insert(lid(s[n].0), (s[n].0, mmv(s[n].1)->0))),
{ if bfold(s, n + 1) is None { bfold_none(s, n + 1, s.len() as int); } }
/// the inner maps may be merged beforehand
pub proof fn bfold_merged(s: Seq<(Seq<Seq<char>>, MvV)>, t: Seq<(Seq<Seq<char>>, MvV)>, n: int)
    requires s.len() == t.len(), 0 <= n <= s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] t[i]).0 == s[i].0 && mmv(s[i].1) == Some(t[i].1)
    ensures bfold(t, n) == bfold(s, n)
    decreases n
{ if n > 0 { bfold_merged(s, t, n - 1); let x = t[n - 1]; assert(mmv(s[n - 1].1)->0 is Merged); assert(mmv(x.1) == Some(x.1)); } }
pub proof fn bfold_bad(s: Seq<(Seq<Seq<char>>, MvV)>, i: int)
    requires 0 <= i < s.len(), mmv(s[i].1) is None
    ensures bfold(s, s.len() as int) is None
{ if bfold(s, i) is None { bfold_none(s, i, s.len() as int); } else { bfold_step(s, i); } }
/// blocks with distinct labels never get in each other's way
pub proof fn bfold_distinct(s: Seq<(Seq<Seq<char>>, MvV)>, n: int)
    requires 0 <= n <= s.len(), forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0, forall|i: int| 0 <= i < s.len() ==> mmv((#[trigger] s[i]).1) is Some
    ensures bfold(s, n) is Some, forall|k: KeyV| #[trigger] bfold(s, n)->0.contains_key(k) ==> exists|i: int| 0 <= i < n && lid((#[trigger] s[i]).0) == k,
        forall|i: int| 0 <= i < n ==> bfold(s, n)->0.contains_key(lid((#[trigger] s[i]).0)) && bfold(s, n)->0[lid(s[i].0)] == (s[i].0, mmv(s[i].1)->0)
    decreases n
{
    if n > 0 {
        bfold_distinct(s, n - 1);
        let acc = bfold(s, n - 1)->0;
        let l = s[n - 1];
        if acc.contains_key(lid(l.0)) { let i = choose|i: int| 0 <= i < n - 1 && lid((#[trigger] s[i]).0) == lid(l.0); assert(s[i].0 == l.0); }
        assert(mmv(l.1) is Some);
        assert forall|i: int| 0 <= i < n implies bfold(s, n)->0.contains_key(lid((#[trigger] s[i]).0)) && bfold(s, n)->0[lid(s[i].0)] == (s[i].0, mmv(s[i].1)->0) by { if i < n - 1 { assert(s[i].0 != l.0); } }
        assert forall|k: KeyV| #[trigger] bfold(s, n)->0.contains_key(k) implies exists|i: int| 0 <= i < n && lid((#[trigger] s[i]).0) == k by {
            if k != lid(l.0) { assert(acc.contains_key(k)); let i = choose|i: int| 0 <= i < n - 1 && lid((#[trigger] s[i]).0) == k; assert(lid(s[i].0) == k); } else { assert(lid(s[n - 1].0) == k); }
        }
    }
}
/// merging the blocks of a hash map, in its order, is merging each of them
pub proof fn bfold_hm<'a>(h: HashMap<Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>>)
    ensures bfold(hm_pairs(h).map_values(vblock_entry()), hm_pairs(h).len() as int) == mbl(BlV::Merged(hm_view(h, vblock_entry())))
{
    broadcast use hm_keys, hm_order, hm_distinct, key_id_labels;
    let s = hm_pairs(h).map_values(vblock_entry());
    let m = hm_view(h, vblock_entry());
    assert forall|i: int| 0 <= i < s.len() implies m.contains_key(lid((#[trigger] s[i]).0)) && m[lid(s[i].0)] == s[i] by { let p = hm_pairs(h)[i]; assert(key_id(&p.0) == lid(s[i].0)); }
    assert forall|k: KeyV| m.contains_key(k) implies exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == m[k] && lid(s[i].0) == k by { let p = hm_map(h)[k]; let i = choose|i: int| 0 <= i < hm_pairs(h).len() && #[trigger] hm_pairs(h)[i] == p; assert(s[i] == m[k]); }
    if forall|i: int| 0 <= i < s.len() ==> mmv((#[trigger] s[i]).1) is Some {
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).0 != (#[trigger] s[j]).0 by { let p = hm_pairs(h)[i]; let q = hm_pairs(h)[j]; assert(key_id(&p.0) != key_id(&q.0)); }
        bfold_distinct(s, s.len() as int);
        let r = bfold(s, s.len() as int)->0;
        assert forall|k: KeyV| m.contains_key(k) implies mmv((#[trigger] m[k]).1) is Some by { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == m[k] && lid(s[i].0) == k; }
        let want = mbl(BlV::Merged(m))->0;
        assert forall|k: KeyV| r.contains_key(k) <==> #[trigger] want.contains_key(k) by {
            if m.contains_key(k) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == m[k] && lid(s[i].0) == k; }
        }
        assert forall|k: KeyV| r.contains_key(k) implies #[trigger] r[k] == want[k] by { let i = choose|i: int| 0 <= i < s.len() && lid((#[trigger] s[i]).0) == k; }
        assert(r =~= want);
    } else {
        let i = choose|i: int| 0 <= i < s.len() && mmv((#[trigger] s[i]).1) is None;
        bfold_bad(s, i);
        assert(mmv(m[lid(s[i].0)].1) is None);
    }
}
/// entering the entries of another hash map whose keys are all new
pub proof fn hm_enter_new<K, V>(m: Map<KeyV, (K, V)>, s: Seq<(K, V)>)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> key_id(&(#[trigger] s[i]).0) != key_id(&(#[trigger] s[j]).0), forall|i: int| 0 <= i < s.len() ==> !m.contains_key(key_id(&(#[trigger] s[i]).0))
    ensures forall|k: KeyV| #[trigger] hm_enter(m, s).contains_key(k) <==> m.contains_key(k) || exists|i: int| 0 <= i < s.len() && key_id(&(#[trigger] s[i]).0) == k,
        forall|i: int| 0 <= i < s.len() ==> hm_enter(m, s)[key_id(&(#[trigger] s[i]).0)] == s[i],
        forall|k: KeyV| m.contains_key(k) ==> #[trigger] hm_enter(m, s)[k] == m[k],
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        let n = s.len() - 1;
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies key_id(&(#[trigger] t[i]).0) != key_id(&(#[trigger] t[j]).0) by { assert(t[i] == s[i] && t[j] == s[j]); }
        assert forall|i: int| 0 <= i < t.len() implies !m.contains_key(key_id(&(#[trigger] t[i]).0)) by { assert(t[i] == s[i]); }
        hm_enter_new(m, t);
        let id = key_id(&s[n].0);
        if hm_enter(m, t).contains_key(id) { let i = choose|i: int| 0 <= i < t.len() && key_id(&(#[trigger] t[i]).0) == id; assert(t[i] == s[i]); assert(s[i] != s[n]); }
        assert forall|k: KeyV| #[trigger] hm_enter(m, s).contains_key(k) <==> m.contains_key(k) || exists|i: int| 0 <= i < s.len() && key_id(&(#[trigger] s[i]).0) == k by {
            if hm_enter(m, t).contains_key(k) && !m.contains_key(k) { let i = choose|i: int| 0 <= i < t.len() && key_id(&(#[trigger] t[i]).0) == k; assert(s[i] == t[i]); }
            if exists|i: int| 0 <= i < s.len() && key_id(&(#[trigger] s[i]).0) == k { let i = choose|i: int| 0 <= i < s.len() && key_id(&(#[trigger] s[i]).0) == k; if i < n { assert(s[i] == t[i]); } }
        }
        assert forall|i: int| 0 <= i < s.len() implies hm_enter(m, s)[key_id(&(#[trigger] s[i]).0)] == s[i] by { if i < n { assert(s[i] == t[i]); assert(key_id(&s[i].0) != key_id(&s[n].0)); } }
        assert forall|k: KeyV| m.contains_key(k) implies #[trigger] hm_enter(m, s)[k] == m[k] by { assert(k != id); assert(hm_enter(m, t)[k] == m[k]); }
    }
}
pub proof fn hm_enter_all<K, V, A>(m: Map<KeyV, (K, V)>, h: HashMap<K, V>, f: spec_fn((K, V)) -> A)
    requires m.dom().disjoint(hm_map(h).dom())
    ensures hm_enter(m, hm_pairs(h)).map_values(f) == m.map_values(f).union_prefer_right(hm_view(h, f))
{
    broadcast use hm_keys, hm_order, hm_distinct;
    let s = hm_pairs(h);
    assert forall|i: int| 0 <= i < s.len() implies !m.contains_key(key_id(&(#[trigger] s[i]).0)) by { let k = key_id(&s[i].0); assert(hm_map(h).dom().contains(k)); if m.contains_key(k) { assert(m.dom().contains(k)); } }
    hm_enter_new(m, s);
    let a = hm_enter(m, s);
    assert forall|k: KeyV| #[trigger] a.contains_key(k) <==> m.contains_key(k) || hm_map(h).contains_key(k) by { if hm_map(h).contains_key(k) { let x = hm_map(h)[k]; } }
    assert forall|k: KeyV| hm_map(h).contains_key(k) implies #[trigger] a[k] == hm_map(h)[k] by { let i = choose|i: int| 0 <= i < hm_pairs(h).len() && #[trigger] hm_pairs(h)[i] == hm_map(h)[k]; }
    assert(a.map_values(f) =~= m.map_values(f).union_prefer_right(hm_view(h, f)));
}
}
use std::collections::hash_map::{Entry, OccupiedEntry, VacantEntry};
verus! {
// an entry holds its map: what is in it before, and (prophesied) what is in it when the entry is given up
pub uninterp spec fn occ_before<'a, K, V>(e: OccupiedEntry<'a, K, V>) -> Map<KeyV, (K, V)>;
pub uninterp spec fn occ_after<'a, K, V>(e: OccupiedEntry<'a, K, V>) -> Map<KeyV, (K, V)>;
pub uninterp spec fn occ_id<'a, K, V>(e: OccupiedEntry<'a, K, V>) -> KeyV;
pub uninterp spec fn vac_before<'a, K, V>(e: VacantEntry<'a, K, V>) -> Map<KeyV, (K, V)>;
pub uninterp spec fn vac_after<'a, K, V>(e: VacantEntry<'a, K, V>) -> Map<KeyV, (K, V)>;
pub uninterp spec fn vac_key<'a, K, V>(e: VacantEntry<'a, K, V>) -> K;
#[verifier::external_body]
pub fn hm_entry<'b, K: std::hash::Hash + Eq, V, S: std::hash::BuildHasher>(m: &'b mut HashMap<K, V, S>, k: K) -> (r: Entry<'b, K, V>)
    ensures match r {
        Entry::Vacant(v) => !hm_map(*old(m)).contains_key(key_id(&k)) && vac_before(v) == hm_map(*old(m)) && vac_key(v) == k && hm_map(*final(m)) == vac_after(v),
        Entry::Occupied(o) => hm_map(*old(m)).contains_key(key_id(&k)) && occ_before(o) == hm_map(*old(m)) && occ_id(o) == key_id(&k) && hm_map(*final(m)) == occ_after(o),
    }
{ m.entry(k) }
#[verifier::external_body]
pub fn vac_insert<'b, K, V>(e: VacantEntry<'b, K, V>, v: V)
    ensures vac_after(e) == vac_before(e).insert(key_id(&vac_key(e)), (vac_key(e), v))
{ e.insert(v); }
#[verifier::external_body]
pub fn occ_key<'b, 'c, K, V>(e: &'c OccupiedEntry<'b, K, V>) -> (r: &'c K) ensures *r == occ_before(*e)[occ_id(*e)].0 { e.key() }
/// OccupiedEntry::get_mut of an entry that is not used any further
#[verifier::external_body]
pub fn occ_get_mut<'b, K, V>(e: OccupiedEntry<'b, K, V>) -> (r: &'b mut V)
    ensures *r == occ_before(e)[occ_id(e)].1, occ_after(e) == occ_before(e).insert(occ_id(e), (occ_before(e)[occ_id(e)].0, *final(r)))
{ e.into_mut() }
/// the text of a key, for an error message
#[verifier::external_body]
pub fn any_string(k: &Key) -> (r: String) { k.to_string() }
#[verifier::external_body]
pub fn join_labels(k: &Vec<String>, s: &str) -> (r: String) { k.join(s) }
#[verifier::external_body]
pub fn hm_contains<K: std::hash::Hash + Eq, V, S: std::hash::BuildHasher>(m: &HashMap<K, V, S>, k: &K) -> (r: bool) ensures r == hm_map(*m).contains_key(key_id(k)) { m.contains_key(k) }
/// HashMap::insert
#[verifier::external_body]
pub fn hm_insert<K: std::hash::Hash + Eq, V, S: std::hash::BuildHasher>(m: &mut HashMap<K, V, S>, k: K, v: V) -> (r: Option<V>)
    ensures hm_map(*final(m)) == hm_map(*old(m)).insert(key_id(&k), (if hm_map(*old(m)).contains_key(key_id(&k)) { hm_map(*old(m))[key_id(&k)].0 } else { k }, v)),
{ m.insert(k, v) }
/// none of the first n keys of `s` is held
pub open spec fn none_held<K: std::hash::Hash + Eq, V>(m: KeyValuePairs<K, V>, s: Seq<(K, V)>, n: int) -> bool { forall|j: int| 0 <= j < n ==> !hm_map(m->Merged_0).contains_key(key_id(&(#[trigger] s[j]).0)) }
pub broadcast proof fn map_values_add<A, B>(a: Seq<A>, b: Seq<A>, f: spec_fn(A) -> B)
    ensures #[trigger] (a + b).map_values(f) == a.map_values(f) + b.map_values(f)
{ assert((a + b).map_values(f) =~= a.map_values(f) + b.map_values(f)); }
pub proof fn distinct_blocks<'a>(a: KeyValuePairs<Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>>, b: KeyValuePairs<Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>>)
    requires a is Merged, b is Merged
    ensures blview(a) == BlV::Merged(hm_view(a->Merged_0, vblock_entry())), blview(b) == BlV::Merged(hm_view(b->Merged_0, vblock_entry())),
        none_held(a, kv_pairs(b), kv_pairs(b).len() as int) == hm_view(a->Merged_0, vblock_entry()).dom().disjoint(hm_view(b->Merged_0, vblock_entry()).dom()),
        none_held(a, kv_pairs(b), kv_pairs(b).len() as int) ==> hm_enter(hm_map(a->Merged_0), kv_pairs(b)).map_values(vblock_entry()) == hm_view(a->Merged_0, vblock_entry()).union_prefer_right(hm_view(b->Merged_0, vblock_entry())),
{
    broadcast use hm_keys, hm_order, group_vview;
    assert(a == KeyValuePairs::<Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>>::Merged(a->Merged_0));
    assert(b == KeyValuePairs::<Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>>::Merged(b->Merged_0));
    let x = a->Merged_0;
    let y = b->Merged_0;
    assert(hm_view(x, vblock_entry()).dom() =~= hm_map(x).dom());
    assert(hm_view(y, vblock_entry()).dom() =~= hm_map(y).dom());
    if none_held(a, kv_pairs(b), kv_pairs(b).len() as int) {
        assert forall|k: KeyV| hm_map(x).contains_key(k) implies !#[trigger] hm_map(y).contains_key(k) by { if hm_map(y).contains_key(k) { let i = choose|i: int| 0 <= i < hm_pairs(y).len() && #[trigger] hm_pairs(y)[i] == hm_map(y)[k]; assert(key_id(&hm_pairs(y)[i].0) == k); } }
        hm_enter_all(hm_map(x), y, vblock_entry());
    } else {
        let j = choose|j: int| 0 <= j < kv_pairs(b).len() && hm_map(x).contains_key(key_id(&(#[trigger] kv_pairs(b)[j]).0));
        let k = key_id(&hm_pairs(y)[j].0);
        assert(hm_map(y).dom().contains(k) && hm_map(x).dom().contains(k));
    }
}
pub proof fn merged_block<'a>(before: HashMap<Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>>, id: KeyV, k: Vec<String>, v: KeyValuePairs<Key<'a>, Value<'a>>)
    ensures hm_map(before).insert(id, (k, v)).map_values(vblock_entry()) == hm_view(before, vblock_entry()).insert(id, (labels_of(k), mview(v)))
{ assert(hm_map(before).insert(id, (k, v)).map_values(vblock_entry()) =~= hm_view(before, vblock_entry()).insert(id, (labels_of(k), mview(v)))); }
/// a list whose first elements `c` are merged
pub proof fn merged_list<'a>(x: Vec<Value<'a>>, c: Vec<Value<'a>>)
    requires c@.len() <= x@.len(), forall|j: int| 0 <= j < c@.len() ==> mval(vview(x@[j])) == Some(vview(#[trigger] c@[j]))
    ensures c@.len() == x@.len() ==> mval(vview(Value::List(x))) == Some(vview(Value::List(c))),
        c@.len() < x@.len() && mval(vview(x@[c@.len() as int])) is None ==> mval(vview(Value::List(x))) is None,
{
    broadcast use group_vview;
    let s = x@.map_values(vval());
    let t = c@.map_values(vval());
    if c@.len() == x@.len() {
        assert forall|i: int| 0 <= i < s.len() implies mval(#[trigger] s[i]) is Some by { assert(t[i] == vview(c@[i])); }
        assert(mval(ValV::List(s))->0->List_0 =~= t) by { assert forall|i: int| 0 <= i < s.len() implies mval(s[i]) == Some(#[trigger] t[i]) by { assert(t[i] == vview(c@[i])); } }
    } else if mval(vview(x@[c@.len() as int])) is None { assert(s[c@.len() as int] == vview(x@[c@.len() as int])); }
}
pub proof fn merged_object<'a>(x: Vec<KeyValuePairs<Key<'a>, Value<'a>>>, c: Vec<KeyValuePairs<Key<'a>, Value<'a>>>)
    requires c@.len() <= x@.len(), forall|j: int| 0 <= j < c@.len() ==> mmv(mview(x@[j])) == Some(mview(#[trigger] c@[j]))
    ensures c@.len() == x@.len() ==> mval(vview(Value::Object(x))) == Some(vview(Value::Object(c))),
        c@.len() < x@.len() && mmv(mview(x@[c@.len() as int])) is None ==> mval(vview(Value::Object(x))) is None,
{
    broadcast use group_vview;
    let s = x@.map_values(vmv());
    let t = c@.map_values(vmv());
    if c@.len() == x@.len() {
        assert forall|i: int| 0 <= i < s.len() implies mmv(#[trigger] s[i]) is Some by { assert(t[i] == mview(c@[i])); }
        assert(mval(ValV::Object(s))->0->Object_0 =~= t) by { assert forall|i: int| 0 <= i < s.len() implies mmv(s[i]) == Some(#[trigger] t[i]) by { assert(t[i] == mview(c@[i])); } }
    } else if mmv(mview(x@[c@.len() as int])) is None { assert(s[c@.len() as int] == mview(x@[c@.len() as int])); }
}
/// the first blocks, each with its body merged
pub open spec fn blocks_so_far<'a>(b: KeyValuePairs<Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>>, c: Seq<(Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>)>) -> bool {
    c.len() <= kv_pairs(b).len() && forall|j: int| 0 <= j < c.len() ==> mmv(mview(kv_pairs(b)[j].1)) == Some(mview((#[trigger] c[j]).1)) && c[j].0 == kv_pairs(b)[j].0 && c[j].1 is Merged
}
pub open spec fn blocks_done<'a>(b: KeyValuePairs<Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>>, c: Seq<(Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>)>, bad: bool) -> bool {
    blocks_so_far(b, c) && if bad { c.len() < kv_pairs(b).len() && mmv(mview(kv_pairs(b)[c.len() as int].1)) is None } else { c.len() == kv_pairs(b).len() }
}
pub proof fn merged_blocks<'a>(b: KeyValuePairs<Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>>, c: Seq<(Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>)>)
    requires blocks_so_far(b, c)
    ensures c.len() == kv_pairs(b).len() ==> bfold(c.map_values(vblock_entry()), c.len() as int) == mbl(blview(b)),
        c.len() < kv_pairs(b).len() && mmv(mview(kv_pairs(b)[c.len() as int].1)) is None ==> mbl(blview(b)) is None,
{
    broadcast use group_vview;
    let s = kv_pairs(b).map_values(vblock_entry());
    let t = c.map_values(vblock_entry());
    match b { KeyValuePairs::Merged(h) => { bfold_hm(h); } KeyValuePairs::Unmerged(x) => {} }
    assert(bfold(s, s.len() as int) == mbl(blview(b)));
    if c.len() == kv_pairs(b).len() {
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] t[i]).0 == s[i].0 && mmv(s[i].1) == Some(t[i].1) by { assert(t[i] == (labels_of(c[i].0), mview(c[i].1))); }
        bfold_merged(s, t, t.len() as int);
    } else if mmv(mview(kv_pairs(b)[c.len() as int].1)) is None { bfold_bad(s, c.len() as int); }
}
pub proof fn merged_entry<'a>(before: HashMap<Key<'a>, Value<'a>>, after: Map<KeyV, (Key<'a>, Value<'a>)>, id: KeyV, k: Key<'a>, v: Value<'a>)
    ensures hm_map(before).insert(id, (k, v)).map_values(ventry()) == hm_view(before, ventry()).insert(id, (kview(k), vview(v)))
{ assert(hm_map(before).insert(id, (k, v)).map_values(ventry()) =~= hm_view(before, ventry()).insert(id, (kview(k), vview(v)))); }
pub proof fn kid_key<'a>(k: Key<'a>) ensures kid(kview(k)) == key_id(&k) { broadcast use key_id_key; }
pub fn not_reached<'a>(x: Vec<(Key<'a>, Value<'a>)>) -> (r: Result<KeyValuePairs<Key<'a>, Value<'a>>, Error>) requires false { vstd::pervasive::unreached() }
pub proof fn pair_smaller<K: std::hash::Hash + Eq, V>(m: KeyValuePairs<K, V>, i: int)
    requires 0 <= i < kv_pairs(m).len()
    ensures decreases_to!(m => kv_pairs(m)[i]), decreases_to!(m => kv_pairs(m)[i].1)
{ broadcast use hm_height_at; match m { KeyValuePairs::Merged(h) => { let p = hm_pairs(h)[i]; assert(decreases_to!(h => p)); } KeyValuePairs::Unmerged(x) => { let p = x@[i]; assert(decreases_to!(x => p)); } } }
pub open spec fn bodies_merged(b: BlV) -> bool { b is Unmerged && forall|i: int| 0 <= i < b->Unmerged_0.len() ==> (#[trigger] b->Unmerged_0[i]).1 is Merged }
pub proof fn merged_body<'a>(b: KeyValuePairs<Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>>, i: int)
    requires bodies_merged(blview(b)), 0 <= i < kv_pairs(b).len()
    ensures kv_pairs(b)[i].1 is Merged
{ broadcast use group_vview; let s = blview(b)->Unmerged_0; assert(s[i].1 == mview(kv_pairs(b)[i].1)); }
pub proof fn merged_bodies<'a>(b: KeyValuePairs<Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>>, c: Seq<(Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>)>)
    requires blocks_so_far(b, c)
    ensures bodies_merged(BlV::Unmerged(c.map_values(vblock_entry())))
{ let s = c.map_values(vblock_entry()); assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).1 is Merged by { assert(s[i].1 == mview(c[i].1)); } }
/// the copy of an entry
pub fn entry_clone<'a>(p: &(Key<'a>, Value<'a>)) -> (r: (Key<'a>, Value<'a>))
    ensures ventry()(r) == ventry()(*p)
{ (crate::parser::literals::key::key_clone(&p.0), crate::value::value_clone(&p.1)) }
pub fn block_entry_clone<'a>(p: &(Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>)) -> (r: (Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>))
    ensures vblock_entry()(r) == vblock_entry()(*p)
{ (labels_clone(&p.0), crate::map_clone(&p.1)) }
/// what is merged stays as it is when merged again
pub proof fn m01_again(v: ValV)
    requires mval(v) is Some
    ensures mval(mval(v)->0) == mval(v)
    decreases v, 0nat
{
    match v {
        ValV::List(s) => {
            let t = mval(v)->0->List_0;
            assert forall|i: int| 0 <= i < t.len() implies mval(#[trigger] t[i]) == Some(t[i]) by { assert(mval(s[i]) is Some); m01_again(s[i]); }
            assert(mval(ValV::List(t))->0->List_0 =~= t);
        }
        ValV::Object(s) => {
            let t = mval(v)->0->Object_0;
            assert forall|i: int| 0 <= i < t.len() implies mmv(#[trigger] t[i]) == Some(t[i]) by { assert(mmv(s[i]) is Some); m01_again_map(s[i]); }
            assert(mval(ValV::Object(t))->0->Object_0 =~= t);
        }
        ValV::Block(b) => {
            m01_again_block(b);
        }
        _ => {}
    }
}
pub proof fn m01_again_map(m: MvV)
    requires mmv(m) is Some
    ensures mmv(mmv(m)->0) == mmv(m)
{}
pub proof fn m01_again_block(b: BlV)
    requires mbl(b) is Some
    ensures mbl(BlV::Merged(mbl(b)->0)) == mbl(b)
{
    let m = mbl(b)->0;
    match b { BlV::Unmerged(s) => { bfold_bodies(s, s.len() as int); } BlV::Merged(_) => {} }
    assert forall|k: KeyV| m.contains_key(k) implies mmv((#[trigger] m[k]).1) == Some(m[k].1) by { match b { BlV::Merged(x) => { assert(mmv(x[k].1) is Some); } _ => {} } }
    assert(mbl(BlV::Merged(m))->0 =~= m);
}
pub proof fn bfold_bodies(s: Seq<(Seq<Seq<char>>, MvV)>, n: int)
    requires 0 <= n <= s.len(), bfold(s, n) is Some
    ensures forall|k: KeyV| bfold(s, n)->0.contains_key(k) ==> (#[trigger] bfold(s, n)->0[k]).1 is Merged
    decreases n
{ if n > 0 { bfold_bodies(s, n - 1); let x = s[n - 1]; assert(mmv(x.1) is Some && mmv(x.1)->0 is Merged); let a = bfold(s, n - 1)->0; assert forall|k: KeyV| bfold(s, n)->0.contains_key(k) implies (#[trigger] bfold(s, n)->0[k]).1 is Merged by { if k != lid(s[n - 1].0) { assert(a.contains_key(k)); assert(bfold(s, n)->0[k] == a[k]); } } } }
/// no key gets lost and none is invented
pub proof fn m01_keys(s: Seq<(KeyLitV, ValV)>, n: int)
    requires 0 <= n <= s.len(), mfold(s, n) is Some
    ensures forall|k: KeyV| #[trigger] mfold(s, n)->0.contains_key(k) <==> exists|i: int| 0 <= i < n && kid((#[trigger] s[i]).0) == k
    decreases n
{
    if n > 0 {
        m01_keys(s, n - 1);
        let a = mfold(s, n - 1)->0;
        assert forall|k: KeyV| #[trigger] mfold(s, n)->0.contains_key(k) <==> exists|i: int| 0 <= i < n && kid((#[trigger] s[i]).0) == k by {
            if mfold(s, n)->0.contains_key(k) { if a.contains_key(k) { let i = choose|i: int| 0 <= i < n - 1 && kid((#[trigger] s[i]).0) == k; assert(kid(s[i].0) == k); } else { assert(kid(s[n - 1].0) == k); } }
            if exists|i: int| 0 <= i < n && kid((#[trigger] s[i]).0) == k { let i = choose|i: int| 0 <= i < n && kid((#[trigger] s[i]).0) == k; if i < n - 1 { assert(a.contains_key(k)); } }
        }
    }
}
/// an entry whose key is written once is kept with its own merged data
pub proof fn m01_lone(s: Seq<(KeyLitV, ValV)>, n: int, i: int)
    requires 0 <= i < n <= s.len(), mfold(s, n) is Some, forall|j: int| 0 <= j < n && j != i ==> kid((#[trigger] s[j]).0) != kid(s[i].0)
    ensures mval(s[i].1) is Some, mfold(s, n)->0.contains_key(kid(s[i].0)), mfold(s, n)->0[kid(s[i].0)] == (s[i].0, mval(s[i].1)->0)
    decreases n
{
    m01_keys(s, n - 1);
    if i < n - 1 { m01_lone(s, n - 1, i); assert(kid(s[n - 1].0) != kid(s[i].0)); }
    else if mfold(s, n - 1)->0.contains_key(kid(s[i].0)) { let j = choose|j: int| 0 <= j < n - 1 && kid((#[trigger] s[j]).0) == kid(s[i].0); assert(j != i); }
}
/// the maps written under a key, one after the other
pub open spec fn maps_under(s: Seq<(KeyLitV, ValV)>, n: int, k: KeyV) -> Seq<MvV>
    decreases n
{ if n <= 0 { Seq::empty() } else if kid(s[n - 1].0) == k { match mval(s[n - 1].1) { Some(ValV::Object(x)) => maps_under(s, n - 1, k) + x, _ => maps_under(s, n - 1, k) } } else { maps_under(s, n - 1, k) } }
pub proof fn m01_maps(s: Seq<(KeyLitV, ValV)>, n: int, k: KeyV)
    requires 0 <= n <= s.len(), mfold(s, n) is Some
    ensures !mfold(s, n)->0.contains_key(k) ==> maps_under(s, n, k) == Seq::<MvV>::empty(),
        mfold(s, n)->0.contains_key(k) && mfold(s, n)->0[k].1 is Object ==> mfold(s, n)->0[k].1->Object_0 == maps_under(s, n, k),
    decreases n
{
    if n > 0 {
        m01_maps(s, n - 1, k);
        let a = mfold(s, n - 1)->0;
        if kid(s[n - 1].0) == k && !a.contains_key(k) { match mval(s[n - 1].1) { Some(ValV::Object(x)) => { assert(Seq::<MvV>::empty() + x =~= x); } _ => {} } }
        else if kid(s[n - 1].0) != k { assert(mfold(s, n)->0.contains_key(k) ==> mfold(s, n)->0[k] == a[k]); }
    }
}
}
