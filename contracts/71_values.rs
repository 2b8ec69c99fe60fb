// Value trees: pairs, counts, merge flags, structural sameness
use std::collections::HashMap;
use crate::{KeyValuePairs, OneOrMany};
use crate::parser::literals::key::Key;
verus! {
/// What `Eq` and `Hash` of a map key compare (Key, str, String, Cow<str>: the text; Vec<String>: the texts)
pub enum KeyV { Text(Seq<char>), Texts(Seq<Seq<char>>), Other(int) }
pub uninterp spec fn key_id<K: ?Sized>(k: &K) -> KeyV;
pub open spec fn ktext<'a>(k: Key<'a>) -> Seq<char> { match k { Key::Identifier(s) => s@, Key::String(s) => s@ } }
pub broadcast axiom fn key_id_key<'a>(k: &Key<'a>) ensures #[trigger] key_id::<Key<'a>>(k) == KeyV::Text(ktext(*k));
pub broadcast axiom fn key_id_labels(k: &Vec<String>) ensures #[trigger] key_id::<Vec<String>>(k) == KeyV::Texts(k@.map_values(vstring()));
/// the entries of a hash map by key
pub uninterp spec fn hm_map<K, V, S>(m: HashMap<K, V, S>) -> Map<KeyV, (K, V)>;
/// the same entries in iteration order
pub uninterp spec fn hm_pairs<K, V, S>(m: HashMap<K, V, S>) -> Seq<(K, V)>;
pub broadcast axiom fn hm_keys<K, V, S>(m: HashMap<K, V, S>, k: KeyV)
    requires hm_map(m).contains_key(k)
    ensures key_id(&(#[trigger] hm_map(m)[k]).0) == k, exists|i: int| 0 <= i < hm_pairs(m).len() && #[trigger] hm_pairs(m)[i] == hm_map(m)[k];
pub broadcast axiom fn hm_order<K, V, S>(m: HashMap<K, V, S>, i: int)
    requires 0 <= i < hm_pairs(m).len()
    ensures hm_map(m).contains_key(key_id(&(#[trigger] hm_pairs(m)[i]).0)), hm_map(m)[key_id(&hm_pairs(m)[i].0)] == hm_pairs(m)[i];
pub broadcast axiom fn hm_distinct<K, V, S>(m: HashMap<K, V, S>, i: int, j: int)
    requires 0 <= i < j < hm_pairs(m).len()
    ensures key_id(&(#[trigger] hm_pairs(m)[i]).0) != key_id(&(#[trigger] hm_pairs(m)[j]).0);
/// a map is bigger than what it holds
pub broadcast axiom fn hm_height<K, V, S>(m: HashMap<K, V, S>, k: KeyV)
    requires hm_map(m).contains_key(k)
    ensures decreases_to!(m => #[trigger] hm_map(m)[k]);
pub broadcast axiom fn hm_height_at<K, V, S>(m: HashMap<K, V, S>, i: int)
    requires 0 <= i < hm_pairs(m).len()
    ensures decreases_to!(m => #[trigger] hm_pairs(m)[i]);

// ---- what a value holds ----
pub enum KeyLitV { Ident(Seq<char>), Str(Seq<char>) }
pub enum ValV { Null, Integer(i64), Float(f64), Boolean(bool), Str(Seq<char>), List(Seq<ValV>), Object(Seq<MvV>), Block(BlV) }
pub enum MvV { Merged(Map<KeyV, (KeyLitV, ValV)>), Unmerged(Seq<(KeyLitV, ValV)>) }
pub enum BlV { Merged(Map<KeyV, (Seq<Seq<char>>, MvV)>), Unmerged(Seq<(Seq<Seq<char>>, MvV)>) }
pub open spec fn kview<'a>(k: Key<'a>) -> KeyLitV { match k { Key::Identifier(s) => KeyLitV::Ident(s@), Key::String(s) => KeyLitV::Str(s@) } }
pub open spec fn labels_of(v: Vec<String>) -> Seq<Seq<char>> { v@.map_values(vstring()) }
pub open spec fn val_none() -> ValV { ValV::Null }
pub open spec fn mv_none() -> MvV { MvV::Unmerged(Seq::empty()) }
pub open spec fn vview<'a>(v: Value<'a>) -> ValV
    decreases v via vview_dec
{
    match v {
        Value::Null => ValV::Null,
        Value::Integer(i) => ValV::Integer(i),
        Value::Float(i) => ValV::Float(i),
        Value::Boolean(i) => ValV::Boolean(i),
        Value::String(s) => ValV::Str(s@),
        Value::List(x) => ValV::List(Seq::new(x@.len(), |i: int| if 0 <= i < x@.len() { vview(x@[i]) } else { val_none() })),
        Value::Object(x) => ValV::Object(Seq::new(x@.len(), |i: int| if 0 <= i < x@.len() { mview(x@[i]) } else { mv_none() })),
        Value::Block(x) => ValV::Block(blview(x)),
    }
}
pub open spec fn mview<'a>(m: KeyValuePairs<Key<'a>, Value<'a>>) -> MvV
    decreases m via mview_dec
{
    match m {
        KeyValuePairs::Merged(h) => MvV::Merged(Map::new(hm_map(h).dom(), |k: KeyV| if hm_map(h).contains_key(k) { (kview(hm_map(h)[k].0), vview(hm_map(h)[k].1)) } else { (KeyLitV::Ident(Seq::empty()), val_none()) })),
        KeyValuePairs::Unmerged(x) => MvV::Unmerged(Seq::new(x@.len(), |i: int| if 0 <= i < x@.len() { (kview(x@[i].0), vview(x@[i].1)) } else { (KeyLitV::Ident(Seq::empty()), val_none()) })),
    }
}
pub open spec fn blview<'a>(m: KeyValuePairs<Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>>) -> BlV
    decreases m via blview_dec
{
    match m {
        KeyValuePairs::Merged(h) => BlV::Merged(Map::new(hm_map(h).dom(), |k: KeyV| if hm_map(h).contains_key(k) { (labels_of(hm_map(h)[k].0), mview(hm_map(h)[k].1)) } else { (Seq::empty(), mv_none()) })),
        KeyValuePairs::Unmerged(x) => BlV::Unmerged(Seq::new(x@.len(), |i: int| if 0 <= i < x@.len() { (labels_of(x@[i].0), mview(x@[i].1)) } else { (Seq::empty(), mv_none()) })),
    }
}
#[via_fn]
proof fn vview_dec<'a>(v: Value<'a>) { broadcast use hm_height; }
#[via_fn]
proof fn mview_dec<'a>(m: KeyValuePairs<Key<'a>, Value<'a>>) { broadcast use hm_height; }
#[via_fn]
proof fn blview_dec<'a>(m: KeyValuePairs<Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>>) { broadcast use hm_height; }
pub open spec fn vkey<'a>() -> spec_fn(Key<'a>) -> KeyLitV { |k: Key<'a>| kview(k) }
pub open spec fn vlabels() -> spec_fn(Vec<String>) -> Seq<Seq<char>> { |k: Vec<String>| labels_of(k) }
pub open spec fn vval<'a>() -> spec_fn(Value<'a>) -> ValV { |v: Value<'a>| vview(v) }
pub open spec fn vmv<'a>() -> spec_fn(KeyValuePairs<Key<'a>, Value<'a>>) -> MvV { |v: KeyValuePairs<Key<'a>, Value<'a>>| mview(v) }
pub open spec fn vbl<'a>() -> spec_fn(KeyValuePairs<Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>>) -> BlV { |v: KeyValuePairs<Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>>| blview(v) }
pub open spec fn vboth<K, V, A, B>(kf: spec_fn(K) -> A, vf: spec_fn(V) -> B) -> spec_fn((K, V)) -> (A, B) { |p: (K, V)| (kf(p.0), vf(p.1)) }
pub open spec fn ventry<'a>() -> spec_fn((Key<'a>, Value<'a>)) -> (KeyLitV, ValV) { |p: (Key<'a>, Value<'a>)| (kview(p.0), vview(p.1)) }
pub open spec fn vblock_entry<'a>() -> spec_fn((Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>)) -> (Seq<Seq<char>>, MvV) { |p: (Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>)| (labels_of(p.0), mview(p.1)) }
/// the entries of a hash map, each seen through `f`
pub open spec fn hm_view<K, V, S, A>(m: HashMap<K, V, S>, f: spec_fn((K, V)) -> A) -> Map<KeyV, A> { hm_map(m).map_values(f) }
pub broadcast proof fn vview_list<'a>(x: Vec<Value<'a>>)
    ensures #[trigger] vview(Value::List(x)) == ValV::List(x@.map_values(vval()))
{ assert(vview(Value::List(x))->List_0 =~= x@.map_values(vval())); }
pub broadcast proof fn vview_object<'a>(x: Vec<KeyValuePairs<Key<'a>, Value<'a>>>)
    ensures #[trigger] vview(Value::Object(x)) == ValV::Object(x@.map_values(vmv()))
{ assert(vview(Value::Object(x))->Object_0 =~= x@.map_values(vmv())); }
pub broadcast proof fn mview_unmerged<'a>(x: Vec<(Key<'a>, Value<'a>)>)
    ensures #[trigger] mview(KeyValuePairs::Unmerged(x)) == MvV::Unmerged(x@.map_values(ventry()))
{ assert(mview(KeyValuePairs::Unmerged(x))->Unmerged_0 =~= x@.map_values(ventry())); }
pub broadcast proof fn mview_merged<'a>(h: HashMap<Key<'a>, Value<'a>>)
    ensures #[trigger] mview(KeyValuePairs::Merged(h)) == MvV::Merged(hm_view(h, ventry()))
{ assert(mview(KeyValuePairs::Merged(h))->Merged_0 =~= hm_view(h, ventry())); }
pub broadcast proof fn blview_unmerged<'a>(x: Vec<(Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>)>)
    ensures #[trigger] blview(KeyValuePairs::Unmerged(x)) == BlV::Unmerged(x@.map_values(vblock_entry()))
{ assert(blview(KeyValuePairs::Unmerged(x))->Unmerged_0 =~= x@.map_values(vblock_entry())); }
pub broadcast proof fn blview_merged<'a>(h: HashMap<Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>>)
    ensures #[trigger] blview(KeyValuePairs::Merged(h)) == BlV::Merged(hm_view(h, vblock_entry()))
{ assert(blview(KeyValuePairs::Merged(h))->Merged_0 =~= hm_view(h, vblock_entry())); }
pub broadcast group group_vview { vview_list, vview_object, mview_unmerged, mview_merged, blview_unmerged, blview_merged }

/// entering a key and its data: the first key of equal ones stays, the last data
pub open spec fn madd<A, B>(m: Map<KeyV, (A, B)>, k: KeyV, p: (A, B)) -> Map<KeyV, (A, B)> { m.insert(k, (if m.contains_key(k) { m[k].0 } else { p.0 }, p.1)) }
pub open spec fn madd_all<A, B>(s: Seq<(KeyV, (A, B))>) -> Map<KeyV, (A, B)>
    decreases s.len()
{ if s.len() == 0 { Map::empty() } else { madd(madd_all(s.drop_last()), s.last().0, s.last().1) } }
pub open spec fn keyed<K, V, A, B>(s: Seq<(K, V)>, f: spec_fn((K, V)) -> (A, B)) -> Seq<(KeyV, (A, B))> { s.map_values(|p: (K, V)| (key_id(&p.0), f(p))) }
pub proof fn madd_all_props<K, V, A, B>(s: Seq<(K, V)>, f: spec_fn((K, V)) -> (A, B))
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> key_id(&(#[trigger] s[i]).0) != key_id(&(#[trigger] s[j]).0)
    ensures forall|k: KeyV| #[trigger] madd_all(keyed(s, f)).contains_key(k) <==> exists|i: int| 0 <= i < s.len() && key_id(&(#[trigger] s[i]).0) == k,
        forall|i: int| 0 <= i < s.len() ==> madd_all(keyed(s, f))[key_id(&(#[trigger] s[i]).0)] == f(s[i]),
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert(keyed(s, f).drop_last() =~= keyed(t, f));
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies key_id(&(#[trigger] t[i]).0) != key_id(&(#[trigger] t[j]).0) by { assert(t[i] == s[i] && t[j] == s[j]); }
        madd_all_props(t, f);
        let n = s.len() - 1;
        assert forall|k: KeyV| #[trigger] madd_all(keyed(s, f)).contains_key(k) <==> exists|i: int| 0 <= i < s.len() && key_id(&(#[trigger] s[i]).0) == k by {
            if madd_all(keyed(t, f)).contains_key(k) { let i = choose|i: int| 0 <= i < t.len() && key_id(&(#[trigger] t[i]).0) == k; assert(s[i] == t[i]); }
            if exists|i: int| 0 <= i < s.len() && key_id(&(#[trigger] s[i]).0) == k {
                let i = choose|i: int| 0 <= i < s.len() && key_id(&(#[trigger] s[i]).0) == k;
                if i < n { assert(s[i] == t[i]); }
            }
        }
        assert forall|i: int| 0 <= i < s.len() implies madd_all(keyed(s, f))[key_id(&(#[trigger] s[i]).0)] == f(s[i]) by {
            if i < n {
                assert(s[i] == t[i]);
                assert(key_id(&s[i].0) != key_id(&s[n].0));
            } else if madd_all(keyed(t, f)).contains_key(key_id(&s[n].0)) {
                let j = choose|j: int| 0 <= j < t.len() && key_id(&(#[trigger] t[j]).0) == key_id(&s[n].0);
                assert(s[j] == t[j]);
                assert(key_id(&s[j].0) != key_id(&s[n].0));
            }
        }
    }
}
/// entering the entries of a hash map one by one gives its entries
pub proof fn hm_rebuild<K, V, S, A, B>(m: HashMap<K, V, S>, f: spec_fn((K, V)) -> (A, B))
    ensures madd_all(keyed(hm_pairs(m), f)) == hm_view(m, f)
{
    broadcast use hm_keys, hm_order, hm_distinct;
    madd_all_props(hm_pairs(m), f);
    let a = madd_all(keyed(hm_pairs(m), f));
    assert forall|k: KeyV| a.contains_key(k) <==> #[trigger] hm_view(m, f).contains_key(k) by {
        if hm_map(m).contains_key(k) { let x = hm_map(m)[k]; }
    }
    assert forall|k: KeyV| a.contains_key(k) implies #[trigger] a[k] == hm_view(m, f)[k] by {
        let i = choose|i: int| 0 <= i < hm_pairs(m).len() && key_id(&(#[trigger] hm_pairs(m)[i]).0) == k;
    }
    assert(a =~= hm_view(m, f));
}
#[verifier::external_body]
pub fn hm_new<K: std::hash::Hash + Eq, V, S: std::hash::BuildHasher + Default>() -> (r: HashMap<K, V, S>)
    ensures hm_map(r) == Map::<KeyV, (K, V)>::empty(), hm_pairs(r).len() == 0
{ HashMap::default() }
/// HashMap::insert (the key of an entry already there stays)
#[verifier::external_body]
pub fn hm_add<K: std::hash::Hash + Eq, V, S: std::hash::BuildHasher>(m: &mut HashMap<K, V, S>, p: (K, V))
    ensures hm_map(*final(m)) == hm_map(*old(m)).insert(key_id(&p.0), (if hm_map(*old(m)).contains_key(key_id(&p.0)) { hm_map(*old(m))[key_id(&p.0)].0 } else { p.0 }, p.1)),
        hm_pairs(*final(m)).len() == hm_pairs(*old(m)).len() + (if hm_map(*old(m)).contains_key(key_id(&p.0)) { 0int } else { 1int }),
{ m.insert(p.0, p.1); }
#[verifier::external_body]
pub fn hm_iter<'b, K, V, S>(m: &'b HashMap<K, V, S>) -> (r: Vec<(&'b K, &'b V)>)
    ensures r@.len() == hm_pairs(*m).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == hm_pairs(*m)[i].0 && *r@[i].1 == hm_pairs(*m)[i].1
{ m.iter().collect() }
#[verifier::external_body]
pub fn hm_len<K, V, S>(m: &HashMap<K, V, S>) -> (r: usize) ensures r == hm_pairs(*m).len() { m.len() }
/// HashMap::into_iter, as the list of its entries
#[verifier::external_body]
pub fn hm_into_iter<K, V, S>(m: HashMap<K, V, S>) -> (r: Vec<(K, V)>) ensures r@ == hm_pairs(m)
{ m.into_iter().collect() }
// cloning the containers of the standard library clones element by element
#[verifier::external_body]
pub fn vec_value_clone<'a>(v: &Vec<Value<'a>>) -> (r: Vec<Value<'a>>) ensures r@.map_values(vval()) == v@.map_values(vval()) { v.clone() }
#[verifier::external_body]
pub fn vec_map_clone<'a>(v: &Vec<KeyValuePairs<Key<'a>, Value<'a>>>) -> (r: Vec<KeyValuePairs<Key<'a>, Value<'a>>>) ensures r@.map_values(vmv()) == v@.map_values(vmv()) { v.clone() }
#[verifier::external_body]
pub fn vec_entry_clone<'a>(v: &Vec<(Key<'a>, Value<'a>)>) -> (r: Vec<(Key<'a>, Value<'a>)>) ensures r@.map_values(ventry()) == v@.map_values(ventry()) { v.clone() }
#[verifier::external_body]
pub fn vec_block_entry_clone<'a>(v: &Vec<(Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>)>) -> (r: Vec<(Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>)>) ensures r@.map_values(vblock_entry()) == v@.map_values(vblock_entry()) { v.clone() }
#[verifier::external_body]
pub fn hm_entry_clone<'a>(v: &HashMap<Key<'a>, Value<'a>>) -> (r: HashMap<Key<'a>, Value<'a>>) ensures hm_view(r, ventry()) == hm_view(*v, ventry()) { v.clone() }
#[verifier::external_body]
pub fn hm_block_entry_clone<'a>(v: &HashMap<Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>>) -> (r: HashMap<Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>>) ensures hm_view(r, vblock_entry()) == hm_view(*v, vblock_entry()) { v.clone() }
#[verifier::external_body]
pub fn labels_clone(v: &Vec<String>) -> (r: Vec<String>) ensures labels_of(r) == labels_of(*v) { v.clone() }
#[verifier::external_body]
pub fn f64_clone(v: &f64) -> (r: f64) ensures r == *v { *v }
#[verifier::external_body]
pub fn cow_clone<'a>(v: &std::borrow::Cow<'a, str>) -> (r: std::borrow::Cow<'a, str>) ensures r@ == v@ { v.clone() }
pub broadcast axiom fn to_string_string(c: &String, s: String)
    ensures #[trigger] to_string_from_display_ensures::<String>(c, s) ==> s@ == c@;
}
