// Lookup in and iteration over pairs
use vstd::std_specs::iter::IteratorSpec;
use crate::iter::{KeyValuePairsIterator, KeyValuePairsIntoIterator};
verus! {
/// the entries of a collection of pairs: in order, or in the fixed order of the hash map
pub open spec fn kv_pairs<K: std::hash::Hash + Eq, V>(m: KeyValuePairs<K, V>) -> Seq<(K, V)> {
    match m { KeyValuePairs::Merged(h) => hm_pairs(h), KeyValuePairs::Unmerged(x) => x@ }
}
/// `r` hands out references to exactly `s`, in order
pub open spec fn refs_of<K, V>(r: Seq<(&K, &V)>, s: Seq<(K, V)>) -> bool {
    r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] r[i]).0 == s[i].0 && *r[i].1 == s[i].1
}
pub assume_specification<'a, K, V> [<std::collections::hash_map::Iter<'a, K, V> as std::iter::Iterator>::size_hint] (i: &std::collections::hash_map::Iter<'a, K, V>) -> (r: (usize, std::option::Option<usize>))
    ensures r.0 == i.remaining().len(), r.1 == Some(r.0);
pub assume_specification<'a, T> [<std::slice::Iter<'a, T> as std::iter::Iterator>::size_hint] (i: &std::slice::Iter<'a, T>) -> (r: (usize, std::option::Option<usize>))
    ensures r.0 == i.remaining().len(), r.1 == Some(r.0);
pub assume_specification<T, A: std::alloc::Allocator> [<std::vec::IntoIter<T, A> as std::iter::Iterator>::size_hint] (i: &std::vec::IntoIter<T, A>) -> (r: (usize, std::option::Option<usize>))
    ensures r.0 == i.remaining().len(), r.1 == Some(r.0);
/// HashMap::iter
#[verifier::external_body]
pub fn hm_std_iter<'a, K, V, S>(m: &'a HashMap<K, V, S>) -> (r: std::collections::hash_map::Iter<'a, K, V>)
    ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some, refs_of(r.remaining(), hm_pairs(*m))
{ m.iter() }
/// HashMap::get, by what keys compare
#[verifier::external_body]
pub fn hm_get<'a, K: std::hash::Hash + Eq + std::borrow::Borrow<Q>, V, S: std::hash::BuildHasher, Q: ?Sized + std::hash::Hash + Eq>(m: &'a HashMap<K, V, S>, k: &Q) -> (r: Option<&'a V>)
    ensures match r { Some(v) => hm_map(*m).contains_key(key_id(k)) && *v == hm_map(*m)[key_id(k)].1, None => !hm_map(*m).contains_key(key_id(k)) }
{ m.get(k) }
/// equality of a key looked for and the borrowed form of a key held
#[verifier::external_body]
pub fn key_eq<K: std::borrow::Borrow<Q>, Q: ?Sized + Eq>(q: &Q, k: &K) -> (r: bool) ensures r == (key_id(q) == key_id(k))
{ q.eq(k.borrow()) }
/// the places at which a key occurs
pub open spec fn places<K, V>(s: Seq<(K, V)>, id: KeyV) -> Seq<int> { places_to(s, id, s.len() as int) }
pub open spec fn places_to<K, V>(s: Seq<(K, V)>, id: KeyV, n: int) -> Seq<int>
    decreases n
{ if n <= 0 { Seq::empty() } else if key_id(&s[n - 1].0) == id { places_to(s, id, n - 1).push(n - 1) } else { places_to(s, id, n - 1) } }
pub proof fn places_props<K, V>(s: Seq<(K, V)>, id: KeyV, n: int)
    requires 0 <= n <= s.len()
    ensures forall|i: int| 0 <= i < places_to(s, id, n).len() ==> 0 <= #[trigger] places_to(s, id, n)[i] < n && key_id(&s[places_to(s, id, n)[i]].0) == id,
        forall|k: int| 0 <= k < n && key_id(&(#[trigger] s[k]).0) == id ==> exists|i: int| 0 <= i < places_to(s, id, n).len() && #[trigger] places_to(s, id, n)[i] == k,
    decreases n
{
    if n > 0 {
        places_props(s, id, n - 1);
        let a = places_to(s, id, n - 1);
        let b = places_to(s, id, n);
        if key_id(&s[n - 1].0) == id {
            assert(b == a.push(n - 1));
            assert forall|k: int| 0 <= k < n && key_id(&(#[trigger] s[k]).0) == id implies exists|i: int| 0 <= i < b.len() && #[trigger] b[i] == k by {
                if k == n - 1 { assert(b[a.len() as int] == k); } else { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == k; assert(b[i] == k); }
            }
        }
    }
}
/// the first entry of a key
pub open spec fn first_of<K, V>(s: Seq<(K, V)>, id: KeyV, i: int) -> bool {
    0 <= i < s.len() && key_id(&s[i].0) == id && forall|j: int| 0 <= j < i ==> key_id(&(#[trigger] s[j]).0) != id
}
pub open spec fn absent<K, V>(s: Seq<(K, V)>, id: KeyV) -> bool { forall|j: int| 0 <= j < s.len() ==> key_id(&(#[trigger] s[j]).0) != id }
pub open spec fn none_yet<K, V>(r: Option<&(K, V)>, s: Seq<(K, V)>) -> bool { r is None }
pub open spec fn got_first<K, V>(r: Option<&(K, V)>, s: Seq<(K, V)>, id: KeyV) -> bool {
    match r { Some(p) => exists|i: int| #[trigger] first_of(s, id, i) && *p == s[i], None => absent(s, id) }
}
/// what the single lookup gives
pub open spec fn got_single<K: std::hash::Hash + Eq, V>(m: KeyValuePairs<K, V>, id: KeyV, r: Option<V>) -> bool {
    match m {
        KeyValuePairs::Merged(h) => r == (if hm_map(h).contains_key(id) { Some(hm_map(h)[id].1) } else { None::<V> }),
        KeyValuePairs::Unmerged(x) => match r { Some(v) => exists|i: int| #[trigger] first_of(x@, id, i) && v == x@[i].1, None => absent(x@, id) },
    }
}
pub open spec fn un_ref<V>(r: Option<&V>) -> Option<V> { match r { Some(v) => Some(*v), None => None } }
impl<'a, K: 'a, V: 'a> vstd::std_specs::iter::IteratorSpecImpl for KeyValuePairsIterator<'a, K, V> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { match *self { KeyValuePairsIterator::Merged(i) => IteratorSpec::obeys_prophetic_iter_laws(&i), KeyValuePairsIterator::Unmerged(i) => IteratorSpec::obeys_prophetic_iter_laws(&i) } }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<Self::Item> { match *self { KeyValuePairsIterator::Merged(i) => IteratorSpec::remaining(&i), KeyValuePairsIterator::Unmerged(i) => IteratorSpec::remaining(&i).map_values(|p: &'a (K, V)| (&p.0, &p.1)) } }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { match *self { KeyValuePairsIterator::Merged(i) => IteratorSpec::will_return_none(&i), KeyValuePairsIterator::Unmerged(i) => IteratorSpec::will_return_none(&i) } }
    open spec fn decrease(&self) -> Option<nat> { match *self { KeyValuePairsIterator::Merged(i) => IteratorSpec::decrease(&i), KeyValuePairsIterator::Unmerged(i) => IteratorSpec::decrease(&i) } }
    open spec fn peek(&self, k: int) -> Option<Self::Item> { match *self { KeyValuePairsIterator::Merged(i) => IteratorSpec::peek(&i, k), KeyValuePairsIterator::Unmerged(i) => match IteratorSpec::peek(&i, k) { Some(p) => Some((&p.0, &p.1)), None => None } } }
}
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct ExHmIntoIter<K, V, A: std::alloc::Allocator>(std::collections::hash_map::IntoIter<K, V, A>);
/// the entries a consuming hash map iterator has left to hand out
pub uninterp spec fn hmi_rest<K, V>(i: std::collections::hash_map::IntoIter<K, V>) -> Seq<(K, V)>;
#[verifier::external_body]
pub fn hm_std_into_iter<K, V, S>(m: HashMap<K, V, S>) -> (r: std::collections::hash_map::IntoIter<K, V>) ensures hmi_rest(r) == hm_pairs(m) { m.into_iter() }
#[verifier::external_body]
pub fn hmi_next<K, V>(i: &mut std::collections::hash_map::IntoIter<K, V>) -> (r: Option<(K, V)>)
    ensures match r { Some(x) => hmi_rest(*old(i)).len() > 0 && x == hmi_rest(*old(i))[0] && hmi_rest(*final(i)) == hmi_rest(*old(i)).drop_first(), None => hmi_rest(*old(i)).len() == 0 && *final(i) == *old(i) }
{ i.next() }
#[verifier::external_body]
pub fn hmi_size_hint<K, V>(i: &std::collections::hash_map::IntoIter<K, V>) -> (r: (usize, Option<usize>)) ensures r.0 == hmi_rest(*i).len(), r.1 == Some(r.0) { i.size_hint() }
impl<K, V> vstd::std_specs::iter::IteratorSpecImpl for KeyValuePairsIntoIterator<K, V> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { match *self { KeyValuePairsIntoIterator::Merged(i) => true, KeyValuePairsIntoIterator::Unmerged(i) => IteratorSpec::obeys_prophetic_iter_laws(&i) } }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<Self::Item> { match *self { KeyValuePairsIntoIterator::Merged(i) => hmi_rest(i), KeyValuePairsIntoIterator::Unmerged(i) => IteratorSpec::remaining(&i) } }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { match *self { KeyValuePairsIntoIterator::Merged(i) => true, KeyValuePairsIntoIterator::Unmerged(i) => IteratorSpec::will_return_none(&i) } }
    open spec fn decrease(&self) -> Option<nat> { match *self { KeyValuePairsIntoIterator::Merged(i) => Some(hmi_rest(i).len()), KeyValuePairsIntoIterator::Unmerged(i) => IteratorSpec::decrease(&i) } }
    open spec fn peek(&self, k: int) -> Option<Self::Item> { match *self { KeyValuePairsIntoIterator::Merged(i) => None, KeyValuePairsIntoIterator::Unmerged(i) => IteratorSpec::peek(&i, k) } }
}
/// one step of an iterator: what the standard contract of `Iterator::next` says
#[verifier::prophetic]
pub open spec fn advances<I: Iterator>(a: I, b: I, r: Option<I::Item>) -> bool {
    &&& IteratorSpec::obeys_prophetic_iter_laws(&b) == IteratorSpec::obeys_prophetic_iter_laws(&a)
    &&& IteratorSpec::obeys_prophetic_iter_laws(&a) ==> {
        &&& IteratorSpec::will_return_none(&b) == IteratorSpec::will_return_none(&a)
        &&& IteratorSpec::decrease(&b) is Some == IteratorSpec::decrease(&a) is Some
        &&& if IteratorSpec::remaining(&a).len() > 0 { IteratorSpec::remaining(&b) =~= IteratorSpec::remaining(&a).drop_first() && r == Some(IteratorSpec::remaining(&a)[0]) } else { IteratorSpec::remaining(&b) =~= IteratorSpec::remaining(&a) && r is None && IteratorSpec::will_return_none(&b) }
        &&& IteratorSpec::remaining(&a).len() > 0 && IteratorSpec::decrease(&b) is Some ==> IteratorSpec::decrease(&b)->0 < IteratorSpec::decrease(&a)->0
    }
}
/// what the multi lookup gives
pub open spec fn many_to<K, V>(r: Seq<&V>, s: Seq<(K, V)>, id: KeyV, n: int) -> bool {
    r.len() == places_to(s, id, n).len() && forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]) == s[places_to(s, id, n)[i]].1
}
pub open spec fn got_all<K: std::hash::Hash + Eq, V>(m: KeyValuePairs<K, V>, id: KeyV, r: Option<OneOrMany<&V>>) -> bool {
    match m {
        KeyValuePairs::Merged(h) => match r { Some(OneOrMany::One(v)) => hm_map(h).contains_key(id) && *v == hm_map(h)[id].1, Some(OneOrMany::Many(_)) => false, None => !hm_map(h).contains_key(id) },
        KeyValuePairs::Unmerged(x) => match r { Some(OneOrMany::Many(v)) => v@.len() > 0 && many_to(v@, x@, id, x@.len() as int), Some(OneOrMany::One(_)) => false, None => absent(x@, id) },
    }
}
/// the items handed out by something that can be iterated over
pub uninterp spec fn items<T: IntoIterator>(t: T) -> Seq<T::Item>;
pub broadcast axiom fn items_vec<T>(t: Vec<T>) ensures #[trigger] items::<Vec<T>>(t) == t@;
/// (justified by the contracts on into_iter and next of KeyValuePairs)
pub broadcast axiom fn items_pairs<K: std::hash::Hash + Eq, V>(t: KeyValuePairs<K, V>) ensures #[trigger] items::<KeyValuePairs<K, V>>(t) == kv_pairs(t);
#[verifier::external_body]
pub fn vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, i: I) ensures final(v)@ == old(v)@ + items(i) { v.extend(i) }
/// entering entries one after the other
pub open spec fn hm_enter<K, V>(m: Map<KeyV, (K, V)>, s: Seq<(K, V)>) -> Map<KeyV, (K, V)>
    decreases s.len()
{ if s.len() == 0 { m } else { madd(hm_enter(m, s.drop_last()), key_id(&s.last().0), s.last()) } }
#[verifier::external_body]
pub fn hm_extend<K: std::hash::Hash + Eq, V, S: std::hash::BuildHasher, I: IntoIterator<Item = (K, V)>>(m: &mut HashMap<K, V, S>, i: I) ensures hm_map(*final(m)) == hm_enter(hm_map(*old(m)), items(i)) { m.extend(i) }
/// a hasher after it was fed a text
pub uninterp spec fn fed<H>(h: H, s: Seq<char>) -> H;
#[verifier::external_body]
pub fn str_hash<H: std::hash::Hasher>(s: &str, h: &mut H) ensures *final(h) == fed(*old(h), s@) { std::hash::Hash::hash(s, h) }
pub open spec fn text_str(s: &str) -> Seq<char> { s@ }
}
use crate::iter::{OneOrManyIterator, OneOrManyIntoIterator};
verus! {
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExOnce<T>(std::iter::Once<T>);
/// the items an iterator over one item has left to hand out
pub uninterp spec fn once_rest<T>(i: std::iter::Once<T>) -> Seq<T>;
#[verifier::external_body]
pub fn once_of<T>(t: T) -> (r: std::iter::Once<T>) ensures once_rest(r) == seq![t] { std::iter::once(t) }
#[verifier::external_body]
pub fn once_next<T>(i: &mut std::iter::Once<T>) -> (r: Option<T>)
    ensures match r { Some(x) => once_rest(*old(i)).len() > 0 && x == once_rest(*old(i))[0] && once_rest(*final(i)) == once_rest(*old(i)).drop_first(), None => once_rest(*old(i)).len() == 0 && *final(i) == *old(i) }
{ i.next() }
#[verifier::external_body]
pub fn once_size_hint<T>(i: &std::iter::Once<T>) -> (r: (usize, Option<usize>)) ensures r.0 == once_rest(*i).len(), r.1 == Some(r.0) { i.size_hint() }
impl<'a, T> vstd::std_specs::iter::IteratorSpecImpl for OneOrManyIterator<'a, T> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { match *self { OneOrManyIterator::One(i) => true, OneOrManyIterator::Many(i) => IteratorSpec::obeys_prophetic_iter_laws(&i) } }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<Self::Item> { match *self { OneOrManyIterator::One(i) => once_rest(i), OneOrManyIterator::Many(i) => IteratorSpec::remaining(&i) } }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { match *self { OneOrManyIterator::One(i) => true, OneOrManyIterator::Many(i) => IteratorSpec::will_return_none(&i) } }
    open spec fn decrease(&self) -> Option<nat> { match *self { OneOrManyIterator::One(i) => Some(once_rest(i).len()), OneOrManyIterator::Many(i) => IteratorSpec::decrease(&i) } }
    open spec fn peek(&self, k: int) -> Option<Self::Item> { match *self { OneOrManyIterator::One(i) => None, OneOrManyIterator::Many(i) => IteratorSpec::peek(&i, k) } }
}
impl<T> vstd::std_specs::iter::IteratorSpecImpl for OneOrManyIntoIterator<T> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { match *self { OneOrManyIntoIterator::One(i) => true, OneOrManyIntoIterator::Many(i) => IteratorSpec::obeys_prophetic_iter_laws(&i) } }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<Self::Item> { match *self { OneOrManyIntoIterator::One(i) => once_rest(i), OneOrManyIntoIterator::Many(i) => IteratorSpec::remaining(&i) } }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { match *self { OneOrManyIntoIterator::One(i) => true, OneOrManyIntoIterator::Many(i) => IteratorSpec::will_return_none(&i) } }
    open spec fn decrease(&self) -> Option<nat> { match *self { OneOrManyIntoIterator::One(i) => Some(once_rest(i).len()), OneOrManyIntoIterator::Many(i) => IteratorSpec::decrease(&i) } }
    open spec fn peek(&self, k: int) -> Option<Self::Item> { match *self { OneOrManyIntoIterator::One(i) => None, OneOrManyIntoIterator::Many(i) => IteratorSpec::peek(&i, k) } }
}
pub open spec fn one_or_many<T>(m: OneOrMany<T>) -> Seq<T> { match m { OneOrMany::One(x) => seq![x], OneOrMany::Many(x) => x@ } }
/// `r` hands out references to exactly `s`, in order
pub open spec fn refs_to<T>(r: Seq<&T>, s: Seq<T>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] r[i]) == s[i] }
/// every entry of merged pairs is found under its own key
pub proof fn k01_found<K: std::hash::Hash + Eq, V>(h: HashMap<K, V>, i: int)
    requires 0 <= i < hm_pairs(h).len()
    ensures got_single(KeyValuePairs::Merged(h), key_id(&hm_pairs(h)[i].0), Some(hm_pairs(h)[i].1))
{ broadcast use {hm_keys, hm_order, hm_distinct}; let _ = hm_pairs(h)[i]; }
/// of unmerged pairs the single lookup is the first value the multi lookup gives
pub proof fn k01_first<K, V>(s: Seq<(K, V)>, id: KeyV, i: int)
    requires first_of(s, id, i)
    ensures places(s, id).len() > 0, places(s, id)[0] == i
{
    places_props(s, id, s.len() as int);
    places_sorted(s, id, s.len() as int);
    let p = places(s, id);
    let j = choose|j: int| 0 <= j < p.len() && #[trigger] p[j] == i;
    if j != 0 { assert(p[0] < p[j]); assert(key_id(&s[p[0]].0) == id); }
}
pub proof fn places_sorted<K, V>(s: Seq<(K, V)>, id: KeyV, n: int)
    requires 0 <= n <= s.len()
    ensures forall|i: int, j: int| 0 <= i < j < places_to(s, id, n).len() ==> #[trigger] places_to(s, id, n)[i] < #[trigger] places_to(s, id, n)[j]
    decreases n
{ if n > 0 { places_sorted(s, id, n - 1); places_props(s, id, n - 1); } }
}
// iterating over the keys or the values
use crate::iter::{KeyIterator, ValueIterator};
verus! {
/// stands for a boxed `dyn Iterator`: an iterator of which only the items still to come are known
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct DynIter<'a, T: 'a>(std::vec::IntoIter<T>, std::marker::PhantomData<&'a T>);
/// the items it has left to hand out
pub uninterp spec fn dyn_rest<T>(i: DynIter<T>) -> Seq<T>;
/// a list of items, boxed as an iterator
#[verifier::external_body]
pub fn dyn_list<'a, T: 'a>(v: Vec<T>) -> (r: DynIter<'a, T>) ensures dyn_rest(r) == v@ { DynIter(v.into_iter(), std::marker::PhantomData) }
impl<'a, T: 'a> DynIter<'a, T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures match r { Some(x) => dyn_rest(*old(self)).len() > 0 && x == dyn_rest(*old(self))[0] && dyn_rest(*final(self)) == dyn_rest(*old(self)).drop_first(), None => dyn_rest(*old(self)).len() == 0 && *final(self) == *old(self) }
    { self.0.next() }
    #[verifier::external_body]
    pub fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r.0 == dyn_rest(*self).len(), r.1 == Some(r.0) { self.0.size_hint() }
}
/// `r` hands out references to exactly the first (second) parts of `s`, in order
pub open spec fn refs_fst<K, V>(r: Seq<&K>, s: Seq<(K, V)>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] r[i]) == s[i].0 }
pub open spec fn refs_snd<K, V>(r: Seq<&V>, s: Seq<(K, V)>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] r[i]) == s[i].1 }
pub open spec fn fst_upto<K, V>(r: Vec<&K>, s: Seq<(K, V)>, n: int) -> bool { r@.len() == n && forall|i: int| 0 <= i < n ==> *(#[trigger] r@[i]) == s[i].0 }
pub open spec fn snd_upto<K, V>(r: Vec<&V>, s: Seq<(K, V)>, n: int) -> bool { r@.len() == n && forall|i: int| 0 <= i < n ==> *(#[trigger] r@[i]) == s[i].1 }
/// HashMap::keys, HashMap::values (in the order of HashMap::iter)
#[verifier::external_body]
pub fn hm_std_keys<'a, K, V, S>(m: &'a HashMap<K, V, S>) -> (r: std::collections::hash_map::Keys<'a, K, V>)
    ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some, refs_fst(r.remaining(), hm_pairs(*m))
{ m.keys() }
#[verifier::external_body]
pub fn hm_std_values<'a, K, V, S>(m: &'a HashMap<K, V, S>) -> (r: std::collections::hash_map::Values<'a, K, V>)
    ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some, refs_snd(r.remaining(), hm_pairs(*m))
{ m.values() }
pub assume_specification<'a, K, V> [<std::collections::hash_map::Keys<'a, K, V> as std::iter::Iterator>::size_hint] (i: &std::collections::hash_map::Keys<'a, K, V>) -> (r: (usize, std::option::Option<usize>))
    ensures r.0 == i.remaining().len(), r.1 == Some(r.0);
pub assume_specification<'a, K, V> [<std::collections::hash_map::Values<'a, K, V> as std::iter::Iterator>::size_hint] (i: &std::collections::hash_map::Values<'a, K, V>) -> (r: (usize, std::option::Option<usize>))
    ensures r.0 == i.remaining().len(), r.1 == Some(r.0);
impl<'a, K: 'a, V: 'a> vstd::std_specs::iter::IteratorSpecImpl for KeyIterator<'a, K, V> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { match *self { KeyIterator::Merged(i) => IteratorSpec::obeys_prophetic_iter_laws(&i), KeyIterator::Unmerged(i) => true } }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<Self::Item> { match *self { KeyIterator::Merged(i) => IteratorSpec::remaining(&i), KeyIterator::Unmerged(i) => dyn_rest(i) } }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { match *self { KeyIterator::Merged(i) => IteratorSpec::will_return_none(&i), KeyIterator::Unmerged(i) => true } }
    open spec fn decrease(&self) -> Option<nat> { match *self { KeyIterator::Merged(i) => IteratorSpec::decrease(&i), KeyIterator::Unmerged(i) => Some(dyn_rest(i).len()) } }
    open spec fn peek(&self, k: int) -> Option<Self::Item> { match *self { KeyIterator::Merged(i) => IteratorSpec::peek(&i, k), KeyIterator::Unmerged(i) => None } }
}
impl<'a, K: 'a, V: 'a> vstd::std_specs::iter::IteratorSpecImpl for ValueIterator<'a, K, V> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { match *self { ValueIterator::Merged(i) => IteratorSpec::obeys_prophetic_iter_laws(&i), ValueIterator::Unmerged(i) => true } }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<Self::Item> { match *self { ValueIterator::Merged(i) => IteratorSpec::remaining(&i), ValueIterator::Unmerged(i) => dyn_rest(i) } }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { match *self { ValueIterator::Merged(i) => IteratorSpec::will_return_none(&i), ValueIterator::Unmerged(i) => true } }
    open spec fn decrease(&self) -> Option<nat> { match *self { ValueIterator::Merged(i) => IteratorSpec::decrease(&i), ValueIterator::Unmerged(i) => Some(dyn_rest(i).len()) } }
    open spec fn peek(&self, k: int) -> Option<Self::Item> { match *self { ValueIterator::Merged(i) => IteratorSpec::peek(&i, k), ValueIterator::Unmerged(i) => None } }
}
}
// borrowed keys of a block
verus! {
pub open spec fn vrefstr<'b>() -> spec_fn(&'b str) -> Seq<char> { |c: &'b str| c@ }
pub broadcast axiom fn key_id_strs<'b>(k: &Vec<&'b str>) ensures #[trigger] key_id::<Vec<&'b str>>(k) == KeyV::Texts(k@.map_values(vrefstr()));
pub open spec fn texts_upto(r: Vec<&str>, s: Seq<String>, n: int) -> bool { r@.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@ == s[i]@ }
pub open spec fn pairs_upto<V>(r: Vec<(Vec<&str>, &V)>, s: Seq<(Vec<String>, V)>, n: int) -> bool { r@.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]).0@.map_values(vrefstr()) == s[i].0@.map_values(vstring()) && *r@[i].1 == s[i].1 }
/// the same entries, under the same texts, in the same form and order
pub open spec fn keys_borrowed<V>(r: KeyValuePairs<Vec<&str>, &V>, m: KeyValuePairs<Vec<String>, V>) -> bool {
    match m {
        KeyValuePairs::Unmerged(x) => r is Unmerged && pairs_upto(r->Unmerged_0, x@, x@.len() as int),
        KeyValuePairs::Merged(h) => r is Merged && hm_map(r->Merged_0).dom() == hm_map(h).dom() && forall|k: KeyV| hm_map(h).contains_key(k) ==> *(#[trigger] hm_map(r->Merged_0)[k]).1 == hm_map(h)[k].1,
    }
}
pub open spec fn entered_refs<K2, K, V>(m: Map<KeyV, (K2, &V)>, h: HashMap<K, V>, n: int) -> bool {
    &&& forall|i: int| #![trigger hm_pairs(h)[i]] 0 <= i < n ==> m.contains_key(key_id(&hm_pairs(h)[i].0)) && *m[key_id(&hm_pairs(h)[i].0)].1 == hm_pairs(h)[i].1
    &&& forall|k: KeyV| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < n && key_id(&(#[trigger] hm_pairs(h)[i]).0) == k
}
pub proof fn entered_refs_step<K2, K, V>(m: Map<KeyV, (K2, &V)>, h: HashMap<K, V>, n: int, p: (K2, &V))
    requires entered_refs(m, h, n), 0 <= n < hm_pairs(h).len(), *p.1 == hm_pairs(h)[n].1
    ensures entered_refs(m.insert(key_id(&hm_pairs(h)[n].0), p), h, n + 1)
{
    broadcast use hm_distinct;
    let k = key_id(&hm_pairs(h)[n].0);
    let q = m.insert(k, p);
    assert forall|i: int| #![trigger hm_pairs(h)[i]] 0 <= i < n + 1 implies q.contains_key(key_id(&hm_pairs(h)[i].0)) && *q[key_id(&hm_pairs(h)[i].0)].1 == hm_pairs(h)[i].1 by { if i < n { let a = hm_pairs(h)[i]; let b = hm_pairs(h)[n]; assert(key_id(&a.0) != key_id(&b.0)); } }
    assert forall|j: KeyV| #[trigger] q.contains_key(j) implies exists|i: int| 0 <= i < n + 1 && key_id(&(#[trigger] hm_pairs(h)[i]).0) == j by { if j == k { let b = hm_pairs(h)[n]; } else { assert(m.contains_key(j)); let i = choose|i: int| 0 <= i < n && key_id(&(#[trigger] hm_pairs(h)[i]).0) == j; } }
}
pub proof fn entered_refs_all<K2, K, V>(m: Map<KeyV, (K2, &V)>, h: HashMap<K, V>)
    requires entered_refs(m, h, hm_pairs(h).len() as int)
    ensures m.dom() == hm_map(h).dom(), forall|k: KeyV| hm_map(h).contains_key(k) ==> *(#[trigger] m[k]).1 == hm_map(h)[k].1
{
    broadcast use hm_keys, hm_order, hm_distinct;
    let s = hm_pairs(h);
    let b = hm_map(h);
    assert forall|k: KeyV| b.contains_key(k) implies m.contains_key(k) && *(#[trigger] m[k]).1 == b[k].1 by { let e = b[k]; let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == e; assert(key_id(&s[i].0) == k); }
    assert(m.dom() =~= b.dom()) by { assert forall|k: KeyV| m.dom().contains(k) <==> b.dom().contains(k) by { if m.contains_key(k) { let i = choose|i: int| 0 <= i < s.len() && key_id(&(#[trigger] s[i]).0) == k; assert(b.contains_key(key_id(&s[i].0))); } if b.contains_key(k) { let x = m[k]; } } }
}
}
