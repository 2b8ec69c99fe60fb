// lookup in and iteration over pairs (generic code, in place)
@type iter::KeyValuePairsIterator
@type iter::KeyValuePairsIntoIterator verifier::reject_recursive_types(K)
@type iter::KeyValuePairsIntoIterator verifier::reject_recursive_types(V)

@fn KeyValuePairs<K,V>::iter -> r
@call iter#0 = crate::vxp::hm_std_iter
@spec
ensures vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r), vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some, refs_of(vstd::std_specs::iter::IteratorSpec::remaining(&r), kv_pairs(*self))

@fn KeyValuePairs<K,V>::get_single -> r
@call get = crate::vxp::hm_get
@call eq = crate::vxp::key_eq
@call borrow = crate::vxp::vx_same
@unfold map option
@spec
ensures got_single(*self, key_id(key), un_ref(r))
@loop 0
invariant_except_break none_yet(vx_found, vec@), forall|j: int| 0 <= j < vx_it0.index@ ==> key_id(&(#[trigger] vec@[j]).0) != key_id(key),
invariant *self == KeyValuePairs::Unmerged(*vec), vx_it0.seq().len() == vec@.len(), forall|k: int| 0 <= k < vec@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vec@[k],
ensures got_first(vx_found, vec@, key_id(key)),
@ghost loop 0 start
proof { let i = vx_it0.index@ as int; if key_id(&vec@[i].0) == key_id(key) { assert(first_of(vec@, key_id(key), i)); } }

@fn iter::<KeyValuePairsIterator<K,V> as Iterator>::next -> r
@trusted

@fn iter::pairs_next -> r
@lift iter::<KeyValuePairsIterator<K,V> as Iterator>::next <'x, K: 'x, V: 'x>(vx_self: &mut KeyValuePairsIterator<'x, K, V>) -> Option<(&'x K, &'x V)>
@spec
ensures advances(*old(vx_self), *final(vx_self), r)

@fn iter::<KeyValuePairsIterator<K,V> as Iterator>::size_hint -> r
@spec
ensures r.0 == vstd::std_specs::iter::IteratorSpec::remaining(self).len(), r.1 == Some(r.0)

@fn iter::<KeyValuePairs<K,V> as std::iter::IntoIterator>::into_iter -> r
@call into_iter#0 = crate::vxp::hm_std_into_iter
@spec
ensures vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r), vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some, vstd::std_specs::iter::IteratorSpec::remaining(&r) == kv_pairs(self)

@fn iter::<&KeyValuePairs<K,V> as std::iter::IntoIterator>::into_iter -> r
@spec
ensures vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r), vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some, refs_of(vstd::std_specs::iter::IteratorSpec::remaining(&r), kv_pairs(*self))

@fn iter::<KeyValuePairsIntoIterator<K,V> as Iterator>::next -> r
@trusted

@fn iter::pairs_into_next -> r
@lift iter::<KeyValuePairsIntoIterator<K,V> as Iterator>::next <K, V>(vx_self: &mut KeyValuePairsIntoIterator<K, V>) -> Option<(K, V)>
@call next#0 = crate::vxp::hmi_next
@spec
ensures advances(*old(vx_self), *final(vx_self), r)

@fn iter::<KeyValuePairsIntoIterator<K,V> as Iterator>::size_hint -> r
@call size_hint#0 = crate::vxp::hmi_size_hint
@spec
ensures r.0 == vstd::std_specs::iter::IteratorSpec::remaining(self).len(), r.1 == Some(r.0)

@fn KeyValuePairs<K,V>::get -> r
@call get = crate::vxp::hm_get
@call eq = crate::vxp::key_eq
@call borrow = crate::vxp::vx_same
@unfold map option
@unfold collect vec
@spec
ensures got_all(*self, key_id(key), r)
@loop 0
invariant *self == KeyValuePairs::Unmerged(*vec), vx_it0.seq().len() == vec@.len(), forall|k: int| 0 <= k < vec@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vec@[k], many_to(vx_c@, vec@, key_id(key), vx_it0.index@ as int),
@ghost loop 0 start
proof { places_props(vec@, key_id(key), vx_it0.index@ as int); }
@ghost loop 0 after
proof { places_props(vec@, key_id(key), vec@.len() as int); }

@fn iter::pairs_index -> r
@lift iter::<KeyValuePairs<K,V> as std::ops::Index<&Q>>::index <'x, K: Hash + Eq + std::borrow::Borrow<Q>, V, Q: Eq + Hash + ?Sized>(vx_self: &'x KeyValuePairs<K, V>, key: &Q) -> &'x V
@spec
requires !got_single(*vx_self, key_id(key), None)
ensures got_single(*vx_self, key_id(key), Some(*r))

@fn iter::<KeyValuePairs<K,V> as std::iter::Extend<(K,V)>>::extend
@call extend#0 = crate::vxp::vec_extend
@call extend#1 = crate::vxp::hm_extend
@spec
ensures match *old(self) {
    KeyValuePairs::Unmerged(x) => *final(self) is Unmerged && final(self)->Unmerged_0@ == x@ + items(iter),
    KeyValuePairs::Merged(h) => *final(self) is Merged && hm_map(final(self)->Merged_0) == hm_enter(hm_map(h), items(iter)) }

@fn KeyValuePairs<K,V>::unwrap_merged -> r
@spec
requires self is Merged
ensures self == KeyValuePairs::<K, V>::Merged(r)
@fn KeyValuePairs<K,V>::unwrap_unmerged -> r
requires self is Unmerged
ensures self == KeyValuePairs::<K, V>::Unmerged(r)

@fn OneOrMany<T>::len -> r
@spec
ensures r == match *self { OneOrMany::One(_) => 1, OneOrMany::Many(x) => x@.len() }
@fn OneOrMany<T>::is_empty -> r
ensures r == match *self { OneOrMany::One(_) => false, OneOrMany::Many(x) => x@.len() == 0 }
@fn OneOrMany<T>::is_one -> r
ensures r == *self is One
@fn OneOrMany<T>::is_many -> r
ensures r == *self is Many
@fn OneOrMany<T>::unwrap_one -> r
requires self is One
ensures self == OneOrMany::<T>::One(r)
@fn OneOrMany<T>::unwrap_many -> r
requires self is Many
ensures self == OneOrMany::<T>::Many(r)

@fn parser::literals::key::<Key as Deref>::deref -> r
@call deref#0 = crate::vxp::cow_str
@call deref#1 = crate::vxp::cow_str
@spec
ensures r@ == ktext(*self)
@fn parser::literals::key::<Key as Borrow<str>>::borrow -> r
ensures text_str(r) == ktext(*self)
@fn parser::literals::key::key_equal -> r
@lift parser::literals::key::<Key as PartialEq>::eq <'x, 'y>(vx_self: &Key<'x>, other: &Key<'y>) -> bool
@spec
ensures r == (ktext(*vx_self) == ktext(*other))
@fn parser::literals::key::key_hash
@lift parser::literals::key::<Key as Hash>::hash <'x, H: Hasher>(vx_self: &Key<'x>, state: &mut H)
@call hash = crate::vxp::str_hash
@spec
ensures *final(state) == fed(*old(state), ktext(*vx_self))
@fn parser::literals::key::Key::unwrap -> r
@spec
ensures r@ == ktext(self)
@fn parser::literals::key::Key::new_identifier -> r
ensures kview(r) == KeyLitV::Ident(s@)
@fn parser::literals::key::Key::new_identifier_owned -> r
ensures kview(r) == KeyLitV::Ident(s@)
@fn parser::literals::key::Key::new_string -> r
ensures kview(r) == KeyLitV::Str(s@)
@fn parser::literals::key::Key::new_string_owned -> r
ensures kview(r) == KeyLitV::Str(s@)

@type iter::OneOrManyIterator verifier::reject_recursive_types(T)
@type iter::OneOrManyIntoIterator verifier::reject_recursive_types(T)
@fn iter::<OneOrManyIterator<T> as Iterator>::next -> r
@trusted

@fn iter::many_next -> r
@lift iter::<OneOrManyIterator<T> as Iterator>::next <'x, T>(vx_self: &mut OneOrManyIterator<'x, T>) -> Option<&'x T>
@call next#0 = crate::vxp::once_next
@spec
ensures advances(*old(vx_self), *final(vx_self), r)

@fn iter::<OneOrManyIterator<T> as Iterator>::size_hint -> r
@call size_hint#0 = crate::vxp::once_size_hint
@spec
ensures r.0 == vstd::std_specs::iter::IteratorSpec::remaining(self).len(), r.1 == Some(r.0)

@fn iter::<OneOrManyIntoIterator<T> as Iterator>::next -> r
@trusted

@fn iter::many_into_next -> r
@lift iter::<OneOrManyIntoIterator<T> as Iterator>::next <T>(vx_self: &mut OneOrManyIntoIterator<T>) -> Option<T>
@call next#0 = crate::vxp::once_next
@spec
ensures advances(*old(vx_self), *final(vx_self), r)

@fn iter::<OneOrManyIntoIterator<T> as Iterator>::size_hint -> r
@call size_hint#0 = crate::vxp::once_size_hint
@spec
ensures r.0 == vstd::std_specs::iter::IteratorSpec::remaining(self).len(), r.1 == Some(r.0)

@fn OneOrMany<T>::iter -> r
@call once = crate::vxp::once_of
@spec
ensures vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r), refs_to(vstd::std_specs::iter::IteratorSpec::remaining(&r), one_or_many(*self))

@fn iter::<OneOrMany<T> as std::iter::IntoIterator>::into_iter -> r
@call once = crate::vxp::once_of
@spec
ensures vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r), vstd::std_specs::iter::IteratorSpec::remaining(&r) =~= one_or_many(self)

@fn iter::<&OneOrMany<T> as std::iter::IntoIterator>::into_iter -> r
@spec
ensures vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r), refs_to(vstd::std_specs::iter::IteratorSpec::remaining(&r), one_or_many(*self))

// keys and values
@type iter::KeyIterator dyn
@type iter::ValueIterator dyn
@fn KeyValuePairs<K,V>::keys -> r
@call keys = crate::vxp::hm_std_keys
@call new = crate::vxp::dyn_list
@unfold map vec
@spec
ensures vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r), vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some, refs_fst(vstd::std_specs::iter::IteratorSpec::remaining(&r), kv_pairs(*self))
@loop 0
invariant *self == KeyValuePairs::Unmerged(*vec), vx_it0.seq().len() == vec@.len(), forall|k: int| 0 <= k < vec@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vec@[k], fst_upto(vx_c, vec@, vx_it0.index@ as int),
@fn KeyValuePairs<K,V>::values -> r
@call values = crate::vxp::hm_std_values
@call new = crate::vxp::dyn_list
@unfold map vec
@spec
ensures vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r), vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some, refs_snd(vstd::std_specs::iter::IteratorSpec::remaining(&r), kv_pairs(*self))
@loop 0
invariant *self == KeyValuePairs::Unmerged(*vec), vx_it0.seq().len() == vec@.len(), forall|k: int| 0 <= k < vec@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vec@[k], snd_upto(vx_c, vec@, vx_it0.index@ as int),
@fn iter::<KeyIterator<K,V> as Iterator>::next -> r
@trusted
@fn iter::keys_next -> r
@lift iter::<KeyIterator<K,V> as Iterator>::next <'x, K: 'x, V: 'x>(vx_self: &mut KeyIterator<'x, K, V>) -> Option<&'x K>
@spec
ensures advances(*old(vx_self), *final(vx_self), r)
@fn iter::<KeyIterator<K,V> as Iterator>::size_hint -> r
@spec
ensures r.0 == vstd::std_specs::iter::IteratorSpec::remaining(self).len(), r.1 == Some(r.0)
@fn iter::<ValueIterator<K,V> as Iterator>::next -> r
@trusted
@fn iter::values_next -> r
@lift iter::<ValueIterator<K,V> as Iterator>::next <'x, K: 'x, V: 'x>(vx_self: &mut ValueIterator<'x, K, V>) -> Option<&'x V>
@spec
ensures advances(*old(vx_self), *final(vx_self), r)
@fn iter::<ValueIterator<K,V> as Iterator>::size_hint -> r
@spec
ensures r.0 == vstd::std_specs::iter::IteratorSpec::remaining(self).len(), r.1 == Some(r.0)

// a block's keys borrowed as slices of text
@fn value::Block::borrow_keys -> r
@broadcast key_id_strs, key_id_labels
@call iter#0 = &crate::vxp::hm_iter
@unfold collect#0 hashmap
@unfold collect#1 vec
@unfold collect#2 vec
@unfold collect#3 vec
@spec
ensures keys_borrowed(r, *self)
@loop 0
invariant vx_it0.seq().len() == hm_pairs(*hashmap).len(), forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]).0 == hm_pairs(*hashmap)[k].0 && *vx_it0.seq()[k].1 == hm_pairs(*hashmap)[k].1,
  entered_refs(hm_map(vx_c), *hashmap, vx_it0.index@ as int),
@ghost loop 0 start
let ghost vx_before = hm_map(vx_c);
let ghost n = vx_it0.index@ as int;
proof { assert(*k == hm_pairs(*hashmap)[n].0); }
@ghost loop 0 end
proof { entered_refs_step(vx_before, *hashmap, n, hm_map(vx_c)[key_id(&hm_pairs(*hashmap)[n].0)]); }
@ghost loop 0 after
proof { entered_refs_all(hm_map(vx_c), *hashmap); }
@loop 1
invariant vx_it1.seq().len() == k@.len(), forall|i: int| 0 <= i < k@.len() ==> *(#[trigger] vx_it1.seq()[i]) == k@[i], texts_upto(vx_c, k@, vx_it1.index@ as int),
@ghost loop 1 after
proof { assert(vx_c@.map_values(vrefstr()) =~= k@.map_values(vstring())); }
@loop 2
invariant vx_it2.seq().len() == vec@.len(), forall|k: int| 0 <= k < vec@.len() ==> *(#[trigger] vx_it2.seq()[k]) == vec@[k], pairs_upto(vx_c, vec@, vx_it2.index@ as int),
@loop 3
invariant vx_it3.seq().len() == k@.len(), forall|i: int| 0 <= i < k@.len() ==> *(#[trigger] vx_it3.seq()[i]) == k@[i], texts_upto(vx_c, k@, vx_it3.index@ as int),
@ghost loop 3 after
proof { assert(vx_c@.map_values(vrefstr()) =~= k@.map_values(vstring())); }
