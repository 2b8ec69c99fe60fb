// scalar counts (ScalarLength); the number of scalars of a value is assumed to fit in usize
@fn value::value_len_scalar -> r
@lift value::<Value as ScalarLength>::len_scalar <'a>(vx_self: &Value<'a>) -> usize
@subst Self = Value<'a>
@broadcast group_nscal
@call len_scalar#0 = crate::vec_value_len_scalar
@call len_scalar#1 = crate::vec_map_len_scalar
@call len_scalar#2 = crate::block_len_scalar
@spec
requires nscal(*vx_self) <= usize::MAX
ensures r == nscal(*vx_self)
decreases vx_self, 1nat

@fn value_is_empty_scalar -> r
@lift ScalarLength::is_empty_scalar <'a>(vx_self: &Value<'a>) -> bool
@subst Self = Value<'a>
@call len_scalar = crate::value::value_len_scalar
@spec
requires nscal(*vx_self) <= usize::MAX
ensures r == (nscal(*vx_self) == 0)

@fn vec_value_len_scalar -> r
@lift <Vec<T> as ScalarLength>::len_scalar <'a>(vx_self: &Vec<Value<'a>>) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
decreases vx_self, 0nat
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }

@fn vec_map_len_scalar -> r
@lift <Vec<T> as ScalarLength>::len_scalar <'a>(vx_self: &Vec<KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>>) -> usize
@call len_scalar = crate::map_len_scalar
@spec
requires nsum(vx_self@.map_values(cmap())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cmap()))
decreases vx_self, 0nat
@loop 0
invariant nsum(vx_self@.map_values(cmap())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cmap()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cmap()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cmap()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cmap()).take(vx_self@.len() as int) =~= vx_self@.map_values(cmap())); }

@fn map_len_scalar -> r
@lift <KeyValuePairs<K,V> as ScalarLength>::len_scalar <'a>(vx_self: &KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>) -> usize
@broadcast group_nscal, hm_height_at
@call iter#1 = crate::vxp::hm_iter
@call len_scalar = crate::value::value_len_scalar
@spec
requires nscal_map(*vx_self) <= usize::MAX
ensures r == nscal_map(*vx_self)
decreases vx_self, 0nat
@loop 0
invariant decreases_to!(*vx_self => *vector), *vx_self == KeyValuePairs::Unmerged(*vector), nsum(vector@.map_values(csnd(cval()))) <= usize::MAX, vx_it0.seq().len() == vector@.len(), forall|k: int| 0 <= k < vector@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vector@[k],
  acc == nsum(vector@.map_values(csnd(cval())).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { assert(decreases_to!(*vector => vector@[vx_it0.index@ as int])); assert(decreases_to!(*vx_self => *vector)); assert(*v == vector@[vx_it0.index@ as int].1); nsum_take(vector@.map_values(csnd(cval())), vx_it0.index@ as int); nsum_mono(vector@.map_values(csnd(cval())), vx_it0.index@ + 1); }
@ghost loop 0 after
proof { assert(vector@.map_values(csnd(cval())).take(vector@.len() as int) =~= vector@.map_values(csnd(cval()))); }
@loop 1
invariant decreases_to!(*vx_self => *hashmap), *vx_self == KeyValuePairs::Merged(*hashmap), nsum(hm_pairs(*hashmap).map_values(csnd(cval()))) <= usize::MAX, vx_it1.seq().len() == hm_pairs(*hashmap).len(), forall|k: int| 0 <= k < hm_pairs(*hashmap).len() ==> *(#[trigger] vx_it1.seq()[k]).1 == hm_pairs(*hashmap)[k].1,
  acc == nsum(hm_pairs(*hashmap).map_values(csnd(cval())).take(vx_it1.index@ as int)),
@ghost loop 1 start
proof { let h = *hashmap; assert(decreases_to!(h => hm_pairs(h)[vx_it1.index@ as int])); assert(decreases_to!(*vx_self => h)); assert(*v == hm_pairs(h)[vx_it1.index@ as int].1); nsum_take(hm_pairs(*hashmap).map_values(csnd(cval())), vx_it1.index@ as int); nsum_mono(hm_pairs(*hashmap).map_values(csnd(cval())), vx_it1.index@ + 1); }
@ghost loop 1 after
proof { assert(hm_pairs(*hashmap).map_values(csnd(cval())).take(hm_pairs(*hashmap).len() as int) =~= hm_pairs(*hashmap).map_values(csnd(cval()))); }

@fn block_len_scalar -> r
@lift <KeyValuePairs<K,V> as ScalarLength>::len_scalar <'a>(vx_self: &KeyValuePairs<Vec<String>, KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>>) -> usize
@broadcast group_nscal, hm_height_at
@call iter#1 = crate::vxp::hm_iter
@call len_scalar = crate::map_len_scalar
@spec
requires nscal_block(*vx_self) <= usize::MAX
ensures r == nscal_block(*vx_self)
decreases vx_self, 0nat
@loop 0
invariant decreases_to!(*vx_self => *vector), *vx_self == KeyValuePairs::Unmerged(*vector), nsum(vector@.map_values(csnd(cmap()))) <= usize::MAX, vx_it0.seq().len() == vector@.len(), forall|k: int| 0 <= k < vector@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vector@[k],
  acc == nsum(vector@.map_values(csnd(cmap())).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { assert(decreases_to!(*vector => vector@[vx_it0.index@ as int])); assert(decreases_to!(*vx_self => *vector)); assert(*v == vector@[vx_it0.index@ as int].1); nsum_take(vector@.map_values(csnd(cmap())), vx_it0.index@ as int); nsum_mono(vector@.map_values(csnd(cmap())), vx_it0.index@ + 1); }
@ghost loop 0 after
proof { assert(vector@.map_values(csnd(cmap())).take(vector@.len() as int) =~= vector@.map_values(csnd(cmap()))); }
@loop 1
invariant decreases_to!(*vx_self => *hashmap), *vx_self == KeyValuePairs::Merged(*hashmap), nsum(hm_pairs(*hashmap).map_values(csnd(cmap()))) <= usize::MAX, vx_it1.seq().len() == hm_pairs(*hashmap).len(), forall|k: int| 0 <= k < hm_pairs(*hashmap).len() ==> *(#[trigger] vx_it1.seq()[k]).1 == hm_pairs(*hashmap)[k].1,
  acc == nsum(hm_pairs(*hashmap).map_values(csnd(cmap())).take(vx_it1.index@ as int)),
@ghost loop 1 start
proof { let h = *hashmap; assert(decreases_to!(h => hm_pairs(h)[vx_it1.index@ as int])); assert(decreases_to!(*vx_self => h)); assert(*v == hm_pairs(h)[vx_it1.index@ as int].1); nsum_take(hm_pairs(*hashmap).map_values(csnd(cmap())), vx_it1.index@ as int); nsum_mono(hm_pairs(*hashmap).map_values(csnd(cmap())), vx_it1.index@ + 1); }
@ghost loop 1 after
proof { assert(hm_pairs(*hashmap).map_values(csnd(cmap())).take(hm_pairs(*hashmap).len() as int) =~= hm_pairs(*hashmap).map_values(csnd(cmap()))); }

@fn hashmap_len_scalar -> r
@lift <HashMap<K,V,S> as ScalarLength>::len_scalar <'a>(vx_self: &HashMap<crate::parser::literals::key::Key<'a>, Value<'a>>) -> usize
@broadcast group_nscal
@call iter = crate::vxp::hm_iter
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(hm_pairs(*vx_self).map_values(csnd(cval()))) <= usize::MAX
ensures r == nsum(hm_pairs(*vx_self).map_values(csnd(cval())))
@loop 0
invariant nsum(hm_pairs(*vx_self).map_values(csnd(cval()))) <= usize::MAX, vx_it0.seq().len() == hm_pairs(*vx_self).len(), forall|k: int| 0 <= k < hm_pairs(*vx_self).len() ==> *(#[trigger] vx_it0.seq()[k]).1 == hm_pairs(*vx_self)[k].1,
  acc == nsum(hm_pairs(*vx_self).map_values(csnd(cval())).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(hm_pairs(*vx_self).map_values(csnd(cval())), vx_it0.index@ as int); nsum_mono(hm_pairs(*vx_self).map_values(csnd(cval())), vx_it0.index@ + 1); }
@ghost end
proof { assert(hm_pairs(*vx_self).map_values(csnd(cval())).take(hm_pairs(*vx_self).len() as int) =~= hm_pairs(*vx_self).map_values(csnd(cval()))); }

@fn value_ref_len_scalar -> r
@lift <&T as ScalarLength>::len_scalar <'b, 'a>(vx_self: &'b &Value<'a>) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nscal(**vx_self) <= usize::MAX
ensures r == nscal(**vx_self)

@fn value::Value::len -> r
@spec
ensures r == match *self { Value::Null => 0, Value::List(x) => x@.len(), Value::Object(x) => x@.len(), Value::Block(KeyValuePairs::Unmerged(x)) => x@.len(), Value::Block(KeyValuePairs::Merged(h)) => hm_pairs(h).len(), _ => 1 }
@fn value::Value::is_empty -> r
ensures r == match *self { Value::Null => true, Value::List(x) => x@.len() == 0, Value::Object(x) => x@.len() == 0, Value::Block(KeyValuePairs::Unmerged(x)) => x@.len() == 0, Value::Block(KeyValuePairs::Merged(h)) => hm_pairs(h).len() == 0, _ => false }

@fn KeyValuePairs<K,V>::len -> r
@call len#0 = crate::vxp::hm_len
@spec
ensures r == match *self { KeyValuePairs::Unmerged(x) => x@.len(), KeyValuePairs::Merged(h) => hm_pairs(h).len() }
@fn KeyValuePairs<K,V>::is_empty -> r
ensures r == match *self { KeyValuePairs::Unmerged(x) => x@.len() == 0, KeyValuePairs::Merged(h) => hm_pairs(h).len() == 0 }

// arrays of values
@fn array_0_len_scalar -> r
@lift <[T;0] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 0]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_1_len_scalar -> r
@lift <[T;1] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 1]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_2_len_scalar -> r
@lift <[T;2] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 2]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_3_len_scalar -> r
@lift <[T;3] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 3]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_4_len_scalar -> r
@lift <[T;4] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 4]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_5_len_scalar -> r
@lift <[T;5] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 5]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_6_len_scalar -> r
@lift <[T;6] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 6]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_7_len_scalar -> r
@lift <[T;7] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 7]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_8_len_scalar -> r
@lift <[T;8] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 8]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_9_len_scalar -> r
@lift <[T;9] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 9]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_10_len_scalar -> r
@lift <[T;10] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 10]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_11_len_scalar -> r
@lift <[T;11] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 11]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_12_len_scalar -> r
@lift <[T;12] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 12]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_13_len_scalar -> r
@lift <[T;13] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 13]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_14_len_scalar -> r
@lift <[T;14] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 14]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_15_len_scalar -> r
@lift <[T;15] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 15]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_16_len_scalar -> r
@lift <[T;16] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 16]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_17_len_scalar -> r
@lift <[T;17] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 17]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_18_len_scalar -> r
@lift <[T;18] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 18]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_19_len_scalar -> r
@lift <[T;19] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 19]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_20_len_scalar -> r
@lift <[T;20] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 20]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_21_len_scalar -> r
@lift <[T;21] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 21]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_22_len_scalar -> r
@lift <[T;22] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 22]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_23_len_scalar -> r
@lift <[T;23] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 23]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_24_len_scalar -> r
@lift <[T;24] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 24]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_25_len_scalar -> r
@lift <[T;25] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 25]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_26_len_scalar -> r
@lift <[T;26] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 26]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_27_len_scalar -> r
@lift <[T;27] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 27]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_28_len_scalar -> r
@lift <[T;28] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 28]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_29_len_scalar -> r
@lift <[T;29] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 29]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_30_len_scalar -> r
@lift <[T;30] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 30]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_31_len_scalar -> r
@lift <[T;31] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 31]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
@fn array_32_len_scalar -> r
@lift <[T;32] as ScalarLength>::len_scalar <'a>(vx_self: &[Value<'a>; 32]) -> usize
@call len_scalar = crate::value::value_len_scalar
@spec
requires nsum(vx_self@.map_values(cval())) <= usize::MAX
ensures r == nsum(vx_self@.map_values(cval()))
@loop 0
invariant nsum(vx_self@.map_values(cval())) <= usize::MAX, vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  acc == nsum(vx_self@.map_values(cval()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(vx_self@.map_values(cval()), vx_it0.index@ as int); nsum_mono(vx_self@.map_values(cval()), vx_it0.index@ + 1); }
@ghost end
proof { assert(vx_self@.map_values(cval()).take(vx_self@.len() as int) =~= vx_self@.map_values(cval())); }
