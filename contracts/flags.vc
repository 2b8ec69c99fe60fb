// merge flags (Mergeable) and unmerging

@fn value::value_is_merged -> r
@lift value::<Value as crate::Mergeable>::is_merged <'a>(vx_self: &Value<'a>) -> bool
@subst Self = Value<'a>
@call is_merged#0 = crate::vec_value_is_merged
@call is_merged#1 = crate::vec_map_is_merged
@call is_merged#2 = crate::block_is_merged
@spec
ensures r == all_m(*vx_self)
decreases vx_self, 1nat

@fn vec_value_is_merged -> r
@lift <Vec<T> as Mergeable>::is_merged <'a>(vx_self: &Vec<Value<'a>>) -> bool
@call is_merged = crate::value::value_is_merged
@spec
ensures r == (forall|k: int| 0 <= k < vx_self@.len() ==> all_m(#[trigger] vx_self@[k]))
decreases vx_self, 0nat
@loop 0
invariant_except_break vx_flag, forall|k: int| 0 <= k < vx_it0.index@ ==> all_m(#[trigger] vx_self@[k]),
invariant vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
ensures vx_flag == (forall|k: int| 0 <= k < vx_self@.len() ==> all_m(#[trigger] vx_self@[k])),

@fn vec_map_is_merged -> r
@lift <Vec<T> as Mergeable>::is_merged <'a>(vx_self: &Vec<KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>>) -> bool
@call is_merged = crate::map_is_merged
@spec
ensures r == (forall|k: int| 0 <= k < vx_self@.len() ==> all_m_map(#[trigger] vx_self@[k]))
decreases vx_self, 0nat
@loop 0
invariant_except_break vx_flag, forall|k: int| 0 <= k < vx_it0.index@ ==> all_m_map(#[trigger] vx_self@[k]),
invariant vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
ensures vx_flag == (forall|k: int| 0 <= k < vx_self@.len() ==> all_m_map(#[trigger] vx_self@[k])),

@fn map_is_merged -> r
@lift <KeyValuePairs<K,V> as Mergeable>::is_merged <'a>(vx_self: &KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>) -> bool
@broadcast hm_height
@call is_merged = crate::hashmap_entry_is_merged
@spec
ensures r == all_m_map(*vx_self)
decreases vx_self, 2nat

@fn block_is_merged -> r
@lift <KeyValuePairs<K,V> as Mergeable>::is_merged <'a>(vx_self: &KeyValuePairs<Vec<String>, KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>>) -> bool
@broadcast hm_height
@call is_merged = crate::hashmap_block_is_merged
@spec
ensures r == all_m_block(*vx_self)
decreases vx_self, 2nat

@fn vec_entry_is_merged -> r
@lift <Vec<T> as Mergeable>::is_merged <'a>(vx_self: &Vec<(crate::parser::literals::key::Key<'a>, Value<'a>)>) -> bool
@call is_merged = crate::entry_is_merged
@spec
ensures r == (forall|k: int| 0 <= k < vx_self@.len() ==> all_m((#[trigger] vx_self@[k]).1))
decreases vx_self, 1nat
@loop 0
invariant_except_break vx_flag, forall|k: int| 0 <= k < vx_it0.index@ ==> all_m((#[trigger] vx_self@[k]).1),
invariant vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
ensures vx_flag == (forall|k: int| 0 <= k < vx_self@.len() ==> all_m((#[trigger] vx_self@[k]).1)),

@fn vec_block_entry_is_merged -> r
@lift <Vec<T> as Mergeable>::is_merged <'a>(vx_self: &Vec<(Vec<String>, KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>)>) -> bool
@call is_merged = crate::block_entry_is_merged
@spec
ensures r == (forall|k: int| 0 <= k < vx_self@.len() ==> all_m_map((#[trigger] vx_self@[k]).1))
decreases vx_self, 1nat
@loop 0
invariant_except_break vx_flag, forall|k: int| 0 <= k < vx_it0.index@ ==> all_m_map((#[trigger] vx_self@[k]).1),
invariant vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
ensures vx_flag == (forall|k: int| 0 <= k < vx_self@.len() ==> all_m_map((#[trigger] vx_self@[k]).1)),

@fn entry_is_merged -> r
@lift <(T1,T2) as Mergeable>::is_merged <'a>(vx_self: &(crate::parser::literals::key::Key<'a>, Value<'a>)) -> bool
@call is_merged = &crate::value::value_is_merged
@spec
ensures r == all_m(vx_self.1)
decreases vx_self, 0nat

@fn block_entry_is_merged -> r
@lift <(T1,T2) as Mergeable>::is_merged <'a>(vx_self: &(Vec<String>, KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>)) -> bool
@call is_merged = &crate::map_is_merged
@spec
ensures r == all_m_map(vx_self.1)
decreases vx_self, 0nat

@fn hashmap_entry_is_merged -> r
@lift <HashMap<K,V,S> as Mergeable>::is_merged <'a>(vx_self: &HashMap<crate::parser::literals::key::Key<'a>, Value<'a>>) -> bool
@broadcast hm_height_at
@call iter = crate::vxp::hm_iter
@call is_merged = crate::value::value_is_merged
@spec
ensures r == (forall|k: int| 0 <= k < hm_pairs(*vx_self).len() ==> all_m((#[trigger] hm_pairs(*vx_self)[k]).1))
decreases vx_self, 1nat
@loop 0
invariant_except_break vx_flag, forall|k: int| 0 <= k < vx_it0.index@ ==> all_m((#[trigger] hm_pairs(*vx_self)[k]).1),
invariant vx_it0.seq().len() == hm_pairs(*vx_self).len(), forall|k: int| 0 <= k < hm_pairs(*vx_self).len() ==> *(#[trigger] vx_it0.seq()[k]).1 == hm_pairs(*vx_self)[k].1,
ensures vx_flag == (forall|k: int| 0 <= k < hm_pairs(*vx_self).len() ==> all_m((#[trigger] hm_pairs(*vx_self)[k]).1)),
@ghost loop 0 start
proof { let h = *vx_self; assert(decreases_to!(h => hm_pairs(h)[vx_it0.index@ as int])); }

@fn hashmap_block_is_merged -> r
@lift <HashMap<K,V,S> as Mergeable>::is_merged <'a>(vx_self: &HashMap<Vec<String>, KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>>) -> bool
@broadcast hm_height_at
@call iter = crate::vxp::hm_iter
@call is_merged = crate::map_is_merged
@spec
ensures r == (forall|k: int| 0 <= k < hm_pairs(*vx_self).len() ==> all_m_map((#[trigger] hm_pairs(*vx_self)[k]).1))
decreases vx_self, 1nat
@loop 0
invariant_except_break vx_flag, forall|k: int| 0 <= k < vx_it0.index@ ==> all_m_map((#[trigger] hm_pairs(*vx_self)[k]).1),
invariant vx_it0.seq().len() == hm_pairs(*vx_self).len(), forall|k: int| 0 <= k < hm_pairs(*vx_self).len() ==> *(#[trigger] vx_it0.seq()[k]).1 == hm_pairs(*vx_self)[k].1,
ensures vx_flag == (forall|k: int| 0 <= k < hm_pairs(*vx_self).len() ==> all_m_map((#[trigger] hm_pairs(*vx_self)[k]).1)),
@ghost loop 0 start
proof { let h = *vx_self; assert(decreases_to!(h => hm_pairs(h)[vx_it0.index@ as int])); }

@fn value_ref_is_merged -> r
@lift <&T as Mergeable>::is_merged <'b, 'a>(vx_self: &'b &Value<'a>) -> bool
@call is_merged = crate::value::value_is_merged
@spec
ensures r == all_m(**vx_self)

@fn many_is_merged -> r
@lift <OneOrMany<T> as Mergeable>::is_merged <'a>(vx_self: &OneOrMany<Value<'a>>) -> bool
@call is_merged = crate::value::value_is_merged
@spec
ensures r == match *vx_self { OneOrMany::One(x) => all_m(x), OneOrMany::Many(x) => forall|k: int| 0 <= k < x@.len() ==> all_m(#[trigger] x@[k]) }
@loop 0
invariant_except_break vx_flag, forall|k: int| 0 <= k < vx_it0.index@ ==> all_m(#[trigger] vector@[k]),
invariant vx_it0.seq().len() == vector@.len(), forall|k: int| 0 <= k < vector@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vector@[k],
ensures vx_flag == (forall|k: int| 0 <= k < vector@.len() ==> all_m(#[trigger] vector@[k])),

@fn value::value_is_unmerged -> r
@lift value::<Value as crate::Mergeable>::is_unmerged <'a>(vx_self: &Value<'a>) -> bool
@subst Self = Value<'a>
@call is_unmerged#0 = crate::vec_value_is_unmerged
@call is_unmerged#1 = crate::vec_map_is_unmerged
@call is_unmerged#2 = crate::block_is_unmerged
@spec
ensures r == all_u(*vx_self)
decreases vx_self, 1nat

@fn vec_value_is_unmerged -> r
@lift <Vec<T> as Mergeable>::is_unmerged <'a>(vx_self: &Vec<Value<'a>>) -> bool
@call is_unmerged = crate::value::value_is_unmerged
@spec
ensures r == (forall|k: int| 0 <= k < vx_self@.len() ==> all_u(#[trigger] vx_self@[k]))
decreases vx_self, 0nat
@loop 0
invariant_except_break vx_flag, forall|k: int| 0 <= k < vx_it0.index@ ==> all_u(#[trigger] vx_self@[k]),
invariant vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
ensures vx_flag == (forall|k: int| 0 <= k < vx_self@.len() ==> all_u(#[trigger] vx_self@[k])),

@fn vec_map_is_unmerged -> r
@lift <Vec<T> as Mergeable>::is_unmerged <'a>(vx_self: &Vec<KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>>) -> bool
@call is_unmerged = crate::map_is_unmerged
@spec
ensures r == (forall|k: int| 0 <= k < vx_self@.len() ==> all_u_map(#[trigger] vx_self@[k]))
decreases vx_self, 0nat
@loop 0
invariant_except_break vx_flag, forall|k: int| 0 <= k < vx_it0.index@ ==> all_u_map(#[trigger] vx_self@[k]),
invariant vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
ensures vx_flag == (forall|k: int| 0 <= k < vx_self@.len() ==> all_u_map(#[trigger] vx_self@[k])),

@fn map_is_unmerged -> r
@lift <KeyValuePairs<K,V> as Mergeable>::is_unmerged <'a>(vx_self: &KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>) -> bool
@broadcast hm_height
@call is_unmerged = crate::vec_entry_is_unmerged
@spec
ensures r == all_u_map(*vx_self)
decreases vx_self, 2nat

@fn block_is_unmerged -> r
@lift <KeyValuePairs<K,V> as Mergeable>::is_unmerged <'a>(vx_self: &KeyValuePairs<Vec<String>, KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>>) -> bool
@broadcast hm_height
@call is_unmerged = crate::vec_block_entry_is_unmerged
@spec
ensures r == all_u_block(*vx_self)
decreases vx_self, 2nat

@fn vec_entry_is_unmerged -> r
@lift <Vec<T> as Mergeable>::is_unmerged <'a>(vx_self: &Vec<(crate::parser::literals::key::Key<'a>, Value<'a>)>) -> bool
@call is_unmerged = crate::entry_is_unmerged
@spec
ensures r == (forall|k: int| 0 <= k < vx_self@.len() ==> all_u((#[trigger] vx_self@[k]).1))
decreases vx_self, 1nat
@loop 0
invariant_except_break vx_flag, forall|k: int| 0 <= k < vx_it0.index@ ==> all_u((#[trigger] vx_self@[k]).1),
invariant vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
ensures vx_flag == (forall|k: int| 0 <= k < vx_self@.len() ==> all_u((#[trigger] vx_self@[k]).1)),

@fn vec_block_entry_is_unmerged -> r
@lift <Vec<T> as Mergeable>::is_unmerged <'a>(vx_self: &Vec<(Vec<String>, KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>)>) -> bool
@call is_unmerged = crate::block_entry_is_unmerged
@spec
ensures r == (forall|k: int| 0 <= k < vx_self@.len() ==> all_u_map((#[trigger] vx_self@[k]).1))
decreases vx_self, 1nat
@loop 0
invariant_except_break vx_flag, forall|k: int| 0 <= k < vx_it0.index@ ==> all_u_map((#[trigger] vx_self@[k]).1),
invariant vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
ensures vx_flag == (forall|k: int| 0 <= k < vx_self@.len() ==> all_u_map((#[trigger] vx_self@[k]).1)),

@fn entry_is_unmerged -> r
@lift <(T1,T2) as Mergeable>::is_unmerged <'a>(vx_self: &(crate::parser::literals::key::Key<'a>, Value<'a>)) -> bool
@call is_unmerged = &crate::value::value_is_unmerged
@spec
ensures r == all_u(vx_self.1)
decreases vx_self, 0nat

@fn block_entry_is_unmerged -> r
@lift <(T1,T2) as Mergeable>::is_unmerged <'a>(vx_self: &(Vec<String>, KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>)) -> bool
@call is_unmerged = &crate::map_is_unmerged
@spec
ensures r == all_u_map(vx_self.1)
decreases vx_self, 0nat

@fn hashmap_entry_is_unmerged -> r
@lift <HashMap<K,V,S> as Mergeable>::is_unmerged <'a>(vx_self: &HashMap<crate::parser::literals::key::Key<'a>, Value<'a>>) -> bool
@broadcast hm_height_at
@call iter = crate::vxp::hm_iter
@call is_unmerged = crate::value::value_is_unmerged
@spec
ensures r == (forall|k: int| 0 <= k < hm_pairs(*vx_self).len() ==> all_u((#[trigger] hm_pairs(*vx_self)[k]).1))
decreases vx_self, 1nat
@loop 0
invariant_except_break vx_flag, forall|k: int| 0 <= k < vx_it0.index@ ==> all_u((#[trigger] hm_pairs(*vx_self)[k]).1),
invariant vx_it0.seq().len() == hm_pairs(*vx_self).len(), forall|k: int| 0 <= k < hm_pairs(*vx_self).len() ==> *(#[trigger] vx_it0.seq()[k]).1 == hm_pairs(*vx_self)[k].1,
ensures vx_flag == (forall|k: int| 0 <= k < hm_pairs(*vx_self).len() ==> all_u((#[trigger] hm_pairs(*vx_self)[k]).1)),
@ghost loop 0 start
proof { let h = *vx_self; assert(decreases_to!(h => hm_pairs(h)[vx_it0.index@ as int])); }

@fn hashmap_block_is_unmerged -> r
@lift <HashMap<K,V,S> as Mergeable>::is_unmerged <'a>(vx_self: &HashMap<Vec<String>, KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>>) -> bool
@broadcast hm_height_at
@call iter = crate::vxp::hm_iter
@call is_unmerged = crate::map_is_unmerged
@spec
ensures r == (forall|k: int| 0 <= k < hm_pairs(*vx_self).len() ==> all_u_map((#[trigger] hm_pairs(*vx_self)[k]).1))
decreases vx_self, 1nat
@loop 0
invariant_except_break vx_flag, forall|k: int| 0 <= k < vx_it0.index@ ==> all_u_map((#[trigger] hm_pairs(*vx_self)[k]).1),
invariant vx_it0.seq().len() == hm_pairs(*vx_self).len(), forall|k: int| 0 <= k < hm_pairs(*vx_self).len() ==> *(#[trigger] vx_it0.seq()[k]).1 == hm_pairs(*vx_self)[k].1,
ensures vx_flag == (forall|k: int| 0 <= k < hm_pairs(*vx_self).len() ==> all_u_map((#[trigger] hm_pairs(*vx_self)[k]).1)),
@ghost loop 0 start
proof { let h = *vx_self; assert(decreases_to!(h => hm_pairs(h)[vx_it0.index@ as int])); }

@fn value_ref_is_unmerged -> r
@lift <&T as Mergeable>::is_unmerged <'b, 'a>(vx_self: &'b &Value<'a>) -> bool
@call is_unmerged = crate::value::value_is_unmerged
@spec
ensures r == all_u(**vx_self)

@fn many_is_unmerged -> r
@lift <OneOrMany<T> as Mergeable>::is_unmerged <'a>(vx_self: &OneOrMany<Value<'a>>) -> bool
@call is_unmerged = crate::value::value_is_unmerged
@spec
ensures r == match *vx_self { OneOrMany::One(x) => all_u(x), OneOrMany::Many(x) => forall|k: int| 0 <= k < x@.len() ==> all_u(#[trigger] x@[k]) }
@loop 0
invariant_except_break vx_flag, forall|k: int| 0 <= k < vx_it0.index@ ==> all_u(#[trigger] vector@[k]),
invariant vx_it0.seq().len() == vector@.len(), forall|k: int| 0 <= k < vector@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vector@[k],
ensures vx_flag == (forall|k: int| 0 <= k < vector@.len() ==> all_u(#[trigger] vector@[k])),
