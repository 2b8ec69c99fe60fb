
// copies (derived Clone) and unmerging
@fn parser::literals::key::key_clone -> r
@lift parser::literals::key::<Key as ::core::clone::Clone>::clone <'a>(vx_self: &Key<'a>) -> Key<'a>
@call clone = crate::vxp::cow_clone
@spec
ensures kview(r) == kview(*vx_self)

@fn value::value_clone -> r
@lift value::<Value as ::core::clone::Clone>::clone <'a>(vx_self: &Value<'a>) -> Value<'a>
@broadcast group_vview
@call clone#1 = crate::vxp::f64_clone
@call clone#4 = crate::vxp::vec_value_clone
@call clone#5 = crate::vxp::vec_map_clone
@call clone#6 = crate::block_clone
@spec
ensures vview(r) == vview(*vx_self)

@fn map_clone -> r
@lift <KeyValuePairs<K,V> as ::core::clone::Clone>::clone <'a>(vx_self: &KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>) -> KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>
@broadcast group_vview
@call clone#0 = crate::vxp::hm_entry_clone
@call clone#1 = crate::vxp::vec_entry_clone
@spec
ensures mview(r) == mview(*vx_self)

@fn block_clone -> r
@lift <KeyValuePairs<K,V> as ::core::clone::Clone>::clone <'a>(vx_self: &KeyValuePairs<Vec<String>, KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>>) -> KeyValuePairs<Vec<String>, KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>>
@broadcast group_vview
@call clone#0 = crate::vxp::hm_block_entry_clone
@call clone#1 = crate::vxp::vec_block_entry_clone
@spec
ensures blview(r) == blview(*vx_self)

@fn value::map_new_unmerged -> r
@lift value::MapValues::new_unmerged <'a>(iter: Vec<(crate::parser::literals::key::Key<'a>, Value<'a>)>) -> KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>
@call into_iter = crate::vxp::vec_into_iter
@call collect = crate::vxp::vec_collect
@spec
ensures r == KeyValuePairs::<Key<'a>, Value<'a>>::Unmerged(iter)

@fn value::block_new_unmerged -> r
@lift value::Block::new_unmerged <'a>(iter: Vec<(Vec<String>, KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>)>) -> KeyValuePairs<Vec<String>, KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>>
@broadcast group_vview, to_string_string
@unfold collect vec
@call into_iter#0 = crate::vxp::vec_into_iter
@call into_iter#1 = crate::vxp::vec_into_iter
@spec
ensures r is Unmerged, blview(r) == BlV::Unmerged(iter@.map_values(vblock_entry()))
@loop 0
invariant vx_it0.seq() == iter@, vx_c@.map_values(vblock_entry()) == iter@.map_values(vblock_entry()).take(vx_it0.index@ as int),
@ghost loop 0 start
let ghost vx_before = vx_c@;
@ghost loop 0 end
proof { let f = vblock_entry(); assert(vx_c@.map_values(f) =~= vx_before.map_values(f).push(f(vx_c@.last()))); assert(iter@.map_values(f).take(vx_it0.index@ + 1) =~= iter@.map_values(f).take(vx_it0.index@ as int).push(f(iter@[vx_it0.index@ as int]))); }
@loop 1
invariant vx_it1.seq() == keys@, vx_c@.map_values(vstring()) == keys@.map_values(vstring()).take(vx_it1.index@ as int),
@ghost loop 1 start
let ghost vx_before1 = vx_c@;
@ghost loop 1 end
proof { let f = vstring(); assert(vx_c@.map_values(f) =~= vx_before1.map_values(f).push(f(vx_c@.last()))); assert(keys@.map_values(f).take(vx_it1.index@ + 1) =~= keys@.map_values(f).take(vx_it1.index@ as int).push(f(keys@[vx_it1.index@ as int]))); }
@ghost loop 1 after
proof { assert(keys@.map_values(vstring()).take(keys@.len() as int) =~= keys@.map_values(vstring())); }
@ghost loop 0 after
proof { assert(iter@.map_values(vblock_entry()).take(iter@.len() as int) =~= iter@.map_values(vblock_entry())); }

@fn value::MapValues::unmerge -> r
@call new_unmerged = map_new_unmerged
@call into_iter = crate::vxp::hm_into_iter
@spec
ensures match self { KeyValuePairs::Merged(h) => r is Unmerged && r->Unmerged_0@ == hm_pairs(h), KeyValuePairs::Unmerged(x) => r == self }

@fn value::MapValues::as_unmerged -> r
@broadcast group_vview
@call new_unmerged = map_new_unmerged
@unfold map vec
@call iter = crate::vxp::hm_iter
@call clone#0 = crate::parser::literals::key::key_clone
@call clone#1 = crate::value::value_clone
@call clone#2 = crate::map_clone
@spec
ensures match *self { KeyValuePairs::Merged(h) => mview(r) == MvV::Unmerged(hm_pairs(h).map_values(ventry())), KeyValuePairs::Unmerged(x) => mview(r) == mview(*self) }
@loop 0
invariant *self == KeyValuePairs::Merged(*hashmap), vx_it0.seq().len() == hm_pairs(*hashmap).len(), forall|k: int| 0 <= k < hm_pairs(*hashmap).len() ==> *(#[trigger] vx_it0.seq()[k]).0 == hm_pairs(*hashmap)[k].0 && *vx_it0.seq()[k].1 == hm_pairs(*hashmap)[k].1,
  vx_c@.map_values(ventry()) == hm_pairs(*hashmap).map_values(ventry()).take(vx_it0.index@ as int),
@ghost loop 0 start
let ghost vx_before = vx_c@;
@ghost loop 0 end
proof { assert(vx_c@.map_values(ventry()) =~= vx_before.map_values(ventry()).push(ventry()(vx_c@.last()))); assert(hm_pairs(*hashmap).map_values(ventry()).take(vx_it0.index@ + 1) =~= hm_pairs(*hashmap).map_values(ventry()).take(vx_it0.index@ as int).push(ventry()(hm_pairs(*hashmap)[vx_it0.index@ as int]))); }
@ghost loop 0 after
proof { assert(hm_pairs(*hashmap).map_values(ventry()).take(hm_pairs(*hashmap).len() as int) =~= hm_pairs(*hashmap).map_values(ventry())); }

@fn value::Block::unmerge -> r
@call new_unmerged = block_new_unmerged
@call into_iter = crate::vxp::hm_into_iter
@spec
ensures match self { KeyValuePairs::Merged(h) => blview(r) == BlV::Unmerged(hm_pairs(h).map_values(vblock_entry())), KeyValuePairs::Unmerged(x) => r == self }

@fn value::Block::as_unmerged -> r
@broadcast group_vview
@call new_unmerged = block_new_unmerged
@unfold map vec
@call iter = crate::vxp::hm_iter
@call clone#0 = crate::vxp::labels_clone
@call clone#1 = crate::map_clone
@call clone#2 = crate::block_clone
@spec
ensures match *self { KeyValuePairs::Merged(h) => blview(r) == BlV::Unmerged(hm_pairs(h).map_values(vblock_entry())), KeyValuePairs::Unmerged(x) => blview(r) == blview(*self) }
@loop 0
invariant *self == KeyValuePairs::Merged(*hashmap), vx_it0.seq().len() == hm_pairs(*hashmap).len(), forall|k: int| 0 <= k < hm_pairs(*hashmap).len() ==> *(#[trigger] vx_it0.seq()[k]).0 == hm_pairs(*hashmap)[k].0 && *vx_it0.seq()[k].1 == hm_pairs(*hashmap)[k].1,
  vx_c@.map_values(vblock_entry()) == hm_pairs(*hashmap).map_values(vblock_entry()).take(vx_it0.index@ as int),
@ghost loop 0 start
let ghost vx_before = vx_c@;
@ghost loop 0 end
proof { assert(vx_c@.map_values(vblock_entry()) =~= vx_before.map_values(vblock_entry()).push(vblock_entry()(vx_c@.last()))); assert(hm_pairs(*hashmap).map_values(vblock_entry()).take(vx_it0.index@ + 1) =~= hm_pairs(*hashmap).map_values(vblock_entry()).take(vx_it0.index@ as int).push(vblock_entry()(hm_pairs(*hashmap)[vx_it0.index@ as int]))); }
@ghost loop 0 after
proof { assert(hm_pairs(*hashmap).map_values(vblock_entry()).take(hm_pairs(*hashmap).len() as int) =~= hm_pairs(*hashmap).map_values(vblock_entry())); }

