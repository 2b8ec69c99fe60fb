// merging
@fn value::map_new_merged -> r
@lift value::MapValues::new_merged <'a>(iter: Vec<(crate::parser::literals::key::Key<'a>, Value<'a>)>) -> Result<KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>, Error>
@broadcast group_vview, items_pairs, map_values_add
@call default = crate::vxp::hm_new
@call entry = &mut crate::vxp::hm_entry
@call insert = crate::vxp::vac_insert
@call key = &crate::vxp::occ_key
@call get_mut = crate::vxp::occ_get_mut
@call to_string = crate::vxp::any_string
@spec
ensures match r { Ok(m) => mmv(MvV::Unmerged(iter@.map_values(ventry()))) == Some(mview(m)), Err(_) => mmv(MvV::Unmerged(iter@.map_values(ventry()))) is None }
decreases iter
@loop 0
invariant vx_it0.seq() == iter@, mfold(iter@.map_values(ventry()), vx_it0.index@ as int) == Some(hm_view(map, ventry())),
@ghost loop 0 start
let ghost vx_m = map;
let ghost vx_k = key;
proof { let s = iter@.map_values(ventry()); assert(s[vx_it0.index@ as int] == (kview(key), vview(value))); mfold_step(s, vx_it0.index@ as int); kid_key(key); }
@ghost loop 0 end
proof {
    broadcast use group_vview;
    let s = iter@.map_values(ventry());
    let id = key_id(&vx_k);
    let e = hm_map(map)[id];
    merged_entry(vx_m, hm_map(map), id, e.0, e.1);
    assert(hm_map(map) =~= hm_map(vx_m).insert(id, e));
    let acc = hm_view(vx_m, ventry());
    let v = mval(s[vx_it0.index@ as int].1)->0;
    if hm_map(vx_m).contains_key(id) {
        let o = hm_map(vx_m)[id];
        assert(acc[id] == (kview(o.0), vview(o.1)));
        if o.1 is Object { assert(v is Object); assert(vview(o.1) is Object); assert(e.1 is Object); let a = vview(o.1)->Object_0; let b = v->Object_0; assert(vview(o.1) == ValV::Object(a) && v == ValV::Object(b)); assert(vview(e.1) == ValV::Object(a + b)); assert(Some(vview(e.1)) == combine(vview(o.1), v)); }
        if o.1 is Block { assert(v is Block); assert(e.1 is Block); let b = e.1->Block_0; assert(b is Merged); assert(b == KeyValuePairs::<Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>>::Merged(b->Merged_0)); assert(blview(b) == BlV::Merged(hm_view(b->Merged_0, vblock_entry()))); assert(Some(vview(e.1)) == combine(vview(o.1), v)); }
        assert(e.0 == o.0);
    }
    assert(mput(acc, kview(vx_k), v) == Some(hm_view(map, ventry())));
}
@loop 1
invariant_except_break vx_found is None, none_held(*block, kv_pairs(incoming), vx_it1.index@ as int),
invariant refs_of(vx_it1.seq(), kv_pairs(incoming)), *block is Merged,
ensures vx_found is None ==> none_held(*block, kv_pairs(incoming), kv_pairs(incoming).len() as int), vx_found is Some ==> !none_held(*block, kv_pairs(incoming), kv_pairs(incoming).len() as int),
@ghost loop 1 before
proof { let id = key_id(&vx_k); let e = hm_map(vx_m)[id]; assert(hm_view(vx_m, ventry())[id] == (kview(e.0), vview(e.1))); assert(e.1 == Value::Block(*block)); assert(blview(*block) is Merged); assert(*block is Merged); assert(blview(incoming) is Merged); assert(incoming is Merged); }
@ghost loop 1 after
proof { distinct_blocks(*block, incoming); }

@fn value::block_new_merged -> r
@lift value::Block::new_merged <'a>(iter: Vec<(Vec<String>, KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>)>) -> Result<KeyValuePairs<Vec<String>, KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>>, Error>
@broadcast group_vview, to_string_string, key_id_labels
@unfold collect vec
@call default = crate::vxp::hm_new
@call into_iter = crate::vxp::vec_into_iter
@call contains_key = &crate::vxp::hm_contains
@call insert = &mut crate::vxp::hm_insert
@call join = &crate::vxp::join_labels
@spec
ensures match r { Ok(m) => bfold(iter@.map_values(vblock_entry()), iter@.len() as int) is Some && blview(m) == BlV::Merged(bfold(iter@.map_values(vblock_entry()), iter@.len() as int)->0), Err(_) => bfold(iter@.map_values(vblock_entry()), iter@.len() as int) is None }
decreases iter
@loop 0
invariant vx_it0.seq() == iter@, bfold(iter@.map_values(vblock_entry()), vx_it0.index@ as int) == Some(hm_view(merged, vblock_entry())),
@ghost loop 0 start
let ghost vx_m = merged;
let ghost vx_k = key;
proof { let s = iter@.map_values(vblock_entry()); assert(s[vx_it0.index@ as int] == (labels_of(key), mview(value))); bfold_step(s, vx_it0.index@ as int); }
@loop 1
invariant vx_it1.seq() == vx_k@, vx_c@.map_values(vstring()) == vx_k@.map_values(vstring()).take(vx_it1.index@ as int),
@ghost loop 1 start
let ghost vx_before1 = vx_c@;
@ghost loop 1 end
proof { let f = vstring(); assert(vx_c@.map_values(f) =~= vx_before1.map_values(f).push(f(vx_c@.last()))); assert(vx_k@.map_values(f).take(vx_it1.index@ + 1) =~= vx_k@.map_values(f).take(vx_it1.index@ as int).push(f(vx_k@[vx_it1.index@ as int]))); }
@ghost loop 1 after
proof { assert(vx_k@.map_values(vstring()).take(vx_k@.len() as int) =~= vx_k@.map_values(vstring())); }
@ghost loop 0 end
proof {
    let id = lid(labels_of(vx_k));
    let e = hm_map(merged)[id];
    merged_block(vx_m, id, e.0, e.1);
    assert(hm_map(merged) =~= hm_map(vx_m).insert(id, e));
}

@fn value::MapValues::merge -> r
@call into_iter = crate::vxp::vec_into_iter
@call new_merged = map_new_merged
@broadcast group_vview
@spec
ensures match r { Ok(m) => mmv(mview(self)) == Some(mview(m)), Err(_) => mmv(mview(self)) is None }
decreases self

@fn value::Value::merge -> r
@broadcast group_vview
@unfold collect#0 result-vec
@unfold collect#1 result-vec
@unfold collect#2 result-vec:block_new_unmerged
@call into_iter#0 = crate::vxp::vec_into_iter
@call into_iter#1 = crate::vxp::vec_into_iter
@call new_merged = block_new_merged_pairs
@spec
ensures match r { Ok(m) => mval(vview(self)) == Some(vview(m)), Err(_) => mval(vview(self)) is None }
decreases self
@loop 0
invariant_except_break vx_f is None, vx_c@.len() == vx_it0.index@,
invariant self == Value::List(list), vx_it0.seq() == list@, vx_c@.len() <= list@.len(), forall|j: int| 0 <= j < vx_c@.len() ==> mval(vview(list@[j])) == Some(vview((#[trigger] vx_c@[j]))),
ensures vx_f is None ==> vx_c@.len() == list@.len(), vx_f is Some ==> vx_c@.len() < list@.len() && mval(vview(list@[vx_c@.len() as int])) is None,
@ghost loop 0 start
proof { assert(vx_x == list@[vx_it0.index@ as int]); assert(decreases_to!(list => list@[vx_it0.index@ as int])); assert(decreases_to!(self => self->List_0)); assert(self->List_0 == list); }
@ghost loop 0 after
proof { merged_list(list, vx_c); }
@loop 1
invariant_except_break vx_f is None, vx_c@.len() == vx_it1.index@,
invariant self == Value::Object(maps), vx_it1.seq() == maps@, vx_c@.len() <= maps@.len(), forall|j: int| 0 <= j < vx_c@.len() ==> mmv(mview(maps@[j])) == Some(mview((#[trigger] vx_c@[j]))),
ensures vx_f is None ==> vx_c@.len() == maps@.len(), vx_f is Some ==> vx_c@.len() < maps@.len() && mmv(mview(maps@[vx_c@.len() as int])) is None,
@ghost loop 1 start
proof { assert(vx_x == maps@[vx_it1.index@ as int]); assert(decreases_to!(maps => maps@[vx_it1.index@ as int])); assert(decreases_to!(self => self->Object_0)); assert(self->Object_0 == maps); }
@ghost loop 1 after
proof { merged_object(maps, vx_c); }
@loop 2
invariant_except_break vx_f is None, vx_c@.len() == vx_it2.index@,
invariant self == Value::Block(block), vx_it2.seq() == kv_pairs(block), blocks_so_far(block, vx_c@),
ensures blocks_done(block, vx_c@, vx_f is Some),
@ghost loop 2 start
proof { pair_smaller(block, vx_it2.index@ as int); assert(decreases_to!(self => self->Block_0)); assert(self->Block_0 == block); }
@ghost loop 2 after
proof { merged_blocks(block, vx_c@); if vx_f is None { merged_bodies(block, vx_c@); } }

// what is merged is not looked into again
@fn value::map_merge_merged -> r
@lift value::MapValues::merge <'a>(vx_self: KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>) -> Result<KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>, Error>
@call into_iter = crate::vxp::vec_into_iter
@call new_merged = crate::vxp::not_reached
@spec
requires vx_self is Merged
ensures r is Ok, r->Ok_0 == vx_self, mmv(mview(vx_self)) == Some(mview(vx_self))

@fn value::block_new_merged_pairs -> r
@lift value::Block::new_merged <'a>(iter: KeyValuePairs<Vec<String>, KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>>) -> Result<KeyValuePairs<Vec<String>, KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>>, Error>
@broadcast group_vview, to_string_string, key_id_labels
@unfold collect vec
@call default = crate::vxp::hm_new
@call into_iter = crate::vxp::vec_into_iter
@call contains_key = &crate::vxp::hm_contains
@call insert = &mut crate::vxp::hm_insert
@call merge = crate::value::map_merge_merged
@call join = &crate::vxp::join_labels
@spec
requires bodies_merged(blview(iter))
ensures match r { Ok(m) => bfold(kv_pairs(iter).map_values(vblock_entry()), kv_pairs(iter).len() as int) is Some && blview(m) == BlV::Merged(bfold(kv_pairs(iter).map_values(vblock_entry()), kv_pairs(iter).len() as int)->0), Err(_) => bfold(kv_pairs(iter).map_values(vblock_entry()), kv_pairs(iter).len() as int) is None }
@loop 0
invariant vx_it0.seq() == kv_pairs(iter), bodies_merged(blview(iter)), bfold(kv_pairs(iter).map_values(vblock_entry()), vx_it0.index@ as int) == Some(hm_view(merged, vblock_entry())),
@ghost loop 0 start
let ghost vx_m = merged;
let ghost vx_k = key;
proof { let s = kv_pairs(iter).map_values(vblock_entry()); assert(s[vx_it0.index@ as int] == (labels_of(key), mview(value))); bfold_step(s, vx_it0.index@ as int); merged_body(iter, vx_it0.index@ as int); }
@loop 1
invariant vx_it1.seq() == vx_k@, vx_c@.map_values(vstring()) == vx_k@.map_values(vstring()).take(vx_it1.index@ as int),
@ghost loop 1 start
let ghost vx_before1 = vx_c@;
@ghost loop 1 end
proof { let f = vstring(); assert(vx_c@.map_values(f) =~= vx_before1.map_values(f).push(f(vx_c@.last()))); assert(vx_k@.map_values(f).take(vx_it1.index@ + 1) =~= vx_k@.map_values(f).take(vx_it1.index@ as int).push(f(vx_k@[vx_it1.index@ as int]))); }
@ghost loop 1 after
proof { assert(vx_k@.map_values(vstring()).take(vx_k@.len() as int) =~= vx_k@.map_values(vstring())); }
@ghost loop 0 end
proof {
    let id = lid(labels_of(vx_k));
    let e = hm_map(merged)[id];
    merged_block(vx_m, id, e.0, e.1);
    assert(hm_map(merged) =~= hm_map(vx_m).insert(id, e));
}

@fn value::MapValues::as_merged -> r
@broadcast group_vview
@call new_merged = map_new_merged
@unfold cloned vec:crate::vxp::entry_clone
@call clone = crate::map_clone
@spec
ensures match r { Ok(m) => mmv(mview(*self)) == Some(mview(m)), Err(_) => mmv(mview(*self)) is None }
@loop 0
invariant vx_it0.seq().len() == vec@.len(), forall|k: int| 0 <= k < vec@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vec@[k], vx_c@.map_values(ventry()) == vec@.map_values(ventry()).take(vx_it0.index@ as int),
@ghost loop 0 start
let ghost vx_before = vx_c@;
@ghost loop 0 end
proof { let f = ventry(); assert(vx_c@.map_values(f) =~= vx_before.map_values(f).push(f(vx_c@.last()))); assert(vec@.map_values(f).take(vx_it0.index@ + 1) =~= vec@.map_values(f).take(vx_it0.index@ as int).push(f(vec@[vx_it0.index@ as int]))); }
@ghost loop 0 after
proof { assert(vec@.map_values(ventry()).take(vec@.len() as int) =~= vec@.map_values(ventry())); }

@fn value::Block::merge -> r
@call into_iter = crate::vxp::vec_into_iter
@call new_merged = block_new_merged
@broadcast group_vview
@spec
ensures match self { KeyValuePairs::Merged(_) => r is Ok && r->Ok_0 == self, KeyValuePairs::Unmerged(_) => match r { Ok(m) => mbl(blview(self)) is Some && blview(m) == BlV::Merged(mbl(blview(self))->0), Err(_) => mbl(blview(self)) is None } }

@fn value::Block::as_merged -> r
@broadcast group_vview
@call new_merged = block_new_merged
@unfold cloned vec:crate::vxp::block_entry_clone
@call clone = crate::block_clone
@spec
ensures match self { KeyValuePairs::Merged(_) => r is Ok && blview(r->Ok_0) == blview(*self), KeyValuePairs::Unmerged(_) => match r { Ok(m) => mbl(blview(*self)) is Some && blview(m) == BlV::Merged(mbl(blview(*self))->0), Err(_) => mbl(blview(*self)) is None } }
@loop 0
invariant vx_it0.seq().len() == vec@.len(), forall|k: int| 0 <= k < vec@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vec@[k], vx_c@.map_values(vblock_entry()) == vec@.map_values(vblock_entry()).take(vx_it0.index@ as int),
@ghost loop 0 start
let ghost vx_before = vx_c@;
@ghost loop 0 end
proof { let f = vblock_entry(); assert(vx_c@.map_values(f) =~= vx_before.map_values(f).push(f(vx_c@.last()))); assert(vec@.map_values(f).take(vx_it0.index@ + 1) =~= vec@.map_values(f).take(vx_it0.index@ as int).push(f(vec@[vx_it0.index@ as int]))); }
@ghost loop 0 after
proof { assert(vec@.map_values(vblock_entry()).take(vec@.len() as int) =~= vec@.map_values(vblock_entry())); }
