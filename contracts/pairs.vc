// owned copies of values

@fn string_as_owned -> r
@lift <String as AsOwned>::as_owned (vx_self: &String) -> String
@spec
ensures r@ == vx_self@

@fn vec_string_as_owned -> r
@lift <Vec<T> as AsOwned>::as_owned (vx_self: &Vec<String>) -> Vec<String>
@unfold collect vec
@call as_owned = crate::string_as_owned
@spec
ensures labels_of(r) == labels_of(*vx_self)
@loop 0
invariant vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  vx_c@.map_values(vstring()) == vx_self@.take(vx_it0.index@ as int).map_values(vstring()),
@ghost loop 0 end
proof { assert(vx_self@.take(vx_it0.index@ + 1).map_values(vstring()) =~= vx_self@.take(vx_it0.index@ as int).map_values(vstring()).push(vstring()(vx_self@[vx_it0.index@ as int]))); }

@fn parser::literals::key::key_as_owned -> r
@lift parser::literals::key::<Key as crate::AsOwned>::as_owned <'a>(vx_self: &crate::parser::literals::key::Key<'a>) -> crate::parser::literals::key::Key<'static>
@broadcast to_string_cow
@spec
ensures kview(r) == kview(*vx_self)
@fn parser::literals::key::Key::as_owned -> r
@broadcast to_string_cow
@spec
ensures kview(r) == kview(*self)

@fn entry_as_owned -> r
@lift <(K,V) as AsOwned>::as_owned <'a>(vx_self: &(crate::parser::literals::key::Key<'a>, Value<'a>)) -> (crate::parser::literals::key::Key<'static>, Value<'static>)
@call as_owned#0 = &crate::parser::literals::key::key_as_owned
@call as_owned#1 = &crate::value::value_as_owned
@spec
ensures ventry()(r) == ventry()(*vx_self)
decreases vx_self, 0nat

@fn value::value_as_owned -> r
@lift value::<Value as AsOwned>::as_owned <'a>(vx_self: &Value<'a>) -> Value<'static>
@subst Self = Value<'a>
@broadcast group_vview
@call as_owned#0 = crate::vec_value_as_owned
@call as_owned#1 = crate::vec_map_as_owned
@call as_owned#2 = crate::block_as_owned
@spec
ensures vview(r) == vview(*vx_self)
decreases vx_self, 1nat

@fn vec_value_as_owned -> r
@lift <Vec<T> as AsOwned>::as_owned <'a>(vx_self: &Vec<Value<'a>>) -> Vec<Value<'static>>
@unfold collect vec
@call as_owned = crate::value::value_as_owned
@spec
ensures r@.map_values(vval()) == vx_self@.map_values(vval())
decreases vx_self, 0nat
@loop 0
invariant vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  vx_c@.map_values(vval()) == vx_self@.take(vx_it0.index@ as int).map_values(vval()),
@ghost loop 0 end
proof { assert(vx_self@.take(vx_it0.index@ + 1).map_values(vval()) =~= vx_self@.take(vx_it0.index@ as int).map_values(vval()).push(vval()(vx_self@[vx_it0.index@ as int]))); }

@fn vec_entry_as_owned -> r
@lift <Vec<T> as AsOwned>::as_owned <'a>(vx_self: &Vec<(crate::parser::literals::key::Key<'a>, Value<'a>)>) -> Vec<(crate::parser::literals::key::Key<'static>, Value<'static>)>
@unfold collect vec
@call as_owned = crate::entry_as_owned
@spec
ensures r@.map_values(ventry()) == vx_self@.map_values(ventry())
decreases vx_self, 0nat
@loop 0
invariant vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  vx_c@.map_values(ventry()) == vx_self@.take(vx_it0.index@ as int).map_values(ventry()),
@ghost loop 0 end
proof { assert(vx_self@.take(vx_it0.index@ + 1).map_values(ventry()) =~= vx_self@.take(vx_it0.index@ as int).map_values(ventry()).push(ventry()(vx_self@[vx_it0.index@ as int]))); }

@fn vec_map_as_owned -> r
@lift <Vec<T> as AsOwned>::as_owned <'a>(vx_self: &Vec<KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>>) -> Vec<KeyValuePairs<crate::parser::literals::key::Key<'static>, Value<'static>>>
@unfold collect vec
@call as_owned = crate::map_as_owned
@spec
ensures r@.map_values(vmv()) == vx_self@.map_values(vmv())
decreases vx_self, 0nat
@loop 0
invariant vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  vx_c@.map_values(vmv()) == vx_self@.take(vx_it0.index@ as int).map_values(vmv()),
@ghost loop 0 end
proof { assert(vx_self@.take(vx_it0.index@ + 1).map_values(vmv()) =~= vx_self@.take(vx_it0.index@ as int).map_values(vmv()).push(vmv()(vx_self@[vx_it0.index@ as int]))); }

@fn map_as_owned -> r
@lift <KeyValuePairs<K,V> as AsOwned>::as_owned <'a>(vx_self: &KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>) -> KeyValuePairs<crate::parser::literals::key::Key<'static>, Value<'static>>
@broadcast group_vview
@call as_owned#0 = crate::hashmap_entry_as_owned
@call as_owned#1 = crate::vec_entry_as_owned
@spec
ensures mview(r) == mview(*vx_self)
decreases vx_self, 1nat

// the pair of references a hash map iterates over; `&T` delegates to `T`
@fn refs_as_owned -> r
@lift <(K,V) as AsOwned>::as_owned <'b, 'a>(vx_self: &(&'b crate::parser::literals::key::Key<'a>, &'b Value<'a>)) -> (crate::parser::literals::key::Key<'static>, Value<'static>)
@call as_owned#0 = &crate::key_ref_as_owned
@call as_owned#1 = &crate::value_ref_as_owned
@spec
ensures ventry()(r) == ventry()((*vx_self.0, *vx_self.1))
decreases vx_self.1, 3nat
@fn key_ref_as_owned -> r
@lift <&T as AsOwned>::as_owned <'b, 'a>(vx_self: &'b &crate::parser::literals::key::Key<'a>) -> crate::parser::literals::key::Key<'static>
@call as_owned = crate::parser::literals::key::key_as_owned
@spec
ensures kview(r) == kview(**vx_self)
@fn value_ref_as_owned -> r
@lift <&T as AsOwned>::as_owned <'b, 'a>(vx_self: &'b &Value<'a>) -> Value<'static>
@call as_owned = crate::value::value_as_owned
@spec
ensures vview(r) == vview(**vx_self)
decreases *vx_self, 2nat

@fn hashmap_entry_as_owned -> r
@lift <HashMap<K,V,S> as AsOwned>::as_owned <'a>(vx_self: &HashMap<crate::parser::literals::key::Key<'a>, Value<'a>>) -> HashMap<crate::parser::literals::key::Key<'static>, Value<'static>>
@unfold collect hashmap
@broadcast key_id_key, hm_height_at
@call iter = crate::vxp::hm_iter
@call as_owned = &crate::refs_as_owned
@spec
ensures hm_view(r, ventry()) == hm_view(*vx_self, ventry())
decreases vx_self, 0nat
@loop 0
invariant vx_it0.seq().len() == hm_pairs(*vx_self).len(), forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]).0 == hm_pairs(*vx_self)[k].0 && *vx_it0.seq()[k].1 == hm_pairs(*vx_self)[k].1,
  hm_view(vx_c, ventry()) == madd_all(keyed(hm_pairs(*vx_self), ventry()).take(vx_it0.index@ as int)),
@ghost loop 0 end
proof {
  let s = keyed(hm_pairs(*vx_self), ventry());
  let n = vx_it0.index@ as int;
  assert(s.take(n + 1).drop_last() =~= s.take(n));
  assert(hm_view(vx_c, ventry()) =~= madd_all(s.take(n + 1)));
}
@ghost end
proof {
  hm_rebuild(*vx_self, ventry());
  assert(keyed(hm_pairs(*vx_self), ventry()).take(hm_pairs(*vx_self).len() as int) =~= keyed(hm_pairs(*vx_self), ventry()));
}

// blocks: label lists to maps
@fn block_entry_as_owned -> r
@lift <(K,V) as AsOwned>::as_owned <'a>(vx_self: &(Vec<String>, KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>)) -> (Vec<String>, KeyValuePairs<crate::parser::literals::key::Key<'static>, Value<'static>>)
@call as_owned#0 = &crate::vec_string_as_owned
@call as_owned#1 = &crate::map_as_owned
@spec
ensures vblock_entry()(r) == vblock_entry()(*vx_self)
decreases vx_self, 0nat

@fn vec_block_entry_as_owned -> r
@lift <Vec<T> as AsOwned>::as_owned <'a>(vx_self: &Vec<(Vec<String>, KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>)>) -> Vec<(Vec<String>, KeyValuePairs<crate::parser::literals::key::Key<'static>, Value<'static>>)>
@unfold collect vec
@call as_owned = crate::block_entry_as_owned
@spec
ensures r@.map_values(vblock_entry()) == vx_self@.map_values(vblock_entry())
decreases vx_self, 0nat
@loop 0
invariant vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  vx_c@.map_values(vblock_entry()) == vx_self@.take(vx_it0.index@ as int).map_values(vblock_entry()),
@ghost loop 0 end
proof { assert(vx_self@.take(vx_it0.index@ + 1).map_values(vblock_entry()) =~= vx_self@.take(vx_it0.index@ as int).map_values(vblock_entry()).push(vblock_entry()(vx_self@[vx_it0.index@ as int]))); }

@fn block_as_owned -> r
@lift <KeyValuePairs<K,V> as AsOwned>::as_owned <'a>(vx_self: &KeyValuePairs<Vec<String>, KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>>) -> KeyValuePairs<Vec<String>, KeyValuePairs<crate::parser::literals::key::Key<'static>, Value<'static>>>
@broadcast group_vview
@call as_owned#0 = crate::hashmap_block_as_owned
@call as_owned#1 = crate::vec_block_entry_as_owned
@spec
ensures blview(r) == blview(*vx_self)
decreases vx_self, 1nat

@fn block_refs_as_owned -> r
@lift <(K,V) as AsOwned>::as_owned <'b, 'a>(vx_self: &(&'b Vec<String>, &'b KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>)) -> (Vec<String>, KeyValuePairs<crate::parser::literals::key::Key<'static>, Value<'static>>)
@call as_owned#0 = &crate::labels_ref_as_owned
@call as_owned#1 = &crate::map_ref_as_owned
@spec
ensures vblock_entry()(r) == vblock_entry()((*vx_self.0, *vx_self.1))
decreases vx_self.1, 3nat
@fn labels_ref_as_owned -> r
@lift <&T as AsOwned>::as_owned <'b>(vx_self: &'b &Vec<String>) -> Vec<String>
@call as_owned = crate::vec_string_as_owned
@spec
ensures labels_of(r) == labels_of(**vx_self)
@fn map_ref_as_owned -> r
@lift <&T as AsOwned>::as_owned <'b, 'a>(vx_self: &'b &KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>) -> KeyValuePairs<crate::parser::literals::key::Key<'static>, Value<'static>>
@call as_owned = crate::map_as_owned
@spec
ensures mview(r) == mview(**vx_self)
decreases *vx_self, 2nat

@fn hashmap_block_as_owned -> r
@lift <HashMap<K,V,S> as AsOwned>::as_owned <'a>(vx_self: &HashMap<Vec<String>, KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>>) -> HashMap<Vec<String>, KeyValuePairs<crate::parser::literals::key::Key<'static>, Value<'static>>>
@unfold collect hashmap
@broadcast key_id_labels, hm_height_at
@call iter = crate::vxp::hm_iter
@call as_owned = &crate::block_refs_as_owned
@spec
ensures hm_view(r, vblock_entry()) == hm_view(*vx_self, vblock_entry())
decreases vx_self, 0nat
@loop 0
invariant vx_it0.seq().len() == hm_pairs(*vx_self).len(), forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]).0 == hm_pairs(*vx_self)[k].0 && *vx_it0.seq()[k].1 == hm_pairs(*vx_self)[k].1,
  hm_view(vx_c, vblock_entry()) == madd_all(keyed(hm_pairs(*vx_self), vblock_entry()).take(vx_it0.index@ as int)),
@ghost loop 0 end
proof {
  let s = keyed(hm_pairs(*vx_self), vblock_entry());
  let n = vx_it0.index@ as int;
  assert(s.take(n + 1).drop_last() =~= s.take(n));
  assert(hm_view(vx_c, vblock_entry()) =~= madd_all(s.take(n + 1)));
}
@ghost end
proof {
  hm_rebuild(*vx_self, vblock_entry());
  assert(keyed(hm_pairs(*vx_self), vblock_entry()).take(hm_pairs(*vx_self).len() as int) =~= keyed(hm_pairs(*vx_self), vblock_entry()));
}
