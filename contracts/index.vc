// the index of blocks
@type parser::block::BlockBody
@type parser::block::Blocks

@inject parser::block
/// what the index of a document holds under each type
pub closed spec fn bsv<'a>(b: Blocks<'a>) -> Map<KeyV, IxV<Body<'a>>> { hm_view(b.blocks, vix()) }
pub closed spec fn bs_map<'a>(b: Blocks<'a>) -> HashMap<Identifier<'a>, BlockBody<'a>> { b.blocks }
pub broadcast proof fn bsv_def<'a>(b: Blocks<'a>) ensures #[trigger] bsv(b) == hm_view(bs_map(b), vix()) {}

@fn parser::block::BlockLabel::as_str -> r
@spec
ensures r@ == ltext(*self)
@fn parser::block::BlockLabel::as_cow -> r
@call clone#1 = crate::vxp::cow_clone
@spec
ensures r@ == ltext(*self)
@fn parser::block::<BlockLabel as Borrow<str>>::borrow -> r
@call arm#1 = crate::vxp::cow_str
@spec
ensures text_str(r) == ltext(*self)
@fn parser::block::label_equal -> r
@lift parser::block::<BlockLabel as PartialEq>::eq <'a>(vx_self: &BlockLabel<'a>, other: &BlockLabel<'a>) -> bool
@subst Self = BlockLabel<'a>
@spec
ensures r == (ltext(*vx_self) == ltext(*other))
@fn parser::block::label_hash
@lift parser::block::<BlockLabel as Hash>::hash <'x, H: Hasher>(vx_self: &BlockLabel<'x>, state: &mut H)
@call hash = crate::vxp::str_hash
@spec
ensures *final(state) == fed(*old(state), ltext(*vx_self))

@fn parser::block::<BlockBody as Default>::default -> r
@spec
ensures ixv(r) == ix_none::<Body<'a>>()
@fn parser::block::BlockBody::new -> r
@spec
ensures ixv(r) == ix_none::<Body<'a>>()
@fn parser::block::BlockBody::append
@broadcast group_ix
@call drain = &mut crate::vxp::drain_part
@call next = &mut crate::vxp::first_item
@call entry = crate::vxp::hm_entry
@call insert = crate::vxp::vac_insert
@call get_mut = crate::vxp::occ_get_mut
@spec
ensures ixv(*final(self)) == ix_append(ixv(*old(self)), ltexts(labels@), body)
decreases labels@.len(), 1nat
@ghost start
proof { if labels@.len() > 0 { ltexts_skip(labels@); } }

@fn parser::block::BlockBody::body_to_labels
@broadcast group_ix, hm_view_none
@unfold take mut
@call drain = &mut crate::vxp::drain_part
@call next = &mut crate::vxp::first_item
@call insert = &mut crate::vxp::hm_insert
@call new = crate::vxp::hm_new
@spec
requires *old(self) is Body, labels@.len() > 0
ensures ixv(*final(self)) == ix_append(ixv(*old(self)), ltexts(labels@), body)
decreases labels@.len(), 0nat
@ghost start
proof { ltexts_skip(labels@); if *self is Body { ixv_body((*self)->Body_0); } }

@fn parser::block::BlockBody::get -> r
@broadcast group_ix
@call split_first = crate::vxp::first_rest
@call get#0 = &crate::vxp::hm_get
@call as_ref = crate::vxp::as_str_of
@spec
ensures opt_ix(r) == ix_get(ixv(*self), texts(labels@))
decreases labels@.len()
@ghost start
proof { if labels@.len() > 0 { texts_skip(labels@); } }

@fn parser::block::BlockBody::has_further_labels -> r
@call is_empty = &crate::vxp::hm_is_empty
@spec
ensures r == (ixv(*self) is Labels && some_key(ixv(*self)->Labels_1))
@ghost start
proof { match self { BlockBody::Labels { empty, labels } => { ixv_labels(*empty, *labels); assert(hm_view(*labels, vix()).dom() =~= hm_map(*labels).dom()); } _ => {} } }
@fn parser::block::BlockBody::get_empty -> r
@spec
ensures r@ == ix_here(ixv(*self))
@fn parser::block::BlockBody::get_labels -> r
@broadcast group_ix
@spec
ensures match r { Some(m) => ixv(*self) is Labels && hm_view(*m, vix()) == ixv(*self)->Labels_1, None => ixv(*self) is Body }

@fn parser::block::Blocks::append
@broadcast group_ix
@call entry = &mut crate::vxp::hm_entry
@call insert = crate::vxp::vac_insert
@call get_mut = crate::vxp::occ_get_mut
@spec
ensures bsv(*final(self)) == bs_append(bsv(*old(self)), block.r#type@, ltexts(block.labels@), block.body)
@fn parser::block::Blocks::get -> r
@broadcast group_ix
@call get#0 = &crate::vxp::hm_get
@call as_ref = &crate::vxp::as_str_of
@spec
ensures opt_ix(r) == bs_get(bsv(*self), text_of(block_type), texts(labels@))
@fn parser::block::Blocks::len -> r
@call len = &crate::vxp::hm_len
@spec
ensures bsv(*self).dom().finite(), r == bsv(*self).dom().len()
@ghost start
proof { hm_count(self.blocks); assert(bsv(*self).dom() =~= hm_map(self.blocks).dom()); }
@fn parser::block::Blocks::is_empty -> r
@spec
ensures r == (bsv(*self).dom().len() == 0)

@fn parser::block::blocks_extend
@lift parser::block::<Blocks as Extend<Block>>::extend <'a>(vx_self: &mut Blocks<'a>, iter: Vec<Block<'a>>)
@spec
ensures bsv(*final(vx_self)) == bs_all(bsv(*old(vx_self)), iter@.map_values(blk()))
@ghost start
let ghost vx_old = bsv(*vx_self);
proof { assert(iter@.take(0) =~= Seq::empty()); assert(iter@.take(0).map_values(blk()) =~= Seq::empty()); }
@loop 0
invariant vx_it0.seq() == iter@, bsv(*vx_self) == bs_all(vx_old, iter@.take(vx_it0.index@ as int).map_values(blk())),
@ghost loop 0 start
proof { bs_all_step(vx_old, iter@, vx_it0.index@ as int); }
@ghost loop 0 after
proof { assert(iter@.take(iter@.len() as int) =~= iter@); }

@fn parser::block::blocks_new -> r
@lift parser::block::Blocks::new <'a>(blocks: Vec<Block<'a>>) -> Blocks<'a>
@subst Self = Blocks<'a>
@broadcast hm_view_none
@call new = crate::vxp::hm_new
@call extend = &mut crate::parser::block::blocks_extend
@spec
ensures bsv(r) == bs_all(Map::<KeyV, IxV<Body<'a>>>::empty(), blocks@.map_values(blk()))

@fn parser::block::blocks_from_iter -> r
@lift parser::block::<Blocks as FromIterator<Block>>::from_iter <'a>(iter: Vec<Block<'a>>) -> Blocks<'a>
@call new = crate::parser::block::blocks_new
@spec
ensures bsv(r) == bs_all(Map::<KeyV, IxV<Body<'a>>>::empty(), iter@.map_values(blk()))

@fn parser::block::body_extend
@lift parser::block::<BlockBody as Extend<(Vec<BlockLabel>,Body)>>::extend <'a>(vx_self: &mut BlockBody<'a>, iter: Vec<(Vec<BlockLabel<'a>>, Body<'a>)>)
@spec
ensures ixv(*final(vx_self)) == ix_all(ixv(*old(vx_self)), iter@.map_values(lbd()))
@ghost start
let ghost vx_old = ixv(*vx_self);
proof { assert(iter@.take(0).map_values(lbd()) =~= Seq::empty()); }
@loop 0
invariant vx_it0.seq() == iter@, ixv(*vx_self) == ix_all(vx_old, iter@.take(vx_it0.index@ as int).map_values(lbd())),
@ghost loop 0 start
proof { ix_all_step(vx_old, iter@, vx_it0.index@ as int); }
@ghost loop 0 after
proof { assert(iter@.take(iter@.len() as int) =~= iter@); }

@fn parser::block::body_from_iter -> r
@lift parser::block::<BlockBody as FromIterator<(Vec<BlockLabel>,Body)>>::from_iter <'a>(iter: Vec<(Vec<BlockLabel<'a>>, Body<'a>)>) -> BlockBody<'a>
@subst Self = BlockBody<'a>
@call default = BlockBody::new
@call extend = &mut crate::parser::block::body_extend
@spec
ensures ixv(r) == ix_all(ix_none::<Body<'a>>(), iter@.map_values(lbd()))

@fn parser::block::BlockBody::get_mut -> r
@broadcast group_ix, map_same
@call split_first = crate::vxp::first_rest
@call get_mut#0 = crate::vxp::hm_get_mut
@call as_ref = crate::vxp::as_str_of
@spec
ensures r is Some == ix_get(ixv(*old(self)), texts(labels@)) is Some,
  match r { Some(y) => ix_get(ixv(*old(self)), texts(labels@)) == Some(ixv(*y)), None => true },
  match r { Some(y) => ixv(*final(self)) == ix_set(ixv(*old(self)), texts(labels@), ixv(*final(y))), None => true },
  match r { Some(y) => true, None => ixv(*final(self)) == ixv(*old(self)) },
decreases labels@.len()
@ghost start
proof { if labels@.len() > 0 { texts_skip(labels@); } }

@fn parser::block::Blocks::get_mut -> r
@broadcast group_ix
@call get_mut#0 = &mut crate::vxp::hm_get_mut
@call as_ref = &crate::vxp::as_str_of
@spec
ensures match r {
    Some(y) => bs_get(bsv(*old(self)), text_of(block_type), texts(labels@)) == Some(ixv(*y)) && bsv(*final(self)) == bsv(*old(self)).insert(KeyV::Text(text_of(block_type)), ix_set(bsv(*old(self))[KeyV::Text(text_of(block_type))], texts(labels@), ixv(*final(y)))),
    None => bs_get(bsv(*old(self)), text_of(block_type), texts(labels@)) is None && bsv(*final(self)) =~= bsv(*old(self)),
  }

@fn parser::block::BlockBody::len_blocks -> r
@broadcast hm_height_at
@call iter = crate::vxp::hm_iter
@spec
requires ix_count(ixv(*self)) <= usize::MAX
ensures r == ix_count(ixv(*self))
decreases *self
@ghost start
proof { match self { BlockBody::Labels { empty, labels } => { assert(*self == BlockBody::Labels { empty: *empty, labels: *labels }); ix_count_pairs(*empty, *labels); } BlockBody::Body(v) => { ixv_body(*v); } } }
@loop 0
invariant *self is Labels, (*self)->labels == *labels, nsum(hm_pairs(*labels).map_values(vcnt())) <= usize::MAX, vx_it0.seq().len() == hm_pairs(*labels).len(), forall|k: int| 0 <= k < hm_pairs(*labels).len() ==> *(#[trigger] vx_it0.seq()[k]).1 == hm_pairs(*labels)[k].1,
  acc == nsum(hm_pairs(*labels).map_values(vcnt()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { let h = *labels; assert(decreases_to!(h => hm_pairs(h)[vx_it0.index@ as int])); assert(decreases_to!(*self => (*self)->labels)); assert(*bodies == hm_pairs(h)[vx_it0.index@ as int].1); nsum_take(hm_pairs(h).map_values(vcnt()), vx_it0.index@ as int); nsum_mono(hm_pairs(h).map_values(vcnt()), vx_it0.index@ + 1); }
@ghost loop 0 after
proof { assert(hm_pairs(*labels).map_values(vcnt()).take(hm_pairs(*labels).len() as int) =~= hm_pairs(*labels).map_values(vcnt())); }

@fn parser::block::Blocks::len_blocks -> r
@call iter = &crate::vxp::hm_iter
@spec
requires bs_count(bsv(*self)) <= usize::MAX
ensures r == bs_count(bsv(*self))
@ghost start
proof { bs_count_pairs(self.blocks); }
@loop 0
invariant nsum(hm_pairs(self.blocks).map_values(vcnt())) <= usize::MAX, vx_it0.seq().len() == hm_pairs(self.blocks).len(), forall|k: int| 0 <= k < hm_pairs(self.blocks).len() ==> *(#[trigger] vx_it0.seq()[k]).1 == hm_pairs(self.blocks)[k].1,
  acc == nsum(hm_pairs(self.blocks).map_values(vcnt()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { nsum_take(hm_pairs(self.blocks).map_values(vcnt()), vx_it0.index@ as int); nsum_mono(hm_pairs(self.blocks).map_values(vcnt()), vx_it0.index@ + 1); }
@ghost loop 0 after
proof { assert(hm_pairs(self.blocks).map_values(vcnt()).take(hm_pairs(self.blocks).len() as int) =~= hm_pairs(self.blocks).map_values(vcnt())); }

@fn parser::block::BlockBody::label_lens_uniform -> r
@broadcast hm_height_at
@call is_empty#0 = crate::vxp::hm_is_empty
@call is_empty#2 = crate::vxp::hm_is_empty
@call iter = crate::vxp::hm_iter
@call next = &mut crate::vxp::first_item
@unfold map option
@spec
requires ix_wf(ixv(*self)), lens_fit(ixv(*self))
ensures uniform(ixv(*self), r)
decreases *self
@ghost start
let ghost e = (*self)->empty;
let ghost h = (*self)->labels;
proof {
  if *self is Labels {
    assert(*self == BlockBody::Labels { empty: e, labels: h });
    ix_wf_pairs(e, h); lens_fit_in(e, h);
    if e@.len() > 0 { uniform_mixed(e, h); }
    assert(decreases_to!(*self => (*self)->labels)); assert(decreases_to!(h => hm_pairs(h)[0]));
    if uniform(ixv(hm_pairs(h)[0].1), None::<usize>) { uniform_one(e, h, 0); }
  } else { ixv_body((*self)->Body_0); assert(uniform(ixv(*self), Some(0usize))); }
}
@loop 0
invariant *self is Labels, (*self)->labels == h, (*self)->empty == e, *self == (BlockBody::Labels { empty: e, labels: h }), e@.len() == 0, ix_wf(ixv(*self)), lens_fit(ixv(*self)), hm_pairs(h).len() > 0,
  forall|i: int| 0 <= i < hm_pairs(h).len() ==> ix_wf(ixv((#[trigger] hm_pairs(h)[i]).1)), forall|i: int| 0 <= i < hm_pairs(h).len() ==> lens_fit(ixv((#[trigger] hm_pairs(h)[i]).1)),
  vx_it0.seq().len() == hm_pairs(h).len() - 1, forall|k: int| 0 <= k < hm_pairs(h).len() - 1 ==> *(#[trigger] vx_it0.seq()[k]).1 == hm_pairs(h)[k + 1].1,
  initial is Some, forall|i: int| 0 <= i <= vx_it0.index@ ==> uniform(ixv((#[trigger] hm_pairs(h)[i]).1), initial),
@ghost loop 0 start
proof { let i = vx_it0.index@ + 1; assert(decreases_to!(*self => (*self)->labels)); assert(decreases_to!(h => hm_pairs(h)[i])); assert(*bodies == hm_pairs(h)[i].1);
  assert forall|q: Option<usize>| #[trigger] uniform(ixv(*bodies), q) && q != initial implies uniform(ixv(*self), None::<usize>) by { uniform_two(e, h, 0, i, initial->0, q); } }
@ghost loop 0 after
proof { uniform_all(e, h, initial->0); }

@fn parser::block::BlockBody::is_label_lens_uniform -> r
@spec
requires ix_wf(ixv(*self)), lens_fit(ixv(*self))
ensures r == (exists|n: usize| uniform(ixv(*self), Some(n)))
@ghost start
proof { uniform_once(ixv(*self)); }

@fn parser::block::BlockBody::label_lens -> r
@broadcast hm_height_at, shifted_all
@call once = crate::vxp::one_item
@call iter = crate::vxp::hm_iter
@call into_iter = crate::vxp::set_list
@call flatten = crate::vxp::flat_list
@call chain = crate::vxp::chained
@call collect = crate::vxp::to_set
@unfold map#0 vec
@unfold map#1 vec
@spec
requires lens_fit(ixv(*self))
ensures forall|n: nat| #[trigger] ix_len(ixv(*self), n) <==> n <= usize::MAX && bset(r).contains(n as usize)
decreases *self
@ghost start
let ghost e = (*self)->empty;
let ghost h = (*self)->labels;
proof { if *self is Labels { assert(*self == BlockBody::Labels { empty: e, labels: h }); lens_fit_in(e, h);
    assert forall|c: Seq<Vec<usize>>| plus_ones(c, h, hm_pairs(h).len() as int) && e@.len() > 0 implies forall|n: nat| #[trigger] ix_len(ixv(*self), n) <==> n <= usize::MAX && (#[trigger] (cat(c.map_values(vvecs())) + seq![0usize])).contains(n as usize) by { label_lens_all(e, h, c, cat(c.map_values(vvecs())) + seq![0usize]); }
    assert forall|c: Seq<Vec<usize>>| plus_ones(c, h, hm_pairs(h).len() as int) && e@.len() == 0 implies forall|n: nat| #[trigger] ix_len(ixv(*self), n) <==> n <= usize::MAX && (#[trigger] cat(c.map_values(vvecs()))).contains(n as usize) by { assert(cat(c.map_values(vvecs())) + Seq::<usize>::empty() =~= cat(c.map_values(vvecs()))); label_lens_all(e, h, c, cat(c.map_values(vvecs()))); }
  } else { ixv_body((*self)->Body_0); let z = seq![0usize]; assert(z[0] == 0); assert(forall|n: usize| z.contains(n) <==> n == 0); assert(forall|n: nat| #[trigger] ix_len(ixv(*self), n) <==> n == 0); } }
@loop 0
invariant *self is Labels, (*self)->labels == h, (*self)->empty == e, *self == (BlockBody::Labels { empty: e, labels: h }), lens_fit(ixv(*self)), 
  forall|i: int, n: nat| #![trigger ix_len(ixv(hm_pairs(h)[i].1), n)] 0 <= i < hm_pairs(h).len() && ix_len(ixv(hm_pairs(h)[i].1), n) ==> n + 1 <= usize::MAX, forall|i: int| 0 <= i < hm_pairs(h).len() ==> lens_fit(ixv((#[trigger] hm_pairs(h)[i]).1)),
  vx_it0.seq().len() == hm_pairs(h).len(), forall|k: int| 0 <= k < hm_pairs(h).len() ==> *(#[trigger] vx_it0.seq()[k]).1 == hm_pairs(h)[k].1,
  plus_ones(vx_c@, h, vx_it0.index@ as int),
@ghost loop 0 start
let ghost i = vx_it0.index@ as int;
let ghost y = ixv(*bodies);
proof { assert(decreases_to!(*self => (*self)->labels)); assert(decreases_to!(h => hm_pairs(h)[i])); assert(*bodies == hm_pairs(h)[i].1); }
@loop 1
invariant forall|n: nat| #[trigger] ix_len(y, n) ==> n + 1 <= usize::MAX, forall|n: nat| #[trigger] ix_len(y, n) <==> n <= usize::MAX && vx_it1.seq().contains(n as usize),
  shifted(vx_c@, vx_it1.seq()), vx_c@.len() == vx_it1.index@,
@ghost loop 1 start
proof { assert(vx_it1.seq()[vx_it1.index@ as int] == len); assert(vx_it1.seq().contains(len)); assert((len as nat) as usize == len); assert(ix_len(y, len as nat)); }
@ghost loop 1 after
proof { assert(plus_one(vx_c@, y)); }
@ghost loop 0 after
proof { assert(plus_ones(vx_c@, h, hm_pairs(h).len() as int)); let z = cat(vx_c@.map_values(vvecs())); 
 if e@.len() == 0 { assert(forall|n: nat| #[trigger] ix_len(ixv(*self), n) <==> n <= usize::MAX && z.contains(n as usize)); } else { assert(forall|n: nat| #[trigger] ix_len(ixv(*self), n) <==> n <= usize::MAX && (z + seq![0usize]).contains(n as usize)); } }
@ghost end
proof { if *self is Body { assert(bset(vx_ret).contains(0)); assert(forall|n: usize| bset(vx_ret).contains(n) <==> n == 0); } else if e@.len() > 0 { assert(forall|n: nat| #[trigger] ix_len(ixv(*self), n) ==> bset(vx_ret).contains(n as usize)); assert(forall|n: nat| #[trigger] ix_len(ixv(*self), n) <==> n <= usize::MAX && bset(vx_ret).contains(n as usize)); } else { assert(forall|n: nat| #[trigger] ix_len(ixv(*self), n) <==> n <= usize::MAX && bset(vx_ret).contains(n as usize)); } }

@fn parser::block::Blocks::label_lens -> r
@broadcast key_id_ref_str, key_id_cow
@call iter = &crate::vxp::hm_iter
@call borrow = crate::vxp::cow_str
@unfold collect hashmap
@spec
requires bs_lens_fit(bsv(*self))
ensures each(hm_map(r), bsv(*self), lens_ok())
@ghost start
let ghost h = self.blocks;
proof { bs_pairs(h); }
@loop 0
invariant vx_it0.seq().len() == hm_pairs(h).len(), forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]).0 == hm_pairs(h)[k].0 && *vx_it0.seq()[k].1 == hm_pairs(h)[k].1,
  bs_lens_fit(hm_view(h, vix())), forall|i: int| #![trigger hm_pairs(h)[i]] 0 <= i < hm_pairs(h).len() ==> hm_view(h, vix()).contains_key(key_id(&hm_pairs(h)[i].0)) && hm_view(h, vix())[key_id(&hm_pairs(h)[i].0)] == ixv(hm_pairs(h)[i].1),
  entered(hm_map(vx_c), h, vx_it0.index@ as int, lens_ok()),
@ghost loop 0 start
let ghost vx_before = hm_map(vx_c);
let ghost n = vx_it0.index@ as int;
proof { assert(*vx_it0.seq()[n].1 == hm_pairs(h)[n].1); let e = hm_pairs(h)[n]; assert(hm_view(h, vix()).contains_key(key_id(&e.0))); }
@ghost loop 0 end
proof { entered_step(vx_before, h, n, lens_ok(), hm_map(vx_c)[key_id(&hm_pairs(h)[n].0)]); }
@ghost end
proof { entered_all(hm_map(vx_ret), h, lens_ok()); }

@fn parser::block::Blocks::label_lens_uniform -> r
@broadcast key_id_ref_str, key_id_cow
@call iter = &crate::vxp::hm_iter
@call borrow = crate::vxp::cow_str
@unfold collect hashmap
@spec
requires bs_wf(bsv(*self)), bs_lens_fit(bsv(*self))
ensures each(hm_map(r), bsv(*self), uniform_ok())
@ghost start
let ghost h = self.blocks;
proof { bs_pairs(h); }
@loop 0
invariant vx_it0.seq().len() == hm_pairs(h).len(), forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]).0 == hm_pairs(h)[k].0 && *vx_it0.seq()[k].1 == hm_pairs(h)[k].1,
  bs_wf(hm_view(h, vix())), bs_lens_fit(hm_view(h, vix())), forall|i: int| #![trigger hm_pairs(h)[i]] 0 <= i < hm_pairs(h).len() ==> hm_view(h, vix()).contains_key(key_id(&hm_pairs(h)[i].0)) && hm_view(h, vix())[key_id(&hm_pairs(h)[i].0)] == ixv(hm_pairs(h)[i].1),
  entered(hm_map(vx_c), h, vx_it0.index@ as int, uniform_ok()),
@ghost loop 0 start
let ghost vx_before = hm_map(vx_c);
let ghost n = vx_it0.index@ as int;
proof { assert(*vx_it0.seq()[n].1 == hm_pairs(h)[n].1); let e = hm_pairs(h)[n]; assert(hm_view(h, vix()).contains_key(key_id(&e.0))); }
@ghost loop 0 end
proof { entered_step(vx_before, h, n, uniform_ok(), hm_map(vx_c)[key_id(&hm_pairs(h)[n].0)]); }
@ghost end
proof { entered_all(hm_map(vx_ret), h, uniform_ok()); }

@fn parser::block::Blocks::is_label_lens_uniform -> r
@broadcast key_id_ref_str, key_id_cow
@call iter = &crate::vxp::hm_iter
@call borrow = crate::vxp::cow_str
@unfold collect hashmap
@spec
requires bs_wf(bsv(*self)), bs_lens_fit(bsv(*self))
ensures each(hm_map(r), bsv(*self), is_uniform_ok())
@ghost start
let ghost h = self.blocks;
proof { bs_pairs(h); }
@loop 0
invariant vx_it0.seq().len() == hm_pairs(h).len(), forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]).0 == hm_pairs(h)[k].0 && *vx_it0.seq()[k].1 == hm_pairs(h)[k].1,
  bs_wf(hm_view(h, vix())), bs_lens_fit(hm_view(h, vix())), forall|i: int| #![trigger hm_pairs(h)[i]] 0 <= i < hm_pairs(h).len() ==> hm_view(h, vix()).contains_key(key_id(&hm_pairs(h)[i].0)) && hm_view(h, vix())[key_id(&hm_pairs(h)[i].0)] == ixv(hm_pairs(h)[i].1),
  entered(hm_map(vx_c), h, vx_it0.index@ as int, is_uniform_ok()),
@ghost loop 0 start
let ghost vx_before = hm_map(vx_c);
let ghost n = vx_it0.index@ as int;
proof { assert(*vx_it0.seq()[n].1 == hm_pairs(h)[n].1); let e = hm_pairs(h)[n]; assert(hm_view(h, vix()).contains_key(key_id(&e.0))); }
@ghost loop 0 end
proof { entered_step(vx_before, h, n, is_uniform_ok(), hm_map(vx_c)[key_id(&hm_pairs(h)[n].0)]); }
@ghost end
proof { entered_all(hm_map(vx_ret), h, is_uniform_ok()); }

@fn parser::block::body_flat_iter -> r
@lift parser::block::BlockBody::flat_iter <'a>(vx_self: &'a BlockBody<'a>) -> Vec<(VecDeque<&'a str>, &'a Body<'a>)>
@subst let iterators = Vec<Vec<(VecDeque<&'a str>, &'a Body<'a>)>>
@broadcast hm_height_at, fl_push, fls_push, take_all
@unfold map vec
@call new#1 = crate::vxp::vx_same
@call new#3 = crate::vxp::vx_same
@call new#4 = crate::vxp::vx_same
@call new#5 = crate::vxp::vx_same
@call flatten = crate::vxp::flat_list
@call iter#2 = crate::vxp::hm_iter
@call into_iter = crate::vxp::vec_into_iter
@call flat_iter = crate::parser::block::body_flat_iter
@spec
ensures fl(r@) == flat(*vx_self)
decreases *vx_self
@ghost start
let ghost x = *vx_self;
let ghost e = x->empty;
let ghost h = x->labels;
proof { if x is Labels { assert(x == BlockBody::Labels { empty: e, labels: h }); flat_labels(e, h); assert(bare(e@.take(0)) =~= Seq::empty()); } else { flat_body(x->Body_0); assert(bare(x->Body_0@.take(0)) =~= Seq::empty()); } }
@ghost loop 0 before
proof { assert(fl(Seq::empty()) =~= Seq::empty()); }
@loop 0
invariant vx_it0.seq().len() == bodies@.len(), forall|k: int| 0 <= k < bodies@.len() ==> *(#[trigger] vx_it0.seq()[k]) == bodies@[k], fl(vx_c@) == bare(bodies@.take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { bare_step(bodies@, vx_it0.index@ as int); let ghost z = vx_it0.seq()[vx_it0.index@ as int]; }
@ghost loop 0 end
proof { assert(fl_one(vx_c@.last()).0 =~= Seq::empty()); }
@ghost loop 1 before
proof { assert(fl(Seq::empty()) =~= Seq::empty()); }
@loop 1
invariant vx_it1.seq().len() == empty@.len(), forall|k: int| 0 <= k < empty@.len() ==> *(#[trigger] vx_it1.seq()[k]) == empty@[k], fl(vx_c@) == bare(empty@.take(vx_it1.index@ as int)),
@ghost loop 1 start
proof { bare_step(empty@, vx_it1.index@ as int); let ghost z = vx_it1.seq()[vx_it1.index@ as int]; }
@ghost loop 1 end
proof { assert(fl_one(vx_c@.last()).0 =~= Seq::empty()); }
@ghost loop 2 before
proof { assert(fls(iterators@) =~= seq![bare(e@)] + hm_pairs(h).map_values(vflat()).take(0)); }
@loop 2
invariant x is Labels, x->labels == h, x == *vx_self, vx_it2.seq().len() == hm_pairs(h).len(), forall|k: int| 0 <= k < hm_pairs(h).len() ==> *(#[trigger] vx_it2.seq()[k]).0 == hm_pairs(h)[k].0 && *vx_it2.seq()[k].1 == hm_pairs(h)[k].1,
  fls(iterators@) == seq![bare(e@)] + hm_pairs(h).map_values(vflat()).take(vx_it2.index@ as int),
@ghost loop 2 start
let ghost vx_l = *label;
let ghost vx_n = *nested;
let ghost i = vx_it2.index@ as int;
proof { assert(decreases_to!(x => x->labels)); assert(decreases_to!(h => hm_pairs(h)[i])); assert(hm_pairs(h)[i] == (vx_l, vx_n)); vflat_step(hm_pairs(h), i, bare(e@)); assert(pre(ltext(vx_l), flat(vx_n).take(0)) =~= Seq::empty()); assert(fl(Seq::empty()) =~= Seq::empty()); }
@loop 3
invariant *label == vx_l, fl(vx_it3.seq()) == flat(vx_n), fl(vx_c@) == pre(ltext(vx_l), flat(vx_n).take(vx_it3.index@ as int)),
@ghost loop 3 start
let ghost n = vx_it3.index@ as int;
let ghost p = (labels, body);
proof { pre_step(ltext(vx_l), flat(vx_n), n); assert(fl(vx_it3.seq())[n] == fl_one(vx_it3.seq()[n])); }
@ghost loop 3 end
proof { assert(fl_one(vx_c@.last()).0 =~= seq![ltext(vx_l)] + fl_one(p).0); }
@ghost loop 2 after
proof { fl_cat(iterators@); cat_first(bare(e@), hm_pairs(h).map_values(vflat())); }

@fn parser::block::body_flat_into_iter -> r
@lift parser::block::BlockBody::flat_into_iter <'a>(vx_self: BlockBody<'a>) -> Vec<(VecDeque<Cow<'a, str>>, Body<'a>)>
@subst let iterators = Vec<Vec<(VecDeque<Cow<'a, str>>, Body<'a>)>>
@broadcast hm_height_at, fo_push, fos_push, take_all
@unfold map vec
@call new#1 = crate::vxp::vx_same
@call new#3 = crate::vxp::vx_same
@call new#4 = crate::vxp::vx_same
@call new#5 = crate::vxp::vx_same
@call flatten = crate::vxp::flat_list
@call into_iter#0 = crate::vxp::vec_into_iter
@call into_iter#1 = crate::vxp::vec_into_iter
@call into_iter#2 = crate::vxp::hm_into_iter
@call into_iter#3 = crate::vxp::vec_into_iter
@call flat_into_iter = crate::parser::block::body_flat_into_iter
@spec
ensures fo(r@) == flat(vx_self)
decreases vx_self
@ghost start
let ghost x = vx_self;
let ghost e = x->empty;
let ghost h = x->labels;
proof { if x is Labels { assert(x == BlockBody::Labels { empty: e, labels: h }); flat_labels(e, h); assert(bare(e@.take(0)) =~= Seq::empty()); } else { flat_body(x->Body_0); assert(bare(x->Body_0@.take(0)) =~= Seq::empty()); } }
@ghost loop 0 before
proof { assert(fo(Seq::empty()) =~= Seq::empty()); }
@loop 0
invariant vx_it0.seq().len() == bodies@.len(), forall|k: int| 0 <= k < bodies@.len() ==> (#[trigger] vx_it0.seq()[k]) == bodies@[k], fo(vx_c@) == bare(bodies@.take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { bare_step(bodies@, vx_it0.index@ as int); let ghost z = vx_it0.seq()[vx_it0.index@ as int]; }
@ghost loop 0 end
proof { assert(fo_one(vx_c@.last()).0 =~= Seq::empty()); }
@ghost loop 1 before
proof { assert(fo(Seq::empty()) =~= Seq::empty()); }
@loop 1
invariant vx_it1.seq().len() == empty@.len(), forall|k: int| 0 <= k < empty@.len() ==> (#[trigger] vx_it1.seq()[k]) == empty@[k], fo(vx_c@) == bare(empty@.take(vx_it1.index@ as int)),
@ghost loop 1 start
proof { bare_step(empty@, vx_it1.index@ as int); let ghost z = vx_it1.seq()[vx_it1.index@ as int]; }
@ghost loop 1 end
proof { assert(fo_one(vx_c@.last()).0 =~= Seq::empty()); }
@ghost loop 2 before
proof { assert(fos(iterators@) =~= seq![bare(e@)] + hm_pairs(h).map_values(vflat()).take(0)); }
@loop 2
invariant x is Labels, x->labels == h, x == vx_self, vx_it2.seq().len() == hm_pairs(h).len(), forall|k: int| 0 <= k < hm_pairs(h).len() ==> (#[trigger] vx_it2.seq()[k]) == hm_pairs(h)[k],
  fos(iterators@) == seq![bare(e@)] + hm_pairs(h).map_values(vflat()).take(vx_it2.index@ as int),
@ghost loop 2 start
let ghost vx_l = label;
let ghost vx_n = nested;
let ghost i = vx_it2.index@ as int;
proof { assert(decreases_to!(x => x->labels)); assert(decreases_to!(h => hm_pairs(h)[i])); assert(hm_pairs(h)[i] == (vx_l, vx_n)); vflat_step(hm_pairs(h), i, bare(e@)); assert(pre(ltext(vx_l), flat(vx_n).take(0)) =~= Seq::empty()); assert(fo(Seq::empty()) =~= Seq::empty()); }
@loop 3
invariant label == vx_l, fo(vx_it3.seq()) == flat(vx_n), fo(vx_c@) == pre(ltext(vx_l), flat(vx_n).take(vx_it3.index@ as int)),
@ghost loop 3 start
let ghost n = vx_it3.index@ as int;
let ghost p = (labels, body);
proof { pre_step(ltext(vx_l), flat(vx_n), n); assert(fo(vx_it3.seq())[n] == fo_one(vx_it3.seq()[n])); }
@ghost loop 3 end
proof { assert(fo_one(vx_c@.last()).0 =~= seq![ltext(vx_l)] + fo_one(p).0); }
@ghost loop 2 after
proof { fo_cat(iterators@); cat_first(bare(e@), hm_pairs(h).map_values(vflat())); }

@fn parser::block::blocks_flat_iter -> r
@lift parser::block::Blocks::flat_iter <'a>(vx_self: &'a Blocks<'a>) -> Vec<(&'a str, VecDeque<&'a str>, &'a Body<'a>)>
@broadcast ft_push, fts_push, take_all
@unfold map vec
@call flatten = crate::vxp::flat_list
@call iter = &crate::vxp::hm_iter
@call borrow = crate::vxp::cow_str
@call flat_iter = crate::parser::block::body_flat_iter
@spec
ensures ft(r@) == bflat(bs_map(*vx_self))
@ghost start
let ghost h = vx_self.blocks;
@ghost loop 0 before
proof { assert(fts(Seq::empty()) =~= hm_pairs(h).map_values(vtflat()).take(0)); }
@loop 0
invariant vx_it0.seq().len() == hm_pairs(h).len(), forall|k: int| 0 <= k < hm_pairs(h).len() ==> *(#[trigger] vx_it0.seq()[k]).0 == hm_pairs(h)[k].0 && *vx_it0.seq()[k].1 == hm_pairs(h)[k].1,
  fts(vx_c@) == hm_pairs(h).map_values(vtflat()).take(vx_it0.index@ as int),
@ghost loop 0 start
let ghost vx_t = block_type@;
let ghost vx_b = *blocks;
let ghost i = vx_it0.index@ as int;
proof { assert(vx_it0.seq()[i] == (block_type, blocks)); let z = hm_pairs(h)[i]; assert(vx_t == z.0@ && vx_b == z.1); vtflat_step(hm_pairs(h), i); assert(typ(vx_t, flat(vx_b).take(0)) =~= Seq::empty()); assert(ft(Seq::empty()) =~= Seq::empty()); }
@loop 1
invariant block_type@ == vx_t, fl(vx_it1.seq()) == flat(vx_b), ft(vx_c@) == typ(vx_t, flat(vx_b).take(vx_it1.index@ as int)),
@ghost loop 1 start
proof { let j = vx_it1.index@ as int; typ_step(vx_t, flat(vx_b), j); assert(fl(vx_it1.seq())[j] == fl_one(vx_it1.seq()[j])); }
@ghost loop 0 after
proof { ft_cat(vx_c@); }

@fn parser::block::blocks_flat_into_iter -> r
@lift parser::block::Blocks::flat_into_iter <'a>(vx_self: Blocks<'a>) -> Vec<(Cow<'a, str>, VecDeque<Cow<'a, str>>, Body<'a>)>
@broadcast fq_push, fqs_push, take_all
@unfold map vec
@call flatten = crate::vxp::flat_list
@call into_iter = crate::vxp::hm_into_iter
@call clone = &crate::vxp::cow_clone
@call flat_into_iter = crate::parser::block::body_flat_into_iter
@spec
ensures fq(r@) == bflat(bs_map(vx_self))
@ghost start
let ghost h = vx_self.blocks;
@ghost loop 0 before
proof { assert(fqs(Seq::empty()) =~= hm_pairs(h).map_values(vtflat()).take(0)); }
@loop 0
invariant vx_it0.seq().len() == hm_pairs(h).len(), forall|k: int| 0 <= k < hm_pairs(h).len() ==> (#[trigger] vx_it0.seq()[k]) == hm_pairs(h)[k],
  fqs(vx_c@) == hm_pairs(h).map_values(vtflat()).take(vx_it0.index@ as int),
@ghost loop 0 start
let ghost vx_t = block_type@;
let ghost vx_b = blocks;
let ghost i = vx_it0.index@ as int;
proof { assert(vx_it0.seq()[i] == (block_type, blocks)); let z = hm_pairs(h)[i]; assert(vx_t == z.0@ && vx_b == z.1); vtflat_step(hm_pairs(h), i); assert(typ(vx_t, flat(vx_b).take(0)) =~= Seq::empty()); assert(fq(Seq::empty()) =~= Seq::empty()); }
@loop 1
invariant block_type@ == vx_t, fo(vx_it1.seq()) == flat(vx_b), fq(vx_c@) == typ(vx_t, flat(vx_b).take(vx_it1.index@ as int)),
@ghost loop 1 start
proof { let j = vx_it1.index@ as int; typ_step(vx_t, flat(vx_b), j); assert(fo(vx_it1.seq())[j] == fo_one(vx_it1.seq()[j])); }
@ghost loop 0 after
proof { fq_cat(vx_c@); }

@fn parser::block::body_flat_iter_mut -> r
@lift parser::block::BlockBody::flat_iter_mut <'a>(vx_self: &'a mut BlockBody<'a>) -> Vec<(VecDeque<&'a str>, &'a mut Body<'a>)>
@subst let iterators = Vec<Vec<(VecDeque<&'a str>, &'a mut Body<'a>)>>
@broadcast hm_height_at, gn_push, gns_push, gf_push, gfs_push, take_all, flat_def
@unfold map vec
@call new#1 = crate::vxp::vx_same
@call new#3 = crate::vxp::vx_same
@call new#4 = crate::vxp::vx_same
@call new#5 = crate::vxp::vx_same
@call flatten = crate::vxp::flat_list
@call iter_mut#0 = crate::vxp::vec_iter_mut
@call iter_mut#1 = crate::vxp::vec_iter_mut
@call iter_mut#2 = crate::vxp::hm_iter_mut
@call into_iter = crate::vxp::vec_into_iter
@call flat_iter_mut = crate::parser::block::body_flat_iter_mut
@spec
ensures gn(r@) == flat(*old(vx_self)), gf(r@) == flat(*final(vx_self))
decreases *vx_self
@ghost start
let ghost x = *vx_self;
let ghost e = x->empty;
let ghost h = x->labels;
proof { if x is Labels { assert(x == BlockBody::Labels { empty: e, labels: h }); } }
@loop 0
invariant gn(vx_c@) == bare(now(vx_it0.seq()).take(vx_it0.index@ as int)), gf(vx_c@) == bare(fin(vx_it0.seq()).take(vx_it0.index@ as int)),
@ghost loop 0 start
proof { let j = vx_it0.index@ as int; bare_step(now(vx_it0.seq()), j); bare_step(fin(vx_it0.seq()), j); assert(now(vx_it0.seq())[j] == *vx_it0.seq()[j]); assert(fin(vx_it0.seq())[j] == *final(vx_it0.seq()[j])); }
@ghost loop 0 end
proof { assert(gn_one(vx_c@.last()).0 =~= Seq::empty()); }
@ghost loop 0 before
proof { assert(gn(Seq::empty()) =~= Seq::empty()); assert(gf(Seq::empty()) =~= Seq::empty()); assert(bare(Seq::<Body<'a>>::empty()) =~= Seq::empty()); assert forall|s: Seq<Body<'a>>| #[trigger] s.take(0) == Seq::<Body<'a>>::empty() by { assert(s.take(0) =~= Seq::empty()); } }
@loop 1
invariant gn(vx_c@) == bare(now(vx_it1.seq()).take(vx_it1.index@ as int)), gf(vx_c@) == bare(fin(vx_it1.seq()).take(vx_it1.index@ as int)),
@ghost loop 1 start
proof { let j = vx_it1.index@ as int; bare_step(now(vx_it1.seq()), j); bare_step(fin(vx_it1.seq()), j); assert(now(vx_it1.seq())[j] == *vx_it1.seq()[j]); assert(fin(vx_it1.seq())[j] == *final(vx_it1.seq()[j])); }
@ghost loop 1 end
proof { assert(gn_one(vx_c@.last()).0 =~= Seq::empty()); }
@ghost loop 1 before
proof { assert(gn(Seq::empty()) =~= Seq::empty()); assert(gf(Seq::empty()) =~= Seq::empty()); assert(bare(Seq::<Body<'a>>::empty()) =~= Seq::empty()); assert forall|s: Seq<Body<'a>>| #[trigger] s.take(0) == Seq::<Body<'a>>::empty() by { assert(s.take(0) =~= Seq::empty()); } }

@ghost loop 2 before
let ghost f0 = gf(iterators@[0]@);
let ghost n0 = gn(iterators@[0]@);
proof { assert(gns(iterators@) =~= seq![n0]); assert(gfs(iterators@) =~= seq![f0]); assert forall|s: Seq<Seq<(Seq<Seq<char>>, Body<'a>)>>| seq![n0] + #[trigger] s.take(0) == seq![n0] && seq![f0] + s.take(0) == seq![f0] by { assert(seq![n0] + s.take(0) =~= seq![n0]); assert(seq![f0] + s.take(0) =~= seq![f0]); } }
@loop 2
invariant x is Labels, x->labels == h, x == *old(vx_self), pnow(vx_it2.seq()) == hm_pairs(h),
  gns(iterators@) == seq![n0] + pnow(vx_it2.seq()).map_values(vflat()).take(vx_it2.index@ as int),
  gfs(iterators@) == seq![f0] + pfin(vx_it2.seq()).map_values(vflat()).take(vx_it2.index@ as int),
@ghost loop 2 start
let ghost vx_l = *label;
let ghost vx_n = *nested;
let ghost vx_f = *final(nested);
let ghost i = vx_it2.index@ as int;
proof { assert(decreases_to!(x => x->labels)); assert(decreases_to!(h => hm_pairs(h)[i])); assert(pnow(vx_it2.seq())[i] == (vx_l, vx_n)); assert(pfin(vx_it2.seq())[i] == (vx_l, vx_f)); vflat_step(pnow(vx_it2.seq()), i, n0); vflat_step(pfin(vx_it2.seq()), i, f0);
  assert(gn(Seq::empty()) =~= Seq::empty()); assert(gf(Seq::empty()) =~= Seq::empty()); assert forall|s: Seq<(Seq<Seq<char>>, Body<'a>)>| pre(ltext(vx_l), #[trigger] s.take(0)) == Seq::<(Seq<Seq<char>>, Body<'a>)>::empty() by { assert(pre(ltext(vx_l), s.take(0)) =~= Seq::empty()); } }
@loop 3
invariant *label == vx_l, gn(vx_it3.seq()) == flat(vx_n), gf(vx_it3.seq()) == flat(vx_f), gn(vx_c@) == pre(ltext(vx_l), flat(vx_n).take(vx_it3.index@ as int)), gf(vx_c@) == pre(ltext(vx_l), flat(vx_f).take(vx_it3.index@ as int)),
@ghost loop 3 start
let ghost n = vx_it3.index@ as int;
let ghost p = labels@.map_values(|t: &'a str| t@);
proof { pre_step(ltext(vx_l), flat(vx_n), n); pre_step(ltext(vx_l), flat(vx_f), n); assert(gn(vx_it3.seq())[n] == gn_one(vx_it3.seq()[n])); assert(gf(vx_it3.seq())[n] == gf_one(vx_it3.seq()[n])); }
@ghost loop 3 end
proof { assert(gn_one(vx_c@.last()).0 =~= seq![ltext(vx_l)] + p); }
@ghost loop 2 after
proof { gn_cat(iterators@); gf_cat(iterators@); assert forall|s: Seq<(BlockLabel<'a>, BlockBody<'a>)>| cat(seq![n0] + #[trigger] s.map_values(vflat())) == n0 + cat(s.map_values(vflat())) && cat(seq![f0] + s.map_values(vflat())) == f0 + cat(s.map_values(vflat())) by { cat_first(n0, s.map_values(vflat())); cat_first(f0, s.map_values(vflat())); } }

@fn parser::block::blocks_flat_iter_mut -> r
@lift parser::block::Blocks::flat_iter_mut <'a>(vx_self: &'a mut Blocks<'a>) -> Vec<(&'a str, VecDeque<&'a str>, &'a mut Body<'a>)>
@broadcast hn_push, hns_push, hf_push, hfs_push, take_all
@unfold map vec
@call flatten = crate::vxp::flat_list
@call iter_mut = &mut crate::vxp::hm_iter_mut
@call borrow = crate::vxp::cow_str
@call flat_iter_mut = crate::parser::block::body_flat_iter_mut
@spec
ensures hn(r@) == bflat(bs_map(*old(vx_self))), hf(r@) == bflat(bs_map(*final(vx_self)))
@ghost start
let ghost h = vx_self.blocks;
@ghost loop 0 before
proof { assert forall|s: Seq<Seq<((Seq<char>, Seq<Seq<char>>), Body<'a>)>>| #[trigger] s.take(0) == Seq::<Seq<((Seq<char>, Seq<Seq<char>>), Body<'a>)>>::empty() by { assert(s.take(0) =~= Seq::empty()); } assert(hns(Seq::empty()) =~= Seq::empty()); assert(hfs(Seq::empty()) =~= Seq::empty()); }
@loop 0
invariant pnow(vx_it0.seq()) == hm_pairs(h),
  hns(vx_c@) == pnow(vx_it0.seq()).map_values(vtflat()).take(vx_it0.index@ as int),
  hfs(vx_c@) == pfin(vx_it0.seq()).map_values(vtflat()).take(vx_it0.index@ as int),
@ghost loop 0 start
let ghost vx_t = block_type@;
let ghost vx_b = *blocks;
let ghost vx_f = *final(blocks);
let ghost i = vx_it0.index@ as int;
proof { assert(pnow(vx_it0.seq())[i] == (*block_type, vx_b)); assert(pfin(vx_it0.seq())[i] == (*block_type, vx_f)); vtflat_step(pnow(vx_it0.seq()), i); vtflat_step(pfin(vx_it0.seq()), i);
  assert forall|s: Seq<(Seq<Seq<char>>, Body<'a>)>| typ(vx_t, #[trigger] s.take(0)) == Seq::<((Seq<char>, Seq<Seq<char>>), Body<'a>)>::empty() by { assert(typ(vx_t, s.take(0)) =~= Seq::empty()); }
  assert(hn(Seq::empty()) =~= Seq::empty()); assert(hf(Seq::empty()) =~= Seq::empty()); }
@loop 1
invariant block_type@ == vx_t, gn(vx_it1.seq()) == flat(vx_b), gf(vx_it1.seq()) == flat(vx_f), hn(vx_c@) == typ(vx_t, flat(vx_b).take(vx_it1.index@ as int)), hf(vx_c@) == typ(vx_t, flat(vx_f).take(vx_it1.index@ as int)),
@ghost loop 1 start
proof { let j = vx_it1.index@ as int; typ_step(vx_t, flat(vx_b), j); typ_step(vx_t, flat(vx_f), j); assert(gn(vx_it1.seq())[j] == gn_one(vx_it1.seq()[j])); assert(gf(vx_it1.seq())[j] == gf_one(vx_it1.seq()[j])); }
@ghost loop 0 after
proof { hn_cat(vx_c@); hf_cat(vx_c@); }

@fn parser::block::blocks_iter -> r
@lift parser::block::Blocks::iter <'b, 'a>(vx_self: &'b Blocks<'a>) -> Vec<(&'b Identifier<'a>, &'b BlockBody<'a>)>
@call iter = &crate::vxp::hm_refs
@spec
ensures prefs(r@) == hm_pairs(bs_map(*vx_self))
@fn parser::block::blocks_iter_mut -> r
@lift parser::block::Blocks::iter_mut <'b, 'a>(vx_self: &'b mut Blocks<'a>) -> Vec<(&'b Identifier<'a>, &'b mut BlockBody<'a>)>
@call iter_mut = &mut crate::vxp::hm_iter_mut
@spec
ensures pnow(r@) == hm_pairs(bs_map(*old(vx_self))), pfin(r@) == hm_pairs(bs_map(*final(vx_self)))
@fn parser::block::blocks_into_iter -> r
@lift parser::block::<Blocks as IntoIterator>::into_iter <'a>(vx_self: Blocks<'a>) -> Vec<(Identifier<'a>, BlockBody<'a>)>
@call into_iter = crate::vxp::hm_into_iter
@spec
ensures r@ == hm_pairs(bs_map(vx_self))
@fn parser::block::blocks_ref_into_iter -> r
@lift parser::block::<&Blocks as IntoIterator>::into_iter <'b, 'a>(vx_self: &'b Blocks<'a>) -> Vec<(&'b Identifier<'a>, &'b BlockBody<'a>)>
@call iter = crate::parser::block::blocks_iter
@spec
ensures prefs(r@) == hm_pairs(bs_map(*vx_self))
@fn parser::block::blocks_mut_into_iter -> r
@lift parser::block::<&mut Blocks as IntoIterator>::into_iter <'b, 'a>(vx_self: &'b mut Blocks<'a>) -> Vec<(&'b Identifier<'a>, &'b mut BlockBody<'a>)>
@call iter_mut = crate::parser::block::blocks_iter_mut
@spec
ensures pnow(r@) == hm_pairs(bs_map(*old(vx_self))), pfin(r@) == hm_pairs(bs_map(*final(vx_self)))
@fn parser::block::label_is_text -> r
@lift parser::block::<BlockLabel as PartialEq<S>>::eq <'a, S: AsRef<str>>(vx_self: &BlockLabel<'a>, other: &S) -> bool
@call as_ref = crate::vxp::as_str_of
@call eq#0 = crate::vxp::string_is
@call eq#1 = crate::vxp::cow_is
@spec
ensures r == (ltext(*vx_self) == text_of(*other))
@fn parser::block::label_of_text -> r
@lift parser::block::<BlockLabel as From<&str>>::from <'a>(s: &'a str) -> BlockLabel<'a>
@spec
ensures ltext(r) == s@
