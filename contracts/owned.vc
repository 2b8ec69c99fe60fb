// owned copies of the syntax tree (AsOwned)
@fn str_as_owned -> r
@lift <str as AsOwned>::as_owned (vx_self: &str) -> String
@subst Self = str
@broadcast to_string_str
@spec
ensures r@ == vx_self@

@fn parser::number::exponent_as_owned -> r
@lift parser::number::<Exponent as AsOwned>::as_owned <'a>(vx_self: &Exponent<'a>) -> Exponent<'static>
@subst Self = Exponent<'a>
@broadcast to_string_cow
@spec
ensures ecow(r) == ecow(*vx_self)

@fn opt_exponent_as_owned -> r
@lift <Option<T> as AsOwned>::as_owned <'a>(vx_self: &Option<crate::parser::number::Exponent<'a>>) -> Option<crate::parser::number::Exponent<'static>>
@subst T = crate::parser::number::Exponent<'a>
@call as_owned = &crate::parser::number::exponent_as_owned
@spec
ensures oexp(r) == oexp(*vx_self)

@fn parser::number::number_as_owned -> r
@lift parser::number::<Number as AsOwned>::as_owned <'a>(vx_self: &Number<'a>) -> Number<'static>
@subst Self = Number<'a>
@broadcast to_string_cow
@unfold map option
@call as_owned = &crate::opt_exponent_as_owned
@spec
ensures nview(r) == nview(*vx_self)

@fn parser::object::id_as_owned -> r
@lift parser::object::<ObjectElementIdentifier as crate::AsOwned>::as_owned <'a>(vx_self: &ObjectElementIdentifier<'a>) -> ObjectElementIdentifier<'static>
@subst Self = ObjectElementIdentifier<'a>
@call as_owned = crate::vxp::cow_as_owned
@spec
ensures iview(r) == iview(*vx_self)

@fn pair_as_owned -> r
@lift <(K,V) as AsOwned>::as_owned <'a>(vx_self: &(crate::parser::object::ObjectElementIdentifier<'a>, crate::parser::expression::Expression<'a>)) -> (crate::parser::object::ObjectElementIdentifier<'static>, crate::parser::expression::Expression<'static>)
@subst Self = (crate::parser::object::ObjectElementIdentifier<'a>, crate::parser::expression::Expression<'a>)
@call as_owned#0 = &crate::parser::object::id_as_owned
@call as_owned#1 = &crate::parser::expression::expression_as_owned
@spec
ensures vobj()(r) == vobj()(*vx_self)
decreases vx_self, 0nat

@fn vec_pair_as_owned -> r
@lift <Vec<T> as AsOwned>::as_owned <'a>(vx_self: &Vec<(crate::parser::object::ObjectElementIdentifier<'a>, crate::parser::expression::Expression<'a>)>) -> Vec<(crate::parser::object::ObjectElementIdentifier<'static>, crate::parser::expression::Expression<'static>)>
@unfold collect vec
@call as_owned = crate::pair_as_owned
@spec
ensures r@.map_values(vobj()) == vx_self@.map_values(vobj())
decreases vx_self, 0nat
@loop 0
invariant vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  vx_c@.map_values(vobj()) == vx_self@.take(vx_it0.index@ as int).map_values(vobj()),
@ghost loop 0 end
proof { assert(vx_self@.take(vx_it0.index@ + 1).map_values(vobj()) =~= vx_self@.take(vx_it0.index@ as int).map_values(vobj()).push(vobj()(vx_self@[vx_it0.index@ as int]))); }

@fn vec_expression_as_owned -> r
@lift <Vec<T> as AsOwned>::as_owned <'a>(vx_self: &Vec<crate::parser::expression::Expression<'a>>) -> Vec<crate::parser::expression::Expression<'static>>
@unfold collect vec
@call as_owned = crate::parser::expression::expression_as_owned
@spec
ensures r@.map_values(vexpr()) == vx_self@.map_values(vexpr())
decreases vx_self, 0nat
@loop 0
invariant vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  vx_c@.map_values(vexpr()) == vx_self@.take(vx_it0.index@ as int).map_values(vexpr()),
@ghost loop 0 end
proof { assert(vx_self@.take(vx_it0.index@ + 1).map_values(vexpr()) =~= vx_self@.take(vx_it0.index@ as int).map_values(vexpr()).push(vexpr()(vx_self@[vx_it0.index@ as int]))); }

@fn parser::expression::expression_as_owned -> r
@lift parser::expression::<Expression as crate::AsOwned>::as_owned <'a>(vx_self: &Expression<'a>) -> Expression<'static>
@subst Self = Expression<'a>
@broadcast to_string_cow, eview_tuple, eview_object
@call as_owned#0 = crate::parser::number::number_as_owned
@call as_owned#1 = crate::vec_expression_as_owned
@call as_owned#2 = crate::vec_pair_as_owned
@spec
ensures eview(r) == eview(*vx_self)
decreases vx_self, 1nat

@fn parser::attribute::attribute_as_owned -> r
@lift parser::attribute::<Attribute as crate::AsOwned>::as_owned <'a>(vx_self: &Attribute<'a>) -> Attribute<'static>
@subst Self = Attribute<'a>
@call as_owned#0 = &crate::vxp::cow_as_owned
@call as_owned#1 = &crate::parser::expression::expression_as_owned
@spec
ensures vattr()(r) == vattr()(*vx_self)

@fn parser::block::label_as_owned -> r
@lift parser::block::<BlockLabel as crate::AsOwned>::as_owned <'a>(vx_self: &BlockLabel<'a>) -> BlockLabel<'static>
@subst Self = BlockLabel<'a>
@call as_owned = crate::vxp::cow_as_owned
@spec
ensures lview(r) == lview(*vx_self)

@fn vec_label_as_owned -> r
@lift <Vec<T> as AsOwned>::as_owned <'a>(vx_self: &Vec<crate::parser::block::BlockLabel<'a>>) -> Vec<crate::parser::block::BlockLabel<'static>>
@unfold collect vec
@call as_owned = crate::parser::block::label_as_owned
@spec
ensures r@.map_values(vlabel()) == vx_self@.map_values(vlabel())
@loop 0
invariant vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  vx_c@.map_values(vlabel()) == vx_self@.take(vx_it0.index@ as int).map_values(vlabel()),
@ghost loop 0 end
proof { assert(vx_self@.take(vx_it0.index@ + 1).map_values(vlabel()) =~= vx_self@.take(vx_it0.index@ as int).map_values(vlabel()).push(vlabel()(vx_self@[vx_it0.index@ as int]))); }

@fn vec_element_as_owned -> r
@lift <Vec<T> as AsOwned>::as_owned <'a>(vx_self: &Vec<crate::parser::body::BodyElement<'a>>) -> Vec<crate::parser::body::BodyElement<'static>>
@unfold collect vec
@call as_owned = crate::parser::body::element_as_owned
@spec
ensures r@.map_values(vbody()) == vx_self@.map_values(vbody())
decreases vx_self, 0nat
@loop 0
invariant vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_self@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vx_self@[k],
  vx_c@.map_values(vbody()) == vx_self@.take(vx_it0.index@ as int).map_values(vbody()),
@ghost loop 0 end
proof { assert(vx_self@.take(vx_it0.index@ + 1).map_values(vbody()) =~= vx_self@.take(vx_it0.index@ as int).map_values(vbody()).push(vbody()(vx_self@[vx_it0.index@ as int]))); }

@fn parser::body::element_as_owned -> r
@lift parser::body::<BodyElement as crate::AsOwned>::as_owned <'a>(vx_self: &BodyElement<'a>) -> BodyElement<'static>
@subst Self = BodyElement<'a>
@broadcast bview_block
@call as_owned#0 = crate::parser::attribute::attribute_as_owned
@call as_owned#1 = crate::parser::block::block_as_owned
@spec
ensures bview(r) == bview(*vx_self)
decreases vx_self, 2nat

@fn parser::block::block_as_owned -> r
@lift parser::block::<Block as crate::AsOwned>::as_owned <'a>(vx_self: &Block<'a>) -> Block<'static>
@subst Self::Output = Block<'static>
@subst Self = Block<'a>
@broadcast bview_block
@call as_owned#0 = &crate::vxp::cow_as_owned
@call as_owned#1 = &crate::vec_label_as_owned
@call as_owned#2 = &crate::vec_element_as_owned
@spec
ensures vblock()(r) == vblock()(*vx_self)
decreases vx_self, 1nat

@fn cow_as_owned -> r
@lift <Cow<B> as AsOwned>::as_owned <'a>(vx_self: &std::borrow::Cow<'a, str>) -> std::borrow::Cow<'static, String>
@subst B = str
@call deref = crate::vxp::cow_str
@call as_owned = crate::str_as_owned
@spec
ensures r matches std::borrow::Cow::Owned(s) && s@ == vx_self@
