// serde/de.rs
@type serde::de::error::Error
@type serde::de::error::Compat
@type serde::de::object::ObjectMapAccess
@type serde::de::body::BodyValue
@type serde::de::body::Deserializer
@type serde::de::body::MapAccess
@inject serde::de::object
pub closed spec fn oma_iter<'de>(a: ObjectMapAccess<'de>) -> std::vec::IntoIter<(ObjectElementIdentifier<'de>, Expression<'de>)> { a.iterator }
pub closed spec fn oma_value<'de>(a: ObjectMapAccess<'de>) -> Option<Expression<'de>> { a.expression }
pub closed spec fn oma_seen<'de>(a: ObjectMapAccess<'de>) -> Set<Seq<char>> { crate::vxp::names(a.seen_keys) }
@fn serde::de::deserialize_string -> r
@call visit_borrowed_str = crate::vxp::tell_borrowed
@call visit_string = crate::vxp::tell_string
@spec
ensures visits($p1, told_string($p0), r)
@fn serde::de::deserialize_number -> r
@broadcast question_mark, wrapped_inside
@unfold map_err result
@call visit_f64 = crate::vxp::tell_f64
@call visit_u64 = crate::vxp::tell_u64
@call visit_i64 = crate::vxp::tell_i64
@spec
ensures tells_number($p1, $p0, r)
@fn serde::de::deserialize_tuple -> r
@broadcast wrapped_inside
@call into_deserializer = crate::vxp::exprs_deserializer
@call visit_seq = crate::vxp::tell_exprs
@spec
ensures tells_tuple($p1, $p0@, $p2, r)
@fn serde::de::deserialize_object -> r
@call visit_map = crate::vxp::tell_object
@spec
ensures visits($p1, Told::Object($p0@), r)

@fn serde::de::error::<Error as From<crate::Error>>::from -> r
ensures r == Error::ParseError($p0)
@fn serde::de::error::<Error as From<std::num::ParseIntError>>::from -> r
ensures r == Error::ParseIntError($p0)
@fn serde::de::error::<Error as From<std::num::ParseFloatError>>::from -> r
ensures r == Error::ParseFloatError($p0)
@fn serde::de::error::de_parse_error -> r
@lift serde::de::error::<Error as From<nom::Err<I,u32>>>::from <I: nom::AsBytes + AsRef<str> + std::fmt::Debug>(e: nom::Err<I, u32>) -> Error
@spec
ensures r matches Error::ParseError(x) && err_carries(x, e, tx_text())
@fn serde::de::error::<Compat as From<Error>>::from -> r
@call compat = crate::vxp::compat_of_error
@spec
ensures de_error(r) == $p0
@fn serde::de::error::<Compat as From<crate::Error>>::from -> r
@broadcast wrapped_inside
@spec
ensures de_error(r) == Error::ParseError($p0)
@fn serde::de::error::<Error as From<Compat>>::from -> r
@call into_inner = crate::vxp::compat_into_inner
@spec
ensures r == de_error($p0)

@fn serde::de::object::ObjectMapAccess::new -> r
@call into_iter = crate::vxp::left_of
@call default#1 = crate::vxp::names_none
@spec
ensures oma_left(r) == $p0@, oma_value(r) is None, oma_seen(r) == Set::<Seq<char>>::empty()
@fn serde::de::object::next_key -> r
@lift serde::de::object::<ObjectMapAccess as MapAccess>::next_key_seed <'de, K: DeserializeSeed<'de>>(vx_self: &mut ObjectMapAccess<'de>, seed: K) -> Result<Option<K::Value>, Compat>
@broadcast to_string_cow
@unfold map result
@call next = &mut crate::vxp::left_next
@call custom = crate::vxp::custom_error
@call insert = &mut crate::vxp::names_add
@call into_deserializer = crate::vxp::name_deserializer
@call deserialize = crate::vxp::seed_name
@call into = crate::serde::de::error::compat_from
@call clone = &crate::vxp::cow_clone
@spec
ensures oma_key(*old(vx_self), *final(vx_self), seed, r)

@fn serde::de::error::compat_from -> r
@lift serde::de::error::<Compat as From<Error>>::from (e: Error) -> Compat
@call compat = crate::vxp::compat_of_error
@spec
ensures de_error(r) == e
@fn serde::de::object::next_value -> r
@lift serde::de::object::<ObjectMapAccess as MapAccess>::next_value_seed <'de, V: DeserializeSeed<'de>>(vx_self: &mut ObjectMapAccess<'de>, seed: V) -> Result<V::Value, Compat>
@call deserialize = crate::vxp::seed_expr
@spec
requires oma_value(*old(vx_self)) is Some
ensures seeds(seed, Told::Expr(oma_value(*old(vx_self))->Some_0), r), oma_value(*final(vx_self)) is None, oma_left(*final(vx_self)) == oma_left(*old(vx_self)), oma_seen(*final(vx_self)) == oma_seen(*old(vx_self))
@fn serde::de::object::left_entries -> r
@lift serde::de::object::<ObjectMapAccess as MapAccess>::size_hint <'de>(vx_self: &ObjectMapAccess<'de>) -> Option<usize>
@call size_hint = &crate::vxp::left_hint
@spec
ensures r matches Some(n) && n == oma_left(*vx_self).len()

@fn serde::de::expression::expr_any -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_any <'de, V: Visitor<'de>>(vx_self: Expression<'de>, visitor: V) -> Result<V::Value, Compat>
@call visit_unit = crate::vxp::tell_unit
@call visit_bool = crate::vxp::tell_bool
@spec
ensures tells_expr(visitor, vx_self, r)
@fn serde::de::expression::expr_option -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_option <'de, V: Visitor<'de>>(vx_self: Expression<'de>, visitor: V) -> Result<V::Value, Compat>
@call visit_none = crate::vxp::tell_none
@call visit_some = crate::vxp::tell_some
@spec
ensures visits(visitor, if vx_self is Null { Told::Nothing } else { Told::Something(vx_self) }, r)
@fn serde::de::expression::expr_newtype_struct -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_newtype_struct <'de, V: Visitor<'de>>(vx_self: Expression<'de>, _name: &'static str, visitor: V) -> Result<V::Value, Compat>
@call visit_newtype_struct = crate::vxp::tell_newtype
@spec
ensures visits(visitor, Told::Newtype(vx_self), r)
@fn serde::de::expression::expr_tuple -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_tuple <'de, V: Visitor<'de>>(vx_self: Expression<'de>, len: usize, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::expression::expr_any
@spec
ensures match vx_self { Expression::Tuple(t) => tells_tuple(visitor, t@, Some(len), r), _ => tells_expr(visitor, vx_self, r) }
@fn serde::de::expression::expr_tuple_struct -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_tuple_struct <'de, V: Visitor<'de>>(vx_self: Expression<'de>, _name: &'static str, len: usize, visitor: V) -> Result<V::Value, Compat>
@call deserialize_tuple = crate::serde::de::expression::expr_tuple
@spec
ensures match vx_self { Expression::Tuple(t) => tells_tuple(visitor, t@, Some(len), r), _ => tells_expr(visitor, vx_self, r) }
@fn serde::de::expression::expr_itself -> r
@lift serde::de::expression::<Expression as IntoDeserializer<Compat>>::into_deserializer <'de>(vx_self: Expression<'de>) -> Expression<'de>
@spec
ensures r == vx_self
@fn serde::de::expression::expr_bool -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_bool <'de, V: Visitor<'de>>(vx_self: Expression<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::expression::expr_any
@spec
ensures tells_expr(visitor, vx_self, r)
@fn serde::de::expression::expr_i8 -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_i8 <'de, V: Visitor<'de>>(vx_self: Expression<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::expression::expr_any
@spec
ensures tells_expr(visitor, vx_self, r)
@fn serde::de::expression::expr_i16 -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_i16 <'de, V: Visitor<'de>>(vx_self: Expression<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::expression::expr_any
@spec
ensures tells_expr(visitor, vx_self, r)
@fn serde::de::expression::expr_i32 -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_i32 <'de, V: Visitor<'de>>(vx_self: Expression<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::expression::expr_any
@spec
ensures tells_expr(visitor, vx_self, r)
@fn serde::de::expression::expr_i64 -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_i64 <'de, V: Visitor<'de>>(vx_self: Expression<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::expression::expr_any
@spec
ensures tells_expr(visitor, vx_self, r)
@fn serde::de::expression::expr_i128 -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_i128 <'de, V: Visitor<'de>>(vx_self: Expression<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::expression::expr_any
@spec
ensures tells_expr(visitor, vx_self, r)
@fn serde::de::expression::expr_u8 -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_u8 <'de, V: Visitor<'de>>(vx_self: Expression<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::expression::expr_any
@spec
ensures tells_expr(visitor, vx_self, r)
@fn serde::de::expression::expr_u16 -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_u16 <'de, V: Visitor<'de>>(vx_self: Expression<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::expression::expr_any
@spec
ensures tells_expr(visitor, vx_self, r)
@fn serde::de::expression::expr_u32 -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_u32 <'de, V: Visitor<'de>>(vx_self: Expression<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::expression::expr_any
@spec
ensures tells_expr(visitor, vx_self, r)
@fn serde::de::expression::expr_u64 -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_u64 <'de, V: Visitor<'de>>(vx_self: Expression<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::expression::expr_any
@spec
ensures tells_expr(visitor, vx_self, r)
@fn serde::de::expression::expr_u128 -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_u128 <'de, V: Visitor<'de>>(vx_self: Expression<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::expression::expr_any
@spec
ensures tells_expr(visitor, vx_self, r)
@fn serde::de::expression::expr_f32 -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_f32 <'de, V: Visitor<'de>>(vx_self: Expression<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::expression::expr_any
@spec
ensures tells_expr(visitor, vx_self, r)
@fn serde::de::expression::expr_f64 -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_f64 <'de, V: Visitor<'de>>(vx_self: Expression<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::expression::expr_any
@spec
ensures tells_expr(visitor, vx_self, r)
@fn serde::de::expression::expr_char -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_char <'de, V: Visitor<'de>>(vx_self: Expression<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::expression::expr_any
@spec
ensures tells_expr(visitor, vx_self, r)
@fn serde::de::expression::expr_str -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_str <'de, V: Visitor<'de>>(vx_self: Expression<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::expression::expr_any
@spec
ensures tells_expr(visitor, vx_self, r)
@fn serde::de::expression::expr_string -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_string <'de, V: Visitor<'de>>(vx_self: Expression<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::expression::expr_any
@spec
ensures tells_expr(visitor, vx_self, r)
@fn serde::de::expression::expr_bytes -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_bytes <'de, V: Visitor<'de>>(vx_self: Expression<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::expression::expr_any
@spec
ensures tells_expr(visitor, vx_self, r)
@fn serde::de::expression::expr_byte_buf -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_byte_buf <'de, V: Visitor<'de>>(vx_self: Expression<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::expression::expr_any
@spec
ensures tells_expr(visitor, vx_self, r)
@fn serde::de::expression::expr_unit -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_unit <'de, V: Visitor<'de>>(vx_self: Expression<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::expression::expr_any
@spec
ensures tells_expr(visitor, vx_self, r)
@fn serde::de::expression::expr_seq -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_seq <'de, V: Visitor<'de>>(vx_self: Expression<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::expression::expr_any
@spec
ensures tells_expr(visitor, vx_self, r)
@fn serde::de::expression::expr_map -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_map <'de, V: Visitor<'de>>(vx_self: Expression<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::expression::expr_any
@spec
ensures tells_expr(visitor, vx_self, r)
@fn serde::de::expression::expr_identifier -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_identifier <'de, V: Visitor<'de>>(vx_self: Expression<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::expression::expr_any
@spec
ensures tells_expr(visitor, vx_self, r)
@fn serde::de::expression::expr_ignored_any -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_ignored_any <'de, V: Visitor<'de>>(vx_self: Expression<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::expression::expr_any
@spec
ensures tells_expr(visitor, vx_self, r)
@fn serde::de::expression::expr_unit_struct -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_unit_struct <'de, V: Visitor<'de>>(vx_self: Expression<'de>, name: &'static str, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::expression::expr_any
@spec
ensures tells_expr(visitor, vx_self, r)
@fn serde::de::expression::expr_struct -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_struct <'de, V: Visitor<'de>>(vx_self: Expression<'de>, name: &'static str, fields: &'static [&'static str], visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::expression::expr_any
@spec
ensures tells_expr(visitor, vx_self, r)
@fn serde::de::expression::expr_enum -> r
@lift serde::de::expression::<Expression as de::Deserializer>::deserialize_enum <'de, V: Visitor<'de>>(vx_self: Expression<'de>, name: &'static str, variants: &'static [&'static str], visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::expression::expr_any
@spec
ensures tells_expr(visitor, vx_self, r)

@inject serde::de::body
pub closed spec fn de_body<'de>(d: Deserializer<'de>) -> Body<'de> { d.body }
pub closed spec fn ma_iter<'de>(a: MapAccess<'de>) -> vec::IntoIter<(Identifier<'de>, BodyValue<'de>)> { a.elements }
pub closed spec fn ma_value<'de>(a: MapAccess<'de>) -> Option<BodyValue<'de>> { a.value }
pub closed spec fn ma_seen<'de>(a: MapAccess<'de>) -> Set<Seq<char>> { crate::vxp::names(a.seen) }
@fn serde::de::body::build_map_acces_iter -> r
@broadcast map_start, take_whole, crate::parser::block::bsv_def
@unfold map vec
@call into_iter#3 = crate::parser::block::blocks_into_iter
@call into_iter#4 = crate::vxp::left_of
@call into_iter = crate::vxp::vx_same
@call partition = crate::vxp::parts
@call chain = crate::vxp::chained
@call collect = crate::vxp::vx_same
@call new = crate::parser::block::blocks_new
@spec
ensures elements_of($p0@, left(r))
@ghost start
let ghost ga = only(body@, true);
let ghost gb = only(body@, false);
proof { only_kind(body@, true); only_kind(body@, false); }
@loop 1
invariant vx_it1.seq() == ga, vx_c@ == ga.take(vx_it1.index@ as int).map_values(at_attr()), forall|i: int| 0 <= i < ga.len() ==> (#[trigger] ga[i] is Attribute),
@ghost loop 1 start
proof { map_step(ga, at_attr(), vx_it1.index@ as int); }
@loop 0
invariant vx_it0.seq() == ga.map_values(at_attr()), vx_c@ == ga.map_values(at_attr()).take(vx_it0.index@ as int).map_values(at_entry()),
@ghost loop 0 start
proof { map_step(ga.map_values(at_attr()), at_entry(), vx_it0.index@ as int); }
@loop 3
invariant vx_it3.seq() == gb, vx_c@ == gb.take(vx_it3.index@ as int).map_values(at_block()), forall|i: int| 0 <= i < gb.len() ==> !(#[trigger] gb[i] is Attribute),
@ghost loop 3 start
proof { map_step(gb, at_block(), vx_it3.index@ as int); }
@loop 2
invariant vx_c@ == vx_it2.seq().take(vx_it2.index@ as int).map_values(bl_entry()),
@ghost loop 2 start
proof { map_step(vx_it2.seq(), bl_entry(), vx_it2.index@ as int); }

@fn serde::de::body::MapAccess::new -> r
@call default = crate::vxp::names_none
@spec
ensures elements_of($p0@, ma_left(r)), ma_value(r) is None, ma_seen(r) == Set::<Seq<char>>::empty()
@fn serde::de::body::Deserializer::new -> r
ensures de_body(r) == $p0
@fn serde::de::body::Deserializer::from_str -> r
@broadcast question_mark
@spec
ensures reads_document($p0@, r)
@fn serde::de::body::next_key -> r
@lift serde::de::body::<MapAccess as de::MapAccess>::next_key_seed <'de, K: DeserializeSeed<'de>>(vx_self: &mut MapAccess<'de>, seed: K) -> Result<Option<K::Value>, Compat>
@broadcast to_string_cow
@unfold map result
@call next = &mut crate::vxp::left_next
@call insert = &mut crate::vxp::names_add
@call into_deserializer = crate::vxp::name_deserializer
@call deserialize = crate::vxp::seed_name
@call into = crate::serde::de::error::compat_from
@call clone = &crate::vxp::cow_clone
@spec
ensures ma_key(*old(vx_self), *final(vx_self), seed, r)
@fn serde::de::body::next_value -> r
@lift serde::de::body::<MapAccess as de::MapAccess>::next_value_seed <'de, V: DeserializeSeed<'de>>(vx_self: &mut MapAccess<'de>, seed: V) -> Result<V::Value, Compat>
@call deserialize#0 = crate::vxp::seed_expr
@call deserialize#1 = crate::vxp::seed_block
@spec
requires ma_value(*old(vx_self)) is Some
ensures seeds(seed, told_value(ma_value(*old(vx_self))->Some_0), r), ma_value(*final(vx_self)) is None, ma_left(*final(vx_self)) == ma_left(*old(vx_self)), ma_seen(*final(vx_self)) == ma_seen(*old(vx_self))
@fn serde::de::body::left_elements -> r
@lift serde::de::body::<MapAccess as de::MapAccess>::size_hint <'de>(vx_self: &MapAccess<'de>) -> Option<usize>
@call size_hint = &crate::vxp::left_hint
@spec
ensures r matches Some(n) && n == ma_left(*vx_self).len()
@fn serde::de::body::doc_any -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_any <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, visitor: V) -> Result<V::Value, Compat>
@call visit_map = crate::vxp::tell_elements
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_itself -> r
@lift serde::de::body::<Deserializer as IntoDeserializer<Compat>>::into_deserializer <'de>(vx_self: Deserializer<'de>) -> Deserializer<'de>
@spec
ensures r == vx_self
@fn serde::de::body::from_str -> r
@broadcast question_mark, wrapped_inside
@call deserialize = crate::vxp::read_into
@spec
ensures reads_value($p0@, r)
@fn serde::de::body::doc_bool -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_bool <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_i8 -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_i8 <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_i16 -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_i16 <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_i32 -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_i32 <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_i64 -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_i64 <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_i128 -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_i128 <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_u8 -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_u8 <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_u16 -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_u16 <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_u32 -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_u32 <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_u64 -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_u64 <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_u128 -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_u128 <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_f32 -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_f32 <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_f64 -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_f64 <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_char -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_char <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_str -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_str <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_string -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_string <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_bytes -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_bytes <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_byte_buf -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_byte_buf <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_unit -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_unit <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_seq -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_seq <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_map -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_map <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_identifier -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_identifier <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_ignored_any -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_ignored_any <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_option -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_option <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_unit_struct -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_unit_struct <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, name: &'static str, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_newtype_struct -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_newtype_struct <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, name: &'static str, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_tuple -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_tuple <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, len: usize, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_tuple_struct -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_tuple_struct <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, name: &'static str, len: usize, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_struct -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_struct <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, name: &'static str, fields: &'static [&'static str], visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)
@fn serde::de::body::doc_enum -> r
@lift serde::de::body::<Deserializer as de::Deserializer>::deserialize_enum <'de, V: Visitor<'de>>(vx_self: Deserializer<'de>, name: &'static str, variants: &'static [&'static str], visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::body::doc_any
@spec
ensures tells_body(visitor, de_body(vx_self)@, r)

@fn serde::de::block::deserialize_body_seq -> r
@broadcast docs_push, take_whole
@unfold collect vec
@call into_iter = crate::vxp::vx_same
@call into_deserializer = crate::vxp::docs_deserializer
@call visit_seq = crate::vxp::tell_bodies
@spec
ensures visits($p1, Told::Bodies($p0@), r)
@ghost start
proof { assert(docs(Seq::empty()) =~= Seq::<Body<'de>>::empty()); }
let ghost g = bodies@;
@loop 0
invariant vx_it0.seq() == g, docs(vx_c@) == g.take(vx_it0.index@ as int),
@ghost loop 0 start
proof { assert(g.take(vx_it0.index@ + 1) =~= g.take(vx_it0.index@ as int).push(g[vx_it0.index@ as int])); }
@ghost loop 0 before
proof { assert(g.take(0) =~= Seq::<Body<'de>>::empty()); }
@fn serde::de::block::deserialize_map -> r
@call deserialize_map = crate::serde::de::body::doc_map
@spec
ensures tells_body($p1, $p0@, r)
@fn serde::de::block::unsupported_labels -> r
@call custom = crate::vxp::custom_text
@spec
ensures de_error(r) is Custom
@fn serde::de::block::bb_any -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_any <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, visitor: V) -> Result<V::Value, Compat>
@call is_empty = &crate::vxp::hm_is_empty
@spec
ensures tells_block(visitor, vx_self, r)
@fn serde::de::block::bb_option -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_option <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, visitor: V) -> Result<V::Value, Compat>
@call visit_none = crate::vxp::tell_none
@call visit_some = crate::vxp::tell_some_block
@spec
requires ix_count(ixv(vx_self)) <= usize::MAX
ensures visits(visitor, if ix_count(ixv(vx_self)) == 0 { Told::Nothing } else { Told::SomeBlock(vx_self) }, r)
@fn serde::de::block::bb_seq -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_seq <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, visitor: V) -> Result<V::Value, Compat>
@call is_empty = &crate::vxp::hm_is_empty
@spec
ensures tells_block_seq(visitor, vx_self, r)
@fn serde::de::block::bb_bool -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_bool <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::block::bb_any
@spec
ensures tells_block(visitor, vx_self, r)
@fn serde::de::block::bb_i8 -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_i8 <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::block::bb_any
@spec
ensures tells_block(visitor, vx_self, r)
@fn serde::de::block::bb_i16 -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_i16 <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::block::bb_any
@spec
ensures tells_block(visitor, vx_self, r)
@fn serde::de::block::bb_i32 -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_i32 <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::block::bb_any
@spec
ensures tells_block(visitor, vx_self, r)
@fn serde::de::block::bb_i64 -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_i64 <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::block::bb_any
@spec
ensures tells_block(visitor, vx_self, r)
@fn serde::de::block::bb_i128 -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_i128 <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::block::bb_any
@spec
ensures tells_block(visitor, vx_self, r)
@fn serde::de::block::bb_u8 -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_u8 <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::block::bb_any
@spec
ensures tells_block(visitor, vx_self, r)
@fn serde::de::block::bb_u16 -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_u16 <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::block::bb_any
@spec
ensures tells_block(visitor, vx_self, r)
@fn serde::de::block::bb_u32 -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_u32 <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::block::bb_any
@spec
ensures tells_block(visitor, vx_self, r)
@fn serde::de::block::bb_u64 -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_u64 <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::block::bb_any
@spec
ensures tells_block(visitor, vx_self, r)
@fn serde::de::block::bb_u128 -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_u128 <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::block::bb_any
@spec
ensures tells_block(visitor, vx_self, r)
@fn serde::de::block::bb_f32 -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_f32 <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::block::bb_any
@spec
ensures tells_block(visitor, vx_self, r)
@fn serde::de::block::bb_f64 -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_f64 <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::block::bb_any
@spec
ensures tells_block(visitor, vx_self, r)
@fn serde::de::block::bb_char -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_char <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::block::bb_any
@spec
ensures tells_block(visitor, vx_self, r)
@fn serde::de::block::bb_str -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_str <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::block::bb_any
@spec
ensures tells_block(visitor, vx_self, r)
@fn serde::de::block::bb_string -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_string <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::block::bb_any
@spec
ensures tells_block(visitor, vx_self, r)
@fn serde::de::block::bb_bytes -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_bytes <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::block::bb_any
@spec
ensures tells_block(visitor, vx_self, r)
@fn serde::de::block::bb_byte_buf -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_byte_buf <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::block::bb_any
@spec
ensures tells_block(visitor, vx_self, r)
@fn serde::de::block::bb_unit -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_unit <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::block::bb_any
@spec
ensures tells_block(visitor, vx_self, r)
@fn serde::de::block::bb_map -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_map <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::block::bb_any
@spec
ensures tells_block(visitor, vx_self, r)
@fn serde::de::block::bb_identifier -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_identifier <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::block::bb_any
@spec
ensures tells_block(visitor, vx_self, r)
@fn serde::de::block::bb_ignored_any -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_ignored_any <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::block::bb_any
@spec
ensures tells_block(visitor, vx_self, r)
@fn serde::de::block::bb_unit_struct -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_unit_struct <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, name: &'static str, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::block::bb_any
@spec
ensures tells_block(visitor, vx_self, r)
@fn serde::de::block::bb_newtype_struct -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_newtype_struct <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, name: &'static str, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::block::bb_any
@spec
ensures tells_block(visitor, vx_self, r)
@fn serde::de::block::bb_tuple -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_tuple <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, len: usize, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::block::bb_any
@spec
ensures tells_block(visitor, vx_self, r)
@fn serde::de::block::bb_tuple_struct -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_tuple_struct <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, name: &'static str, len: usize, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::block::bb_any
@spec
ensures tells_block(visitor, vx_self, r)
@fn serde::de::block::bb_struct -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_struct <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, name: &'static str, fields: &'static [&'static str], visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::block::bb_any
@spec
ensures tells_block(visitor, vx_self, r)
@fn serde::de::block::bb_enum -> r
@lift serde::de::block::<BlockBody as de::Deserializer>::deserialize_enum <'de, V: Visitor<'de>>(vx_self: BlockBody<'de>, name: &'static str, variants: &'static [&'static str], visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::serde::de::block::bb_any
@spec
ensures tells_block(visitor, vx_self, r)
// keys
@fn parser::literals::key::serde::key_any -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_any <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, visitor: V) -> Result<V::Value, Compat>
@call visit_str = crate::vxp::tell_str
@broadcast cow_inner_str
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_bool -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_bool <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_i8 -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_i8 <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_i16 -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_i16 <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_i32 -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_i32 <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_i64 -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_i64 <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_i128 -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_i128 <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_u8 -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_u8 <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_u16 -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_u16 <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_u32 -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_u32 <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_u64 -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_u64 <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_u128 -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_u128 <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_f32 -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_f32 <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_f64 -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_f64 <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_char -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_char <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_str -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_str <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_string -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_string <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_bytes -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_bytes <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_byte_buf -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_byte_buf <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_option -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_option <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_unit -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_unit <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_unit_struct -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_unit_struct <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, name: &'static str, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_newtype_struct -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_newtype_struct <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, name: &'static str, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_seq -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_seq <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_tuple -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_tuple <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, len: usize, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_tuple_struct -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_tuple_struct <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, name: &'static str, len: usize, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_map -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_map <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_struct -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_struct <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, name: &'static str, fields: &'static [&'static str], visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_enum -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_enum <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, name: &'static str, variants: &'static [&'static str], visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_identifier -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_identifier <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
@fn parser::literals::key::serde::key_ignored_any -> r
@lift parser::literals::key::serde::<Key as Deserializer>::deserialize_ignored_any <'de, 'a, V: Visitor<'de>>(vx_self: Key<'a>, visitor: V) -> Result<V::Value, Compat>
@call deserialize_any = crate::parser::literals::key::serde::key_any
@spec
ensures visits(visitor, Told::Text(ktext(vx_self)), r)
