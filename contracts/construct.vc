// building values, expressions and their parts from plain data
@fn value::value_from_i64 -> r
@lift value::<Value as From<i64>>::from <'a>(v: i64) -> Value<'a>
@subst Self = Value<'a>
@spec
ensures r == Value::Integer(v)
@fn value::value_from_f64 -> r
@lift value::<Value as From<f64>>::from <'a>(v: f64) -> Value<'a>
@subst Self = Value<'a>
@spec
ensures r == Value::Float(v)
@fn value::value_from_bool -> r
@lift value::<Value as From<bool>>::from <'a>(v: bool) -> Value<'a>
@subst Self = Value<'a>
@spec
ensures r == Value::Boolean(v)
@fn value::value_from_string -> r
@lift value::<Value as From<String>>::from <'a>(v: String) -> Value<'a>
@subst Self = Value<'a>
@spec
ensures r == Value::String(v)
@fn value::value_from_block -> r
@lift value::<Value as From<Block>>::from <'a>(v: KeyValuePairs<Vec<String>, KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>>) -> Value<'a>
@subst Self = Value<'a>
@spec
ensures r == Value::Block(v)
@fn value::value_from_str -> r
@lift value::<Value as From<&str>>::from <'a, 'b>(s: &'b str) -> Value<'a>
@subst Self = Value<'a>
@broadcast to_string_str
@spec
ensures r is String, r->String_0@ == s@
@fn value::value_from_list -> r
@lift value::<Value as From<Option<Vec<Value>>>>::from <'a>(l: Option<Vec<Value<'a>>>) -> Value<'a>
@subst Self = Value<'a>
@spec
ensures r is List, r->List_0@ == (match l { Some(v) => v@, None => Seq::<Value<'a>>::empty() })
@fn value::value_from_ref_i64 -> r
@lift value::<Value as From<&T>>::from <'a, 'b>(v: &'b i64) -> Value<'a>
@call into = crate::value::value_from_i64
@spec
ensures r == Value::Integer(*v)
@fn value::value_from_ref_f64 -> r
@lift value::<Value as From<&T>>::from <'a, 'b>(v: &'b f64) -> Value<'a>
@call into = crate::value::value_from_f64
@spec
ensures r == Value::Float(*v)
@fn value::value_from_ref_bool -> r
@lift value::<Value as From<&T>>::from <'a, 'b>(v: &'b bool) -> Value<'a>
@call into = crate::value::value_from_bool
@spec
ensures r == Value::Boolean(*v)
@fn value::value_from_ref_string -> r
@lift value::<Value as From<&T>>::from <'a, 'b>(v: &'b String) -> Value<'a>
@call into = crate::value::value_from_string
@spec
ensures r is String, r->String_0@ == v@
@fn value::value_from_ref_str -> r
@lift value::<Value as From<&T>>::from <'a, 'b, 'c>(v: &'b &'c str) -> Value<'a>
@call into = crate::value::value_from_str
@spec
ensures r is String, r->String_0@ == (*v)@
@fn value::value_new_list -> r
@lift value::Value::new_list <'a>(iterator: Vec<Value<'a>>) -> Value<'a>
@subst Self = Value<'a>
@call into_iter = crate::vxp::vec_into_iter
@call collect = crate::vxp::vec_collect
@spec
ensures r == Value::List(iterator)
@fn value::value_from_iter -> r
@lift value::<Value as FromIterator<Value>>::from_iter <'a>(iter: Vec<Value<'a>>) -> Value<'a>
@subst Self = Value<'a>
@call into_iter = crate::vxp::vec_into_iter
@call collect = crate::vxp::vec_collect
@spec
ensures r == Value::List(iter)
@fn value::value_new_single_map -> r
@lift value::Value::new_single_map <'a>(iterator: Vec<(crate::parser::literals::key::Key<'a>, Value<'a>)>) -> Value<'a>
@subst Self = Value<'a>
@call into_iter = crate::vxp::vec_into_iter
@call collect = crate::value::map_from_iter
@spec
ensures r is Object, r->Object_0@ == seq![KeyValuePairs::<Key<'a>, Value<'a>>::Unmerged(iterator)]
@fn value::value_new_map -> r
@lift value::Value::new_map <'a>(iterator: Vec<Vec<(crate::parser::literals::key::Key<'a>, Value<'a>)>>) -> Value<'a>
@subst Self = Value<'a>
@call into_iter = crate::vxp::vec_into_iter
@call collect#0 = crate::value::map_from_iter
@unfold collect vec
@spec
ensures r is Object, maps_upto(r->Object_0, iterator@, iterator@.len() as int)
@loop 0
invariant vx_it0.seq() == iterator@, maps_upto(vx_c, iterator@, vx_it0.index@ as int),
@fn value::value_new_block -> r
@lift value::Value::new_block <'a>(keys: &'a [String], iterator: Vec<(crate::parser::literals::key::Key<'a>, Value<'a>)>) -> Value<'a>
@subst Self = Value<'a>
@call into_iter = crate::vxp::vec_into_iter
@call as_ref = crate::vxp::as_str_of
@call collect#1 = crate::value::map_from_iter
@call collect#2 = crate::value::block_from_iter
@unfold collect vec
@unfold cloned vec:crate::vxp::block_entry_clone
@broadcast to_string_str, text_of_string, group_vview
@spec
ensures r is Block, blview(r->Block_0) == BlV::Unmerged(seq![(keys@.map_values(vstring()), MvV::Unmerged(iterator@.map_values(ventry())))])
@loop 0
invariant vx_it0.seq().len() == keys@.len(), forall|k: int| 0 <= k < keys@.len() ==> *(#[trigger] vx_it0.seq()[k]) == keys@[k], vx_c@.map_values(vstring()) == keys@.map_values(vstring()).take(vx_it0.index@ as int),
@ghost loop 0 start
let ghost vx_before = vx_c@;
@ghost loop 0 end
proof { let f = vstring(); assert(vx_c@.map_values(f) =~= vx_before.map_values(f).push(f(vx_c@.last()))); assert(keys@.map_values(f).take(vx_it0.index@ + 1) =~= keys@.map_values(f).take(vx_it0.index@ as int).push(f(keys@[vx_it0.index@ as int]))); }
@ghost loop 0 after
proof { assert(keys@.map_values(vstring()).take(keys@.len() as int) =~= keys@.map_values(vstring())); }
@loop 1
invariant vx_it1.seq().len() == 1, *vx_it1.seq()[0] == vx_entry, vx_c@.map_values(vblock_entry()) == seq![vblock_entry()(vx_entry)].take(vx_it1.index@ as int),
@ghost loop 1 before
let ghost vx_entry = vx_a[0];
@ghost loop 1 start
let ghost vx_before1 = vx_c@;
@ghost loop 1 end
proof { let f = vblock_entry(); assert(vx_it1.index@ == 0); assert(vx_c@.map_values(f) =~= vx_before1.map_values(f).push(f(vx_c@.last()))); assert(vx_c@.map_values(vblock_entry()) =~= seq![vblock_entry()(vx_entry)].take(vx_it1.index@ + 1)); }
@ghost loop 1 after
proof { assert(seq![vblock_entry()(vx_entry)].take(1) =~= seq![vblock_entry()(vx_entry)]); }

@fn parser::expression::expression_from_u8 -> r
@lift parser::expression::<Expression as From<u8>>::from <'a>(v: u8) -> Expression<'a>
@subst Self = Expression<'a>
@call from = crate::parser::number::number_from_u8
@spec
ensures r is Number, nview(r->Number_0) == num_of_int(v as int), <u8 as Parse>::parsed(r->Number_0.input@) == Some(v)
@fn parser::expression::expression_from_u16 -> r
@lift parser::expression::<Expression as From<u16>>::from <'a>(v: u16) -> Expression<'a>
@subst Self = Expression<'a>
@call from = crate::parser::number::number_from_u16
@spec
ensures r is Number, nview(r->Number_0) == num_of_int(v as int), <u16 as Parse>::parsed(r->Number_0.input@) == Some(v)
@fn parser::expression::expression_from_u32 -> r
@lift parser::expression::<Expression as From<u32>>::from <'a>(v: u32) -> Expression<'a>
@subst Self = Expression<'a>
@call from = crate::parser::number::number_from_u32
@spec
ensures r is Number, nview(r->Number_0) == num_of_int(v as int), <u32 as Parse>::parsed(r->Number_0.input@) == Some(v)
@fn parser::expression::expression_from_u64 -> r
@lift parser::expression::<Expression as From<u64>>::from <'a>(v: u64) -> Expression<'a>
@subst Self = Expression<'a>
@call from = crate::parser::number::number_from_u64
@spec
ensures r is Number, nview(r->Number_0) == num_of_int(v as int), <u64 as Parse>::parsed(r->Number_0.input@) == Some(v)
@fn parser::expression::expression_from_u128 -> r
@lift parser::expression::<Expression as From<u128>>::from <'a>(v: u128) -> Expression<'a>
@subst Self = Expression<'a>
@call from = crate::parser::number::number_from_u128
@spec
ensures r is Number, nview(r->Number_0) == num_of_int(v as int), <u128 as Parse>::parsed(r->Number_0.input@) == Some(v)
@fn parser::expression::expression_from_i8 -> r
@lift parser::expression::<Expression as From<i8>>::from <'a>(v: i8) -> Expression<'a>
@subst Self = Expression<'a>
@call from = crate::parser::number::number_from_i8
@spec
ensures r is Number, nview(r->Number_0) == num_of_int(v as int), <i8 as Parse>::parsed(r->Number_0.input@) == Some(v)
@fn parser::expression::expression_from_i16 -> r
@lift parser::expression::<Expression as From<i16>>::from <'a>(v: i16) -> Expression<'a>
@subst Self = Expression<'a>
@call from = crate::parser::number::number_from_i16
@spec
ensures r is Number, nview(r->Number_0) == num_of_int(v as int), <i16 as Parse>::parsed(r->Number_0.input@) == Some(v)
@fn parser::expression::expression_from_i32 -> r
@lift parser::expression::<Expression as From<i32>>::from <'a>(v: i32) -> Expression<'a>
@subst Self = Expression<'a>
@call from = crate::parser::number::number_from_i32
@spec
ensures r is Number, nview(r->Number_0) == num_of_int(v as int), <i32 as Parse>::parsed(r->Number_0.input@) == Some(v)
@fn parser::expression::expression_from_i64 -> r
@lift parser::expression::<Expression as From<i64>>::from <'a>(v: i64) -> Expression<'a>
@subst Self = Expression<'a>
@call from = crate::parser::number::number_from_i64
@spec
ensures r is Number, nview(r->Number_0) == num_of_int(v as int), <i64 as Parse>::parsed(r->Number_0.input@) == Some(v)
@fn parser::expression::expression_from_i128 -> r
@lift parser::expression::<Expression as From<i128>>::from <'a>(v: i128) -> Expression<'a>
@subst Self = Expression<'a>
@call from = crate::parser::number::number_from_i128
@spec
ensures r is Number, nview(r->Number_0) == num_of_int(v as int), <i128 as Parse>::parsed(r->Number_0.input@) == Some(v)
@fn parser::expression::expression_from_f32 -> r
@lift parser::expression::<Expression as From<f32>>::from <'a>(v: f32) -> Expression<'a>
@subst Self = Expression<'a>
@call from = crate::parser::number::number_from_f32
@spec
ensures r is Number, fin32(v) ==> nview(r->Number_0) == num_of_dec(neg32(v), mag32(v)) && <f32 as Parse>::parsed(r->Number_0.input@) == Some(v)
@fn parser::expression::expression_from_f64 -> r
@lift parser::expression::<Expression as From<f64>>::from <'a>(v: f64) -> Expression<'a>
@subst Self = Expression<'a>
@call from = crate::parser::number::number_from_f64
@spec
ensures r is Number, fin64(v) ==> nview(r->Number_0) == num_of_dec(neg64(v), mag64(v)) && <f64 as Parse>::parsed(r->Number_0.input@) == Some(v)
@fn parser::expression::expression_from_str -> r
@lift parser::expression::<Expression as From<&str>>::from <'a>(s: &'a str) -> Expression<'a>
@subst Self = Expression<'a>
@spec
ensures r is String, r->String_0@ == s@
@fn parser::expression::expression_new_tuple -> r
@lift parser::expression::Expression::new_tuple <'a>(iterator: Vec<Expression<'a>>) -> Expression<'a>
@subst Self = Expression<'a>
@call into_iter = crate::vxp::vec_into_iter
@call collect = crate::vxp::vec_collect
@spec
ensures r == Expression::Tuple(iterator)
@fn parser::expression::expression_from_iter -> r
@lift parser::expression::<Expression as FromIterator<Expression>>::from_iter <'a>(iter: Vec<Expression<'a>>) -> Expression<'a>
@subst Self = Expression<'a>
@call new_tuple = crate::parser::expression::expression_new_tuple
@spec
ensures r == Expression::Tuple(iter)
@fn parser::expression::expression_new_object -> r
@lift parser::expression::Expression::new_object <'a>(iterator: Vec<(&'a str, Expression<'a>)>) -> Expression<'a>
@subst Self = Expression<'a>
@call into_iter = crate::vxp::vec_into_iter
@call into = crate::parser::object::identifier_from_str
@unfold collect vec
@spec
ensures r is Object, named_upto(r->Object_0, iterator@, iterator@.len() as int)
@loop 0
invariant vx_it0.seq() == iterator@, named_upto(vx_c, iterator@, vx_it0.index@ as int),
@fn parser::object::identifier_from_str -> r
@lift parser::object::<ObjectElementIdentifier as From<&str>>::from <'a>(s: &'a str) -> ObjectElementIdentifier<'a>
@subst Self = ObjectElementIdentifier<'a>
@spec
ensures r is Identifier, r->Identifier_0@ == s@
@fn parser::block::label_from_str -> r
@lift parser::block::<BlockLabel as From<&str>>::from <'a>(s: &'a str) -> BlockLabel<'a>
@subst Self = BlockLabel<'a>
@spec
ensures r is Identifier, r->Identifier_0@ == s@
@fn parser::literals::key::key_from_str -> r
@lift parser::literals::key::<Key as From<&str>>::from <'a>(s: &'a str) -> Key<'a>
@subst Self = Key<'a>
@spec
ensures r is Identifier, ktext(r) == s@
@fn parser::literals::key::key_from_string -> r
@lift parser::literals::key::<Key as From<String>>::from <'a>(s: String) -> Key<'a>
@subst Self = Key<'a>
@spec
ensures r is Identifier, ktext(r) == s@
@fn parser::literals::number::literal_from_i64 -> r
@lift parser::literals::number::<Number as From<i64>>::from (i: i64) -> Number
@subst Self = Number
@spec
ensures r == Number::Integer(i)
@fn parser::literals::number::literal_from_f64 -> r
@lift parser::literals::number::<Number as From<f64>>::from (f: f64) -> Number
@subst Self = Number
@spec
ensures r == Number::Float(f)
@fn parser::object::identifier_equal -> r
@lift parser::object::<ObjectElementIdentifier as PartialEq<S>>::eq <'a, 'b, 'c>(vx_self: &'b ObjectElementIdentifier<'a>, other: &'b &'c str) -> bool
@call as_ref = crate::vxp::as_str_of
@call eq = crate::vxp::cow_eq_str
@broadcast text_of_str
@spec
ensures r == (vx_self is Identifier && vx_self->Identifier_0@ == (*other)@)
@fn parser::object::identifier_borrow -> r
@lift parser::object::<ObjectElementIdentifier as Borrow<str>>::borrow <'a, 'b>(vx_self: &'b ObjectElementIdentifier<'a>) -> &'b str
@broadcast cow_inner_str
@spec
ensures r@ == (match *vx_self { ObjectElementIdentifier::Identifier(s) => s@, ObjectElementIdentifier::Expression(s) => s@ })
@fn parser::object::ObjectElementIdentifier::as_str -> r
@call clone = crate::vxp::cow_clone
@spec
requires self is Identifier
ensures self matches ObjectElementIdentifier::Identifier(s) && r@ == s@
@fn merge_default -> r
@lift <MergeBehaviour as Default>::default () -> MergeBehaviour
@spec
ensures r == MergeBehaviour::Error
