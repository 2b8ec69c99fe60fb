@fn parser::expression::<Expression as From<Number>>::from -> r
@call from = crate::vxp::vx_same
@spec
ensures r == Expression::Number($p0)
@fn parser::expression::<Expression as From<bool>>::from -> r
@call from = crate::vxp::vx_same
@spec
ensures r == Expression::Boolean($p0)
@fn parser::expression::<Expression as From<Cow<str>>>::from -> r
@call from = crate::vxp::vx_same
@spec
ensures r == Expression::String($p0)
@fn parser::expression::<Expression as From<Vec<Expression>>>::from -> r
@call from = crate::vxp::vx_same
@spec
ensures r == Expression::Tuple($p0)
@fn parser::expression::<Expression as From<()>>::from -> r
ensures r == Expression::Null

@fn parser::tuple::tuple_begin -> r
@broadcast group_x, blen_txt_char, head_ascii
@call len = &crate::vxp::t_len
@call iter_elements = &crate::vxp::iter_elements
@spec
ensures rel(r, $p0, s_char('[', $p0.0@), vid())
@fn parser::tuple::tuple_separator -> r
@broadcast group_x, blen_txt_char, head_ascii
@call len = &crate::vxp::t_len
@call iter_elements = &crate::vxp::iter_elements
@spec
ensures rel(r, $p0, s_char(',', $p0.0@), vid())
@fn parser::tuple::tuple -> r
@broadcast group_x, blen_txt_char, head_ascii, after_ws_le, ws_after, lt_expression, lt_skip, map_small, x_tuple, x_tuple_items, x_tuple_more
@call len = &crate::vxp::t_len
@call iter_elements = &crate::vxp::iter_elements
@spec
ensures rel(r, $p0, s_tuple($p0.0@), vvec(vexpr()))
decreases $p0.0@.len(), 5nat
@loop 0
invariant_except_break
    mend(input) == mend($p0),
    $p0.0@.len() > input.0@.len(),
    s_tuple_items(after_ws($p0.0@.skip(1))) == s_tuple_more(input.0@, res_2@.map_values(vexpr())),
ensures
    rel(ret, $p0, s_tuple_items(after_ws($p0.0@.skip(1))), vvec(vexpr())),
decreases input.0@.len()

@fn parser::object::object_begin -> r
@broadcast group_x, blen_txt_char, head_ascii
@call len = &crate::vxp::t_len
@call iter_elements = &crate::vxp::iter_elements
@spec
ensures rel(r, $p0, s_char('{', $p0.0@), vid())
@fn parser::object::object_end -> r
@broadcast group_x, blen_txt_char, head_ascii
@call len = &crate::vxp::t_len
@call iter_elements = &crate::vxp::iter_elements
@spec
ensures rel(r, $p0, s_char('}', $p0.0@), vid())
@fn parser::object::object_separator -> r
@broadcast group_x, group_gram
@spec
ensures rel(r, $p0, s_object_sep($p0.0@), vunit())
@fn parser::object::object_element_identifier -> r
@broadcast group_x, group_gram, suf_expression, x_object_id
@spec
ensures rel(r, $p0, s_object_id($p0.0@), vidv())
decreases $p0.0@.len(), 15nat
@ghost start
proof {            let s = $p0.0@; suf_expression(s); match s_expression(s) { PR::Ok(v_r, _) => prefix_of_suffix(s, v_r), _ => {} } }
@fn parser::object::object_element -> r
@broadcast group_x, blen_txt_char, head_ascii, group_gram, suf_expression, suf_object_id, x_object_element
@call len = &crate::vxp::t_len
@call iter_elements = &crate::vxp::iter_elements
@spec
ensures rel(r, $p0, s_object_element($p0.0@), vobj())
decreases $p0.0@.len(), 20nat
@fn parser::object::object_body -> r
@broadcast group_x, group_gram, suf_object_element, suf_object_sep, x_object_body, x_object_items
@call into_iter = crate::vxp::vec_into_iter
@call collect = crate::vxp::vec_collect
@spec
ensures rel(r, $p0, s_object_body($p0.0@), vvec(vobj()))
decreases $p0.0@.len(), 30nat
@loop 0
invariant_except_break
    mend(input) == mend($p0),
    $p0.0@.len() >= input.0@.len(),
    s_object_items($p0.0@, Seq::empty()) == s_object_items(input.0@, res@.map_values(vobj())),
ensures
    rel(ret, $p0, s_object_items($p0.0@, Seq::empty()), vvec(vobj())),
decreases input.0@.len()
@ghost loop 0 before
proof { assert(res@.map_values(vobj()) =~= Seq::<(IdV, ExprV)>::empty()); }
@fn parser::object::object -> r
@broadcast group_x, group_gram, x_object
@spec
ensures rel(r, $p0, s_object($p0.0@), vvec(vobj()))
decreases $p0.0@.len(), 5nat

@fn parser::expression::bracket_expression -> r
@broadcast group_x, group_gram, suf_expression, x_bracket
@spec
ensures rel(r, $p0, s_bracket($p0.0@), vexpr())
decreases $p0.0@.len(), 5nat
@fn parser::expression::expression -> r
@broadcast group_x, group_gram, eview_tuple, eview_object, x_expression
@spec
ensures rel(r, $p0, s_expression($p0.0@), vexpr())
decreases $p0.0@.len(), 10nat

@fn parser::attribute::attribute -> r
@broadcast group_x, blen_txt_char, head_ascii, group_gram, suf_expression
@call len = &crate::vxp::t_len
@call iter_elements = &crate::vxp::iter_elements
@spec
ensures rel(r, $p0, s_attribute($p0.0@), vattr())
@ghost start
proof { reveal(s_attribute); }
@fn parser::block::block_label -> r
@broadcast group_x, group_gram
@spec
ensures rel(r, $p0, s_label($p0.0@), vlabel())
@fn parser::block::block_labels -> r
@broadcast group_x, group_gram, suf_label_item
@spec
ensures rel(r, $p0, s_labels($p0.0@), vvec(vlabel()))
@ghost start
proof { reveal(s_labels); }
@loop 0
invariant_except_break
    mend(input) == mend($p0),
    s_labels($p0.0@) == s_many0(p_label_item(), input.0@, res@.map_values(vlabel())),
ensures
    rel(ret, $p0, s_labels($p0.0@), vvec(vlabel())),
decreases input.0@.len()
@ghost loop 0 before
proof { assert(res@.map_values(vlabel()) =~= Seq::<LabelV>::empty()); }
@ghost loop 0 start
proof { suf_label_item(input.0@); }
@fn parser::block::one_line_block_body -> r
@broadcast group_x, group_gram
@spec
ensures rel(r, $p0, opt_attr($p0.0@), voattr())
@fn parser::block::one_line_block -> r
@broadcast group_x, group_gram, suf_attribute, suf_block_head, bview_block, map_small
@spec
ensures rel(r, $p0, s_one_line($p0.0@), vblock())
@ghost start
proof { reveal(s_one_line); reveal(s_block_head); }
@fn parser::block::block -> r
@broadcast group_x, group_gram, suf_block_head, suf_body, bview_block, x_block
@spec
ensures rel(r, $p0, s_block($p0.0@), vblock())
decreases $p0.0@.len(), 10nat
@ghost start
proof {      reveal(s_block_head); }
@fn parser::body::body_element -> r
@broadcast group_x, group_gram, bview_block, x_body_element
@spec
ensures rel(r, $p0, s_body_element($p0.0@), vbody())
decreases $p0.0@.len(), 20nat
@fn parser::body::body -> r
@broadcast group_x, group_gram, suf_body_element, suf_body_sep, x_body, x_body_items
@call into_iter = crate::vxp::vec_into_iter
@call collect = crate::vxp::vec_collect
@spec
ensures rel(r, $p0, s_body($p0.0@), vvec(vbody()))
decreases $p0.0@.len(), 40nat
@loop 0
invariant_except_break
    mend(input) == mend($p0),
    $p0.0@.len() >= input.0@.len(),
    s_body_items($p0.0@, Seq::empty()) == s_body_items(input.0@, res@.map_values(vbody())),
ensures
    rel(ret, $p0, s_body_items($p0.0@, Seq::empty()), vvec(vbody())),
decreases input.0@.len()
@ghost loop 0 before
proof { assert(res@.map_values(vbody()) =~= Seq::<BodyElemV>::empty()); }
