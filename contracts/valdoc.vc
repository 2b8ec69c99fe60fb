@type parser::literals::number::Number
@fn parser::literals::number::<crate::value::Value as From<Number>>::from -> r
@spec
ensures vview(r) == vlitnum()($p0)
@fn parser::literals::number::<Number as FromStr>::from_str -> r
@call parse = crate::vxp::str_parse
@spec
ensures (match opt(r) { Some(n) => Some(vlitnum()(n)), None => None }) == num_val($p0@)
@fn parser::literals::number::number -> r
@broadcast group_x
@call parse_to = &crate::vxp::parse_to_number
@spec
ensures rel(r, $p0, s_vnum($p0.0@), vlitnum())
@fn parser::literals::key::key -> r
@broadcast group_x, group_gram
@spec
ensures rel(r, $p0, s_key($p0.0@), vkey())

@fn value::map_from_iter -> r
@lift value::<MapValues as FromIterator<(Key,Value)>>::from_iter <'a>(iter: Vec<(crate::parser::literals::key::Key<'a>, Value<'a>)>) -> KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>
@call new_unmerged = map_new_unmerged
@spec
ensures r == KeyValuePairs::<Key<'a>, Value<'a>>::Unmerged(iter)
@fn value::block_from_iter -> r
@lift value::<Block as FromIterator<(K,MapValues)>>::from_iter <'a>(iter: Vec<(Vec<String>, KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>)>) -> KeyValuePairs<Vec<String>, KeyValuePairs<crate::parser::literals::key::Key<'a>, Value<'a>>>
@call new_unmerged = block_new_unmerged
@spec
ensures r is Unmerged, blview(r) == BlV::Unmerged(iter@.map_values(vblock_entry()))
@fn value::<Value as From<Vec<MapValues>>>::from -> r
@spec
ensures r == Value::Object($p0)
@fn value::<Value as From<MapValues>>::from -> r
@broadcast group_vview, map_small
@spec
ensures vview(r) == ValV::Object(seq![mview($p0)])

@fn parser::list_begin -> r
@broadcast group_x, blen_txt_char, head_ascii
@call len = &crate::vxp::t_len
@call iter_elements = &crate::vxp::iter_elements
@spec
ensures rel(r, $p0, s_char('[', $p0.0@), vid())
@fn parser::list_separator -> r
@broadcast group_x, blen_txt_char, head_ascii
@call len = &crate::vxp::t_len
@call iter_elements = &crate::vxp::iter_elements
@spec
ensures rel(r, $p0, s_char(',', $p0.0@), vid())
@fn parser::list -> r
@broadcast group_x, blen_txt_char, head_ascii, after_ws_le, ws_after, lt_value, lt_skip, map_small, x_list, x_list_items, x_list_more
@call len = &crate::vxp::t_len
@call iter_elements = &crate::vxp::iter_elements
@spec
ensures rel(r, $p0, s_list($p0.0@), vvec(vval()))
decreases $p0.0@.len(), 5nat
@loop 0
invariant_except_break
    mend(input) == mend($p0),
    $p0.0@.len() > input.0@.len(),
    s_list_items(after_ws($p0.0@.skip(1))) == s_list_more(input.0@, res_2@.map_values(vval())),
ensures
    rel(ret, $p0, s_list_items(after_ws($p0.0@.skip(1))), vvec(vval())),
decreases input.0@.len()
@fn parser::single_value -> r
@broadcast group_x, vview_list, vview_object, map_small, to_string_cow, x_value
@spec
ensures rel(r, $p0, s_value($p0.0@), vval())
decreases $p0.0@.len(), 10nat
@fn parser::map_expression -> r
@broadcast group_x, blen_txt_char, head_ascii, after_ws_le, ws_after, x_map
@call len = &crate::vxp::t_len
@call iter_elements = &crate::vxp::iter_elements
@spec
ensures rel(r, $p0, pr_map(s_map($p0.0@)), vmv())
decreases $p0.0@.len(), 5nat
@fn parser::attribute -> r
@broadcast group_x, blen_txt_char, head_ascii, after_iws_le, iws_after, suf_ident, suf_key, suf_lits, blview_unmerged, map_small, x_entry, x_entry_value, x_entry_map, x_entry_block
@call len = &crate::vxp::t_len
@call iter_elements = &crate::vxp::iter_elements
@call into_iter = crate::vxp::vec_into_iter
@call collect = crate::value::block_from_iter
@spec
ensures rel(r, $p0, s_entry($p0.0@), ventry())
decreases $p0.0@.len(), 30nat
@ghost start
proof { reveal(s_lits); }
@loop 0
invariant_except_break
    mend(input) == mend($p0),
    s_lits(i_9.0@) == s_many0(p_lit_item(), input.0@, res_14@.map_values(vstring())),
ensures
    rel(ret, $p0, s_lits(i_9.0@), vvec(vstring())),
decreases input.0@.len()
@ghost loop 0 before
proof { assert(res_14@.map_values(vstring()) =~= Seq::<Seq<char>>::empty()); }
@ghost loop 0 start
proof { suf_lit_item(input.0@); }
@fn parser::map_values -> r
@broadcast group_x, after_ws_le, ws_after, suf_newline, mview_unmerged, suf_entry, suf_entry_sep, x_entries, x_entry_items
@call into_iter = crate::vxp::vec_into_iter
@call collect = crate::value::map_from_iter
@spec
ensures rel(r, $p0, pr_map(s_entries($p0.0@)), vmv())
decreases $p0.0@.len(), 40nat
@loop 0
invariant_except_break
    mend(input) == mend($p0),
    $p0.0@.len() >= input.0@.len(),
    s_entry_items($p0.0@, Seq::empty()) == s_entry_items(input.0@, res@.map_values(ventry())),
ensures
    rel(ret, $p0, s_entry_items($p0.0@, Seq::empty()), vvec(ventry())),
decreases input.0@.len()
@ghost loop 0 before
proof { assert(res@.map_values(ventry()) =~= Seq::<(KeyLitV, ValV)>::empty()); }
@fn parser::body -> r
@broadcast group_x
@spec
ensures rel(r, $p0, pr_map(s_document($p0.0@)), vmv())
