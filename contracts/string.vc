@type errors::InternalKind

@fn parser::string::is_hex_digit -> r
ensures r == (dig($p0) < 16)

@fn parser::string::is_oct_digit -> r
ensures r == (dig($p0) < 8)

@fn parser::string::legal_string_literal_character -> r
ensures r == ($p0 != '\\' && $p0 != '"')

@fn parser::string::legal_string_literal_single_line_character -> r
ensures r == ($p0 != '\\' && $p0 != '"' && $p0 != '\r' && $p0 != '\n')

@fn parser::string::octal_to_string -> r
requires 1 <= $p0@.len() <= 3, all_digits($p0@, 8)
ensures r matches Ok(st) && st@ == one((radix_val($p0@, 8) as u32) as char)
@ghost start
broadcast use to_string_char;
proof { radix_bound($p0@, 8); }
@closure 0 || -> (b: InternalKind)
ensures true

@fn parser::string::hex_to_string -> r
requires 1 <= $p0@.len() <= 8, all_digits($p0@, 16)
ensures match r {
    Ok(st) => valid_scalar(radix_val($p0@, 16)) && st@ == one((radix_val($p0@, 16) as u32) as char),
    Err(_) => !valid_scalar(radix_val($p0@, 16)),
}
@ghost start
broadcast use to_string_char;
proof { radix_bound($p0@, 16); }
@closure 0 || -> (b: InternalKind)
ensures true

@fn parser::string::hex_to_unicode -> r
@broadcast group_x
@spec
ensures rel(r, $p0, s_hex($p0.0@), vcow())
@ghost start
proof { hex_facts($p0.0@); }
@closure 0 |$0: char| -> (b: bool)
ensures b == p_not_hex()($0)
@closure 1 |$0: char| -> (b: bool)
ensures b == p_not_hex()($0)
@closure 2 |$0: char| -> (b: bool)
ensures b == p_not_hex()($0)

@fn parser::string::unescape -> r
@broadcast group_x
@spec
ensures rel(r, $p0, s_unescape($p0.0@), vcow())
@ghost start
proof { mn_facts($p0.0@, p_not_oct(), 3);
assert("\x07"@ =~= one('\x07')); assert("\x08"@ =~= one('\x08')); assert("\x0c"@ =~= one('\x0c')); assert("\n"@ =~= one('\n')); assert("\r"@ =~= one('\r')); assert("\t"@ =~= one('\t')); assert("\x0b"@ =~= one('\x0b')); assert("\\"@ =~= one('\\')); assert("?"@ =~= one('?')); assert("\""@ =~= one('"'));
 let s = $p0.0@; let f = first_idx(s, p_not_oct());
  assert forall|k: int| #![trigger s.take(k)] 0 <= k <= f implies all_digits(s.take(k), 8) && s.take(k).len() == k by { digits_of(s, p_not_oct(), k, 8); } }
@closure 0 |$0: char| -> (b: bool)
ensures b == p_not_oct()($0)

@fn parser::string::string_literal_content -> r
@outline cl string_literal_content_scan
<'a>(i: CompleteStr<'a>) -> nom::IResult<CompleteStr<'a>, String, u32>
@broadcast last_custom_push
@spec
ensures rel(r, $p0, s_content(p_stop_single(), $p0.0@, Seq::empty()), vstring())

@fn parser::string::string_literal_content_scan -> r
@broadcast group_x, group_suffix, suf_unescape
@call new_builder = &crate::vxp::new_builder
@call iter_elements = &crate::vxp::iter_elements
@call extend_into = &crate::vxp::extend_into
@spec
ensures rel(r, $p0, s_content(p_stop_single(), $p0.0@, Seq::empty()), vstring())
@ghost start
let ghost mut g_rem: Seq<char> = $p0.0@;
proof { at_start($p0.0@); assert($p0.0@.skip($p0.0@.len() as int) =~= Seq::<char>::empty()); }
@loop 0
invariant at($p0.0@, index as int, g_rem), $p0.0@.skip($p0.0@.len() as int) == Seq::<char>::empty(), control_char == '\\',
    s_content(p_stop_single(), $p0.0@, Seq::empty()) == s_content(p_stop_single(), g_rem, res@),
decreases blen(g_rem)
@ghost loop 0 start
proof { let t = g_rem; suf_le(s_till1(p_stop_single(), t), t); content_step(p_stop_single(), t, res@); at_suffix($p0.0@, t.skip(first_idx(t, p_stop_single()))); at_suffix($p0.0@, t);
  if t.len() > 0 { blen_head(t); at_suffix($p0.0@, t.skip(1)); }
  if t.len() > 1 { match s_unescape(t.skip(1)) { PR::Ok(v_r, _) => { assert(is_suffix(v_r, $p0.0@)); at_suffix($p0.0@, v_r); }, _ => {} } }
}
@ghost loop 0 end
proof { g_rem = $p0.0@.skip(cidx($p0.0@, index as int)); }
@ghost loop 0 after
proof { at_suffix($p0.0@, g_rem); content_step(p_stop_single(), g_rem, res@); }
@closure 0 |$0: char| -> (b: bool)
ensures b == p_stop_single()($0)

@fn parser::string::multiline_string_content -> r
@outline cl multiline_string_content_scan
<'a>(i: CompleteStr<'a>) -> nom::IResult<CompleteStr<'a>, String, u32>
@broadcast last_custom_push
@spec
ensures rel(r, $p0, s_content(p_stop_multi(), $p0.0@, Seq::empty()), vstring())

@fn parser::string::multiline_string_content_scan -> r
@broadcast group_x, group_suffix, suf_unescape
@call new_builder = &crate::vxp::new_builder
@call iter_elements = &crate::vxp::iter_elements
@call extend_into = &crate::vxp::extend_into
@spec
ensures rel(r, $p0, s_content(p_stop_multi(), $p0.0@, Seq::empty()), vstring())
@ghost start
let ghost mut g_rem: Seq<char> = $p0.0@;
proof { at_start($p0.0@); assert($p0.0@.skip($p0.0@.len() as int) =~= Seq::<char>::empty()); }
@loop 0
invariant at($p0.0@, index as int, g_rem), $p0.0@.skip($p0.0@.len() as int) == Seq::<char>::empty(), control_char == '\\',
    s_content(p_stop_multi(), $p0.0@, Seq::empty()) == s_content(p_stop_multi(), g_rem, res@),
decreases blen(g_rem)
@ghost loop 0 start
proof { let t = g_rem; suf_le(s_till1(p_stop_multi(), t), t); content_step(p_stop_multi(), t, res@); at_suffix($p0.0@, t.skip(first_idx(t, p_stop_multi()))); at_suffix($p0.0@, t);
  if t.len() > 0 { blen_head(t); at_suffix($p0.0@, t.skip(1)); }
  if t.len() > 1 { match s_unescape(t.skip(1)) { PR::Ok(v_r, _) => { assert(is_suffix(v_r, $p0.0@)); at_suffix($p0.0@, v_r); }, _ => {} } }
}
@ghost loop 0 end
proof { g_rem = $p0.0@.skip(cidx($p0.0@, index as int)); }
@ghost loop 0 after
proof { at_suffix($p0.0@, g_rem); content_step(p_stop_multi(), g_rem, res@); }
@closure 0 |$0: char| -> (b: bool)
ensures b == p_stop_multi()($0)

@fn parser::string::quoted_string -> r
@broadcast group_x
@spec
ensures rel(r, $p0, s_quoted_string($p0.0@), vstring())

@fn parser::string::string_literal -> r
@broadcast group_x
@spec
ensures rel(r, $p0, s_string_literal($p0.0@), vstring())

@type parser::string::HereDoc

@fn parser::string::unindent_heredoc -> r
@broadcast group_x
@call len = &crate::vxp::t_len
@call split = crate::vxp::str_split
@call trim_start_matches = crate::vxp::trim_start_char
@call [a..] = crate::vxp::str_from
@spec
ensures r@ == s_undent($p0@, $p1 as int)
@ghost start
let ghost g_ls = split_at($p0@, '\n');
@loop 0
invariant $p1 > 0, vx_it0.seq().map_values(|x: &str| x@) == g_ls, result@ == undent_lines(g_ls.take(vx_it0.index@ as int), $p1 as int),
@ghost loop 0 start
proof { let l = line@; assert(g_ls[vx_it0.index@ as int] == l); undent_facts(l, $p1 as int); undent_step(g_ls, vx_it0.index@ as int, $p1 as int); }
let ghost g_old = result@;
@ghost loop 0 end
proof { assert(result@ =~= g_old + undent_line(line@, $p1 as int).push('\n')); }
@ghost loop 0 after
proof { undent_done(g_ls, $p1 as int); }

@fn parser::string::heredoc_begin -> r
@broadcast group_x, cs_eq_spec, cs_obeys_eq
@call while_predicate1 = crate::utils::while_predicate1_cs
@spec
ensures rel(r, $p0, s_hd_begin($p0.0@), vhd())
@closure 0 |$0: char| -> (b: bool)
ensures b == !p_not_marker()($0)

@fn parser::string::heredoc_end -> r
@broadcast group_x
@call len = &crate::vxp::t_len
@spec
ensures rel(r, $p0, s_hd_end($p1.identifier.0@, $p1.indented, $p0.0@), vint())
@ghost start
proof { let s = $p0.0@; let t = match s_eol(s) { PR::Ok(v_r, _) => v_r, _ => s }; first_idx_props(t, p_not_sp()); blanks_bytes(t, first_idx(t, p_not_sp())); }

@fn parser::string::heredoc_string -> r
@broadcast group_x
@call safe_indices = &crate::utils::text_indices
@spec
ensures rel(r, $p0, s_heredoc($p0.0@), vcow())
@ghost start
proof { assert(""@ =~= Seq::<char>::empty()); }
@ghost loop 0 start
proof { cidx_of(input.0@, vx_it0.index@ as int); }
@loop 0
invariant_except_break ret is None, s_hd_find(identifier.identifier.0@, identifier.indented, input.0@, 0) == s_hd_find(identifier.identifier.0@, identifier.indented, input.0@, vx_it0.index@ as int),
ensures ret is Some ==> rel(ret->0, input, s_hd_find(identifier.identifier.0@, identifier.indented, input.0@, 0), |x: (CompleteStr, usize)| (x.0.0@, x.1 as int)),
  ret is None ==> s_hd_find(identifier.identifier.0@, identifier.indented, input.0@, 0) == PR::<(Seq<char>, int)>::Err,

@fn parser::string::string -> r
@broadcast group_x
@spec
ensures rel(r, $p0, s_string($p0.0@), vcow())

@fn utils::char_index_take_index -> r
ensures r == $p0.0
@fn utils::text_indices -> r
@lift utils::<CompleteStr as SafeIndexing>::safe_indices <'a>(vx_self: &CompleteStr<'a>) -> Vec<usize>
@unfold map vec
@call char_indices = &crate::vxp::char_places
@spec
ensures r@.len() == vx_self.0@.len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == blen(vx_self.0@.take(k))
@loop 0
invariant vx_it0.seq().len() == vx_self.0@.len(), forall|k: int| 0 <= k < vx_it0.seq().len() ==> (#[trigger] vx_it0.seq()[k]).0 == blen(vx_self.0@.take(k)),
  vx_c@.len() == vx_it0.index@, forall|k: int| 0 <= k < vx_c@.len() ==> #[trigger] vx_c@[k] == blen(vx_self.0@.take(k)),
@fn utils::str_indices -> r
@lift utils::<&str as SafeIndexing>::safe_indices <'a, 'b>(vx_self: &'b &'a str) -> Vec<usize>
@unfold map vec
@call char_indices = crate::vxp::str_places
@spec
ensures r@.len() == vx_self@.len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == blen(vx_self@.take(k))
@loop 0
invariant vx_it0.seq().len() == vx_self@.len(), forall|k: int| 0 <= k < vx_it0.seq().len() ==> (#[trigger] vx_it0.seq()[k]).0 == blen(vx_self@.take(k)),
  vx_c@.len() == vx_it0.index@, forall|k: int| 0 <= k < vx_c@.len() ==> #[trigger] vx_c@[k] == blen(vx_self@.take(k)),
