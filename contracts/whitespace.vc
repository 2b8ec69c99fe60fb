@fn parser::whitespace::not_eol -> r
ensures r == !is_eol_char($p0)

@fn parser::whitespace::inline_comment -> r
@broadcast group_x
@spec
ensures rel(r, $p0, s_inline_comment($p0.0@), vstr())

@fn parser::whitespace::hash_comment -> r
@broadcast group_x
@spec
ensures rel(r, $p0, s_hash_comment($p0.0@), vstr())
@closure 0 |$0: char| -> (b: bool)
ensures b == is_eol_char($0)

@fn parser::whitespace::slash_comment -> r
@broadcast group_x
@spec
ensures rel(r, $p0, s_slash_comment($p0.0@), vstr())
@closure 0 |$0: char| -> (b: bool)
ensures b == is_eol_char($0)

@fn parser::whitespace::line_comment -> r
@broadcast group_x
@spec
ensures rel(r, $p0, s_line_comment($p0.0@), vstr())

@fn parser::whitespace::inline_whitespace -> r
@broadcast group_x
@spec
ensures rel(r, $p0, s_iws($p0.0@), vvec(vstr()))
@loop 0
invariant_except_break
    mend(input) == mend($p0),
    s_iws($p0.0@) == s_many0(p_iws_item(), input.0@, res@.map_values(vstr())),
ensures rel(ret, $p0, s_iws($p0.0@), vvec(vstr()))
decreases input.0@.len()
@ghost loop 0 before
proof { assert(res@.map_values(vstr()) =~= Seq::<Seq<char>>::empty()); }
@ghost loop 0 start
proof { suf_iws_item(input.0@); suf_le(s_iws_item(input.0@), input.0@); }
@closure 0 |$0: char| -> (b: bool)
ensures b == p_not_sp()($0)

@fn parser::whitespace::whitespace -> r
@broadcast group_x
@spec
ensures rel(r, $p0, s_ws($p0.0@), vvec(vstr()))
@loop 0
invariant_except_break
    mend(input) == mend($p0),
    s_ws($p0.0@) == s_many0(p_ws_item(), input.0@, res@.map_values(vstr())),
ensures rel(ret, $p0, s_ws($p0.0@), vvec(vstr()))
decreases input.0@.len()
@ghost loop 0 before
proof { assert(res@.map_values(vstr()) =~= Seq::<Seq<char>>::empty()); }
@ghost loop 0 start
proof { suf_ws_item(input.0@); suf_le(s_ws_item(input.0@), input.0@); }
@closure 0 |$0: char| -> (b: bool)
ensures b == p_not_spnl()($0)

@fn parser::whitespace::newline -> r
@broadcast group_x
@spec
ensures rel(r, $p0, s_newline($p0.0@), vvec(vstr()))
@loop 0
invariant_except_break
    mend(input) == mend($p0),
    error is None,
    s_newline($p0.0@) == s_many0(p_nl_item(), input.0@, res_5@.map_values(vstr())),
ensures match error {
    None => mend(input) == mend($p0) && s_newline($p0.0@) == PR::Ok(input.0@, res_5@.map_values(vstr())),
    Some(e) => rel(Err::<(CompleteStr, Vec<CompleteStr>), nom::Err<CompleteStr, u32>>(e), $p0, s_newline($p0.0@), vvec(vstr())),
}
decreases input.0@.len()
@ghost loop 0 before
proof { assert(res_5@.map_values(vstr()) =~= seq![vstr()(o1)]); }
@ghost loop 0 start
proof { suf_nl_item(input.0@); suf_le(s_nl_item(input.0@), input.0@); }

