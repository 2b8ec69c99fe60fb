@type parser::number::Number
@type parser::number::Exponent

@fn parser::number::Number::new -> r
ensures nview(r) == (NumV { input: $p0@, positive: $p1, whole: ocow($p2), fraction: ocow($p3), exp: oexp($p4) })

@fn parser::number::Number::is_signed -> r
ensures r == !is_fl(nview(*self))

@fn parser::number::Number::is_unsigned -> r
ensures r == (!is_fl(nview(*self)) && self.positive)

@fn parser::number::Number::is_float -> r
ensures r == is_fl(nview(*self))

@fn parser::number::exponent -> r
@broadcast group_x, suf_digits, blen_txt_char, head_ascii
@call len = &crate::vxp::t_len
@call iter_elements = &crate::vxp::iter_elements
@unfold map option
@spec
ensures rel(r, $p0, s_exponent($p0.0@), voexp())

@fn parser::number::number -> r
@broadcast group_x, blen_txt_char, head_ascii
@call len = &crate::vxp::t_len
@call iter_elements = &crate::vxp::iter_elements
@unfold map option
@spec
ensures rel(r, $p0, s_number($p0.0@), vnum())
@ghost start
proof { assert(""@ =~= Seq::<char>::empty()); 
  let s = $p0.0@; suf_number(s); match s_number(s) { PR::Ok(v_r, _) => prefix_of_suffix(s, v_r), _ => {} } }

@fn parser::number::Number::as_u8 -> r
@call as_ref = &crate::vxp::cow_str
@call parse = crate::vxp::str_parse
@spec
ensures opt(r) == <u8 as Parse>::parsed(self.input@)

@fn parser::number::Number::as_u16 -> r
@call as_ref = &crate::vxp::cow_str
@call parse = crate::vxp::str_parse
@spec
ensures opt(r) == <u16 as Parse>::parsed(self.input@)

@fn parser::number::Number::as_u32 -> r
@call as_ref = &crate::vxp::cow_str
@call parse = crate::vxp::str_parse
@spec
ensures opt(r) == <u32 as Parse>::parsed(self.input@)

@fn parser::number::Number::as_u64 -> r
@call as_ref = &crate::vxp::cow_str
@call parse = crate::vxp::str_parse
@spec
ensures opt(r) == <u64 as Parse>::parsed(self.input@)

@fn parser::number::Number::as_u128 -> r
@call as_ref = &crate::vxp::cow_str
@call parse = crate::vxp::str_parse
@spec
ensures opt(r) == <u128 as Parse>::parsed(self.input@)

@fn parser::number::Number::as_i8 -> r
@call as_ref = &crate::vxp::cow_str
@call parse = crate::vxp::str_parse
@spec
ensures opt(r) == <i8 as Parse>::parsed(self.input@)

@fn parser::number::Number::as_i16 -> r
@call as_ref = &crate::vxp::cow_str
@call parse = crate::vxp::str_parse
@spec
ensures opt(r) == <i16 as Parse>::parsed(self.input@)

@fn parser::number::Number::as_i32 -> r
@call as_ref = &crate::vxp::cow_str
@call parse = crate::vxp::str_parse
@spec
ensures opt(r) == <i32 as Parse>::parsed(self.input@)

@fn parser::number::Number::as_i64 -> r
@call as_ref = &crate::vxp::cow_str
@call parse = crate::vxp::str_parse
@spec
ensures opt(r) == <i64 as Parse>::parsed(self.input@)

@fn parser::number::Number::as_i128 -> r
@call as_ref = &crate::vxp::cow_str
@call parse = crate::vxp::str_parse
@spec
ensures opt(r) == <i128 as Parse>::parsed(self.input@)

@fn parser::number::Number::as_f32 -> r
@call as_ref = &crate::vxp::cow_str
@call parse = crate::vxp::str_parse
@spec
ensures opt(r) == <f32 as Parse>::parsed(self.input@)

@fn parser::number::Number::as_f64 -> r
@call as_ref = &crate::vxp::cow_str
@call parse = crate::vxp::str_parse
@spec
ensures opt(r) == <f64 as Parse>::parsed(self.input@)

@fn parser::number::number_from_u8 -> r
@lift parser::number::<Number as From<u8>>::from <'a>(n: u8) -> Number<'a>
@subst Self = Number<'a>
@broadcast num_of_int_lit, ts_u8, dec_round
@spec
ensures nview(r) == num_of_int(n as int), s_number(r.input@) == PR::Ok(Seq::empty(), nview(r)), <u8 as Parse>::parsed(r.input@) == Some(n)

@fn parser::number::number_from_u16 -> r
@lift parser::number::<Number as From<u16>>::from <'a>(n: u16) -> Number<'a>
@subst Self = Number<'a>
@broadcast num_of_int_lit, ts_u16, dec_round
@spec
ensures nview(r) == num_of_int(n as int), s_number(r.input@) == PR::Ok(Seq::empty(), nview(r)), <u16 as Parse>::parsed(r.input@) == Some(n)

@fn parser::number::number_from_u32 -> r
@lift parser::number::<Number as From<u32>>::from <'a>(n: u32) -> Number<'a>
@subst Self = Number<'a>
@broadcast num_of_int_lit, ts_u32, dec_round
@spec
ensures nview(r) == num_of_int(n as int), s_number(r.input@) == PR::Ok(Seq::empty(), nview(r)), <u32 as Parse>::parsed(r.input@) == Some(n)

@fn parser::number::number_from_u64 -> r
@lift parser::number::<Number as From<u64>>::from <'a>(n: u64) -> Number<'a>
@subst Self = Number<'a>
@broadcast num_of_int_lit, ts_u64, dec_round
@spec
ensures nview(r) == num_of_int(n as int), s_number(r.input@) == PR::Ok(Seq::empty(), nview(r)), <u64 as Parse>::parsed(r.input@) == Some(n)

@fn parser::number::number_from_u128 -> r
@lift parser::number::<Number as From<u128>>::from <'a>(n: u128) -> Number<'a>
@subst Self = Number<'a>
@broadcast num_of_int_lit, ts_u128, dec_round
@spec
ensures nview(r) == num_of_int(n as int), s_number(r.input@) == PR::Ok(Seq::empty(), nview(r)), <u128 as Parse>::parsed(r.input@) == Some(n)

@fn parser::number::number_from_i8 -> r
@lift parser::number::<Number as From<i8>>::from <'a>(n: i8) -> Number<'a>
@subst Self = Number<'a>
@call trim_start_matches = &crate::vxp::trim_start_string
@broadcast num_of_int_lit, ts_i8, dec_round, dec_unsigned, to_string_str
@spec
ensures nview(r) == num_of_int(n as int), s_number(r.input@) == PR::Ok(Seq::empty(), nview(r)), <i8 as Parse>::parsed(r.input@) == Some(n)

@fn parser::number::number_from_i16 -> r
@lift parser::number::<Number as From<i16>>::from <'a>(n: i16) -> Number<'a>
@subst Self = Number<'a>
@call trim_start_matches = &crate::vxp::trim_start_string
@broadcast num_of_int_lit, ts_i16, dec_round, dec_unsigned, to_string_str
@spec
ensures nview(r) == num_of_int(n as int), s_number(r.input@) == PR::Ok(Seq::empty(), nview(r)), <i16 as Parse>::parsed(r.input@) == Some(n)

@fn parser::number::number_from_i32 -> r
@lift parser::number::<Number as From<i32>>::from <'a>(n: i32) -> Number<'a>
@subst Self = Number<'a>
@call trim_start_matches = &crate::vxp::trim_start_string
@broadcast num_of_int_lit, ts_i32, dec_round, dec_unsigned, to_string_str
@spec
ensures nview(r) == num_of_int(n as int), s_number(r.input@) == PR::Ok(Seq::empty(), nview(r)), <i32 as Parse>::parsed(r.input@) == Some(n)

@fn parser::number::number_from_i64 -> r
@lift parser::number::<Number as From<i64>>::from <'a>(n: i64) -> Number<'a>
@subst Self = Number<'a>
@call trim_start_matches = &crate::vxp::trim_start_string
@broadcast num_of_int_lit, ts_i64, dec_round, dec_unsigned, to_string_str
@spec
ensures nview(r) == num_of_int(n as int), s_number(r.input@) == PR::Ok(Seq::empty(), nview(r)), <i64 as Parse>::parsed(r.input@) == Some(n)

@fn parser::number::number_from_i128 -> r
@lift parser::number::<Number as From<i128>>::from <'a>(n: i128) -> Number<'a>
@subst Self = Number<'a>
@call trim_start_matches = &crate::vxp::trim_start_string
@broadcast num_of_int_lit, ts_i128, dec_round, dec_unsigned, to_string_str
@spec
ensures nview(r) == num_of_int(n as int), s_number(r.input@) == PR::Ok(Seq::empty(), nview(r)), <i128 as Parse>::parsed(r.input@) == Some(n)

@fn parser::number::number_from_f32 -> r
@lift parser::number::<Number as From<f32>>::from <'a>(n: f32) -> Number<'a>
@subst Self = Number<'a>
@call split = &crate::vxp::split_pieces
@broadcast group_f32_text, num_of_dec_lit, piece_digits, to_string_str
@spec
ensures fin32(n) ==> nview(r) == num_of_dec(neg32(n), mag32(n)) && s_number(r.input@) == PR::Ok(Seq::empty(), nview(r)) && <f32 as Parse>::parsed(r.input@) == Some(n)

@fn parser::number::number_from_f64 -> r
@lift parser::number::<Number as From<f64>>::from <'a>(n: f64) -> Number<'a>
@subst Self = Number<'a>
@call split = &crate::vxp::split_pieces
@broadcast group_f64_text, num_of_dec_lit, piece_digits, to_string_str
@spec
ensures fin64(n) ==> nview(r) == num_of_dec(neg64(n), mag64(n)) && s_number(r.input@) == PR::Ok(Seq::empty(), nview(r)) && <f64 as Parse>::parsed(r.input@) == Some(n)

@fn parser::number::number_eq -> r
@lift parser::number::<Number as std::cmp::PartialEq>::eq <'a>(vx_self: &Number<'a>, other: &Number<'a>) -> bool
@subst Self = Number<'a>
@broadcast cow_eq_spec, cow_obeys_eq, group_f64
@spec
ensures vx_self.input@ == other.input@ ==> r,
  !(vx_self.input@ == other.input@) && !is_fl(nview(*vx_self)) && !is_fl(nview(*other)) && vx_self.positive && other.positive ==> (r <==> ranged(u_lit(vx_self.input@), 0, u128::MAX as int) is Some && ranged(u_lit(vx_self.input@), 0, u128::MAX as int) == ranged(u_lit(other.input@), 0, u128::MAX as int)),
  !(vx_self.input@ == other.input@) && !is_fl(nview(*vx_self)) && !is_fl(nview(*other)) && !(vx_self.positive && other.positive) ==> (r <==> ranged(i_lit(vx_self.input@), i128::MIN as int, i128::MAX as int) is Some && ranged(i_lit(vx_self.input@), i128::MIN as int, i128::MAX as int) == ranged(i_lit(other.input@), i128::MIN as int, i128::MAX as int)),
  !(vx_self.input@ == other.input@) && (is_fl(nview(*vx_self)) || is_fl(nview(*other))) ==> match (f64_of(vx_self.input@), f64_of(other.input@)) { (Some(a), Some(b)) => f64_eq(a, b) ==> r, _ => !r },

@fn parser::number::number_deref -> r
@lift parser::number::<Number as Deref>::deref <'b, 'a>(vx_self: &'b Number<'a>) -> &'b str
@call as_ref = &crate::vxp::cow_str
@spec
ensures r@ == vx_self.input@
