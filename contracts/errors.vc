// errors.rs
@type errors::InternalKind
@type OneOrMany
@fn errors::InternalKind::from_u32 -> r
ensures r == kind_of_code($p0)
@fn errors::<u32 as From<InternalKind>>::from -> r
ensures r == code_of_kind($p0)
@fn errors::<InternalKind as From<std::str::Utf8Error>>::from -> r
ensures r == InternalKind::InvalidUnicode
@fn errors::<InternalKind as From<std::num::ParseIntError>>::from -> r
ensures r == InternalKind::InvalidNumber
@fn errors::<InternalKind as From<std::num::ParseFloatError>>::from -> r
ensures r == InternalKind::InvalidNumber
@fn errors::<Error as From<std::io::Error>>::from -> r
ensures r == Error::IOError($p0)
@fn errors::<Error as From<std::str::Utf8Error>>::from -> r
ensures r == Error::InvalidUnicodeToParse($p0)
@fn errors::Error::new_generic -> r
ensures r is ParseError
@fn errors::Error::from_input_and_code -> r
@broadcast to_string_str
@unfold unwrap_or_else option
@call as_bytes = crate::vxp::as_bytes_of
@spec
requires total_fn($p2)
ensures carries_code(r, *$p0, $p1, texts_by($p2))
@fn errors::Error::from_context -> r
@broadcast last_custom_props
@unfold and_then option
@call iter = crate::vxp::same_ref
@call rev = crate::vxp::refs_rev
@spec
requires total_fn($p1)
ensures context_carries(r, *$p0, texts_by($p1))
@loop 0
invariant_except_break vx_found is None, last_custom(list@) == last_custom(list@.take(list@.len() - vx_it0.index@)),
  vx_it0.seq().len() == list@.len(), forall|k: int| 0 <= k < list@.len() ==> *(#[trigger] vx_it0.seq()[k]) == list@[list@.len() - 1 - k],
ensures found_custom(vx_found, list@),
@ghost loop 0 before
proof { assert(list@.take(list@.len() as int) =~= list@); }
@ghost loop 0 start
proof { last_custom_step(list@, list@.len() - vx_it0.index@); }
@fn errors::Error::convert_context -> r
@unfold unwrap_or_else option
@broadcast total_ref, carries_ref
@unfold collect vec
@call description = &crate::vxp::error_description
@spec
requires total_fn($p1)
ensures context_error(r, $p0, texts_by($p1))
@loop 0
invariant total_fn::<I, F>($p1), vx_it0.seq() == g_l, entries_mapped(vx_c, g_l, vx_it0.index@ as int, texts_by($p1)),
@ghost loop 0 before
let ghost g_l = list@;
@fn errors::Error::from_err -> r
requires total_fn($p1)
ensures err_carries(r, *$p0, texts_by($p1))
@fn errors::Error::make_custom_error -> r
requires total_fn($p1)
ensures err_mapped(r, $p0, texts_by($p1))
@fn errors::Error::from_err_str -> r
@broadcast to_string_str, err_text
@call as_ref = crate::vxp::as_str_of
@closure 0 |$0: &I| -> (o: Option<String>)
ensures o matches Some(t) && t@ == text_of(*$0)
@spec
ensures err_carries(r, *$p0, tx_text())
@fn errors::Error::from_err_bytes -> r
@broadcast to_string_str, err_utf8
@call as_bytes = crate::vxp::as_bytes_of
@unfold map option
@closure 0 |$0: &I| -> (o: Option<String>)
ensures match o { Some(t) => vstd::utf8::valid_utf8(bytes_of(*$0)) && t@ == vstd::utf8::decode_utf8(bytes_of(*$0)), None => !vstd::utf8::valid_utf8(bytes_of(*$0)) }
@spec
ensures err_carries(r, *$p0, tx_bytes())
@fn errors::Error::make_custom_err_str -> r
@broadcast to_string_str, mapped_text
@call as_ref = crate::vxp::as_str_of
@closure 0 |$0: &I| -> (o: Option<String>)
ensures o matches Some(t) && t@ == text_of(*$0)
@spec
ensures err_mapped(r, $p0, tx_text())
@fn errors::Error::make_custom_err_bytes -> r
@broadcast to_string_str, mapped_utf8
@call as_bytes = crate::vxp::as_bytes_of
@unfold map option
@closure 0 |$0: &I| -> (o: Option<String>)
ensures match o { Some(t) => vstd::utf8::valid_utf8(bytes_of(*$0)) && t@ == vstd::utf8::decode_utf8(bytes_of(*$0)), None => !vstd::utf8::valid_utf8(bytes_of(*$0)) }
@spec
ensures err_mapped(r, $p0, tx_bytes())
