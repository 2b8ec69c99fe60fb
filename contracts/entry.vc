@type MergeBehaviour
@fn parser::config_file -> r
@broadcast group_x
@spec
ensures rel(r, $p0, s_config($p0.0@), vvec(vbody()))
@fn parser::parse_str -> r
@broadcast group_x
@unfold map_err result
@call is_empty = &crate::vxp::cs_is_empty
@spec
ensures answers(r, s_config($p0@), vvec(vbody()))
@fn parser::expression::Expression::parse -> r
@broadcast group_x
@unfold map_err result
@call is_empty = &crate::vxp::cs_is_empty
@call to_string = &crate::vxp::cs_to_string
@spec
ensures answers_whole(r, $p0@)
@fn value::from_str -> r
@broadcast group_x
@unfold map_err result
@call is_empty = &crate::vxp::cs_is_empty
@spec
requires mergeable($p1)
ensures answers_merged(r, $p0@, $p1)

@fn parser::parse_slice -> r
@broadcast question_mark
@spec
ensures if vstd::utf8::valid_utf8($p0@) { answers(r, s_config(vstd::utf8::decode_utf8($p0@)), vvec(vbody())) } else { r matches Err(e) && e is InvalidUnicodeToParse }
@fn parser::parse_reader -> r
@broadcast question_mark
@call as_owned = &crate::vec_element_as_owned
@call read_to_string = &mut crate::vxp::read_all
@spec
ensures match read_text($p0) { Some(t) => answers(r, s_config(t), vvec(vbody())), None => r matches Err(e) && e is IOError }
@fn value::from_slice -> r
@broadcast question_mark
@spec
requires mergeable($p1)
ensures if vstd::utf8::valid_utf8($p0@) { answers_merged(r, vstd::utf8::decode_utf8($p0@), $p1) } else { r matches Err(e) && e is InvalidUnicodeToParse }
@fn value::from_reader -> r
@broadcast question_mark
@call as_owned = &crate::map_as_owned
@call read_to_string = &mut crate::vxp::read_all
@spec
requires mergeable($p1)
ensures match read_text($p0) { Some(t) => answers_merged(r, t, $p1), None => r matches Err(e) && e is IOError }
