@fn utils::while_predicate1_cs -> r
@lift utils::while_predicate1 <'a, F: Fn(char) -> bool>(input: CompleteStr<'a>, predicate: F) -> nom::IResult<CompleteStr<'a>, CompleteStr<'a>>
@spec
requires forall|c: char| #[trigger] $p1.requires((c,))
ensures forall|p: spec_fn(char) -> bool| (forall|c: char, b: bool| $p1.ensures((c,), b) ==> b == !p(c)) ==> rel(r, $p0, #[trigger] s_till1(p, $p0.0@), vstr())
@closure 0 |$0: char| -> (b: bool)
ensures $p1.ensures(($0,), !b)

@fn parser::identifier::identifier -> r
@broadcast group_x
@call while_predicate1 = crate::utils::while_predicate1_cs
@call chars = crate::vxp::cs_chars
@call nth = crate::vxp::chars_nth
@spec
ensures rel(r, $p0, s_ident($p0.0@), vcow())
@closure 0 |$0: char| -> (b: bool)
ensures b == !p_not_ident()($0)

@fn parser::boolean::boolean -> r
@broadcast group_x
@spec
ensures rel(r, $p0, s_bool($p0.0@), vid())

@fn parser::null::null -> r
@broadcast group_x
@spec
ensures rel(r, $p0, s_null($p0.0@), vid())
@inject utils
use nom::InputTakeAtPosition;
