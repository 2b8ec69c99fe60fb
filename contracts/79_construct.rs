// building values, expressions and their parts from plain data
verus! {
pub open spec fn maps_upto<'a>(r: Vec<KeyValuePairs<Key<'a>, Value<'a>>>, s: Seq<Vec<(Key<'a>, Value<'a>)>>, n: int) -> bool {
    r@.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == KeyValuePairs::<Key<'a>, Value<'a>>::Unmerged(s[i])
}
pub open spec fn named_upto<'a>(r: Vec<(ObjectElementIdentifier<'a>, Expression<'a>)>, s: Seq<(&'a str, Expression<'a>)>, n: int) -> bool {
    r@.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]).0 is Identifier && r@[i].0->Identifier_0@ == s[i].0@ && r@[i].1 == s[i].1
}
pub broadcast axiom fn text_of_str<'a>(s: &'a str) ensures #[trigger] text_of::<&'a str>(s) == s@;
#[verifier::external_body]
pub fn cow_eq_str<'a>(c: &Cow<'a, str>, s: &str) -> (r: bool) ensures r == (c@ == s@) { c.eq(s) }
pub broadcast axiom fn text_of_string(s: String) ensures #[trigger] text_of::<String>(s) == s@;
}
verus! {
/// what a Cow derefs to
pub uninterp spec fn cow_inner<'a, 'b, B: ?Sized + std::borrow::ToOwned>(c: &'b Cow<'a, B>) -> &'b B;
pub assume_specification<'a, 'b, B: ?Sized + std::borrow::ToOwned>[<Cow<'a, B> as std::ops::Deref>::deref](c: &'b Cow<'a, B>) -> (r: &'b B) ensures r == cow_inner(c);
pub broadcast axiom fn cow_inner_str<'a, 'b>(c: &'b Cow<'a, str>) ensures (#[trigger] cow_inner::<str>(c))@ == c@;
}
