// Owned copies (AsOwned)
verus! {
pub broadcast axiom fn to_string_cow<'a>(c: &Cow<'a, str>, s: String)
    ensures #[trigger] to_string_from_display_ensures::<Cow<'a, str>>(c, s) ==> s@ == c@;
/// `as_owned` called on a Cow<str> is the one of the str it derefs to (Cow<str> itself has none: the impl for Cow<B> needs B: Sized)
pub fn cow_as_owned<'a>(c: &Cow<'a, str>) -> (r: String)
    ensures r@ == c@
{ crate::str_as_owned(cow_str(c)) }
}
