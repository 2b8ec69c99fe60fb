// Identifiers and literals (identifier.rs, boolean.rs, null.rs)
verus! {
/// the character classes of UAX 31 are those of the unic tables
pub uninterp spec fn id_start(c: char) -> bool;
pub uninterp spec fn id_cont(c: char) -> bool;
pub assume_specification[unic_ucd_ident::is_id_start](c: char) -> (r: bool) ensures r == id_start(c);
pub assume_specification[unic_ucd_ident::is_id_continue](c: char) -> (r: bool) ensures r == id_cont(c);

pub open spec fn p_not_ident() -> spec_fn(char) -> bool { |c: char| !(id_cont(c) || c == '-') }
pub open spec fn s_ident(s: Seq<char>) -> PR<Seq<char>> {
    match s_till1(p_not_ident(), s) {
        PR::Ok(r, v) => if id_start(v[0]) || v[0] == '_' { PR::Ok(r, v) } else { PR::Err },
        x => x,
    }
}
pub open spec fn s_bool(s: Seq<char>) -> PR<bool> {
    if "true"@.is_prefix_of(s) { PR::Ok(s.skip(4), true) } else if "false"@.is_prefix_of(s) { PR::Ok(s.skip(5), false) } else { PR::Err }
}
pub open spec fn s_null(s: Seq<char>) -> PR<()> { if "null"@.is_prefix_of(s) { PR::Ok(s.skip(4), ()) } else { PR::Err } }
pub open spec fn vid<T>() -> spec_fn(T) -> T { |t: T| t }
}
verus! {
pub assume_specification[<char as AsChar>::as_char](c: char) -> (r: char) ensures r == c;
/// Iterator::nth of the characters of a text
#[verifier::external_body]
pub fn chars_nth<'a>(it: std::str::Chars<'a>, n: usize) -> (r: Option<char>)
    ensures vstd::std_specs::iter::IteratorSpec::remaining(&it).len() > n ==> r == Some(vstd::std_specs::iter::IteratorSpec::remaining(&it)[n as int]),
        vstd::std_specs::iter::IteratorSpec::remaining(&it).len() <= n ==> r is None,
{ let mut it = it; it.nth(n) }
/// the characters of a CompleteStr (through its Deref to str)
#[verifier::external_body]
pub fn cs_chars<'a>(c: CompleteStr<'a>) -> (r: std::str::Chars<'a>)
    ensures vstd::std_specs::iter::IteratorSpec::remaining(&r) == c.0@,
{ c.0.chars() }
}
