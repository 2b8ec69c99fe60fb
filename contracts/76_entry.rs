// Entry points: texts, byte slices, readers
use crate::MergeBehaviour;
verus! {
/// a whole configuration
pub open spec fn s_config(s: Seq<char>) -> PR<Seq<BodyElemV>> {
    match s_body(s) { PR::Ok(r, v) => if r.len() == 0 { PR::Ok(r, v) } else { PR::Err }, x => x }
}
/// what an entry point returns: the value of the whole text, the dedicated error of a bad escape, or a parse error
pub open spec fn answers<T, V>(r: Result<T, Error>, p: PR<V>, f: spec_fn(T) -> V) -> bool {
    match p {
        PR::Ok(_, v) => r matches Ok(x) && f(x) == v,
        PR::Fail => r matches Err(e) && e is InvalidUnicodeCodePoint,
        PR::Err => r matches Err(e) && e is ParseError,
    }
}
/// a single expression: what is left over is reported
pub open spec fn answers_whole<'a>(r: Result<Expression<'a>, Error>, s: Seq<char>) -> bool {
    match s_expression(s) {
        PR::Ok(q, v) => if q.len() == 0 { r matches Ok(x) && eview(x) == v } else { r matches Err(Error::UnexpectedRemainingInput(t)) && t@ == q },
        PR::Fail => r matches Err(e) && e is InvalidUnicodeCodePoint,
        PR::Err => r matches Err(e) && e is ParseError,
    }
}
/// a value document, merged if asked to
pub open spec fn answers_merged<'a>(r: Result<KeyValuePairs<Key<'a>, Value<'a>>, Error>, s: Seq<char>, merge: Option<MergeBehaviour>) -> bool {
    match merge {
        None => answers(r, pr_map(s_document(s)), vmv()),
        Some(MergeBehaviour::Error) => match s_document(s) {
            PR::Ok(_, v) => match mmv(MvV::Unmerged(v)) { Some(m) => r matches Ok(x) && mview(x) == m, None => r is Err },
            _ => answers(r, pr_map(s_document(s)), vmv()),
        },
        _ => true,
    }
}
/// the other ways of merging are not implemented by the library
pub open spec fn mergeable(m: Option<MergeBehaviour>) -> bool { m is None || m == Some(MergeBehaviour::Error) }
#[verifier::external_body]
pub fn cs_is_empty<'b, 'a>(s: &'b CompleteStr<'a>) -> (r: bool) ensures r == (s.0@.len() == 0) { s.is_empty() }
#[verifier::external_body]
pub fn cs_to_string<'b, 'a>(s: &'b CompleteStr<'a>) -> (r: String) ensures r@ == s.0@ { s.to_string() }
/// the text a reader delivers to its end, if it does so without failing and the bytes are UTF-8
pub uninterp spec fn read_text<R>(r: R) -> Option<Seq<char>>;
#[verifier::external_trait_specification]
pub trait ExRead {
    type ExternalTraitSpecificationFor: std::io::Read;
}
/// Read::read_to_string: everything up to the end of the stream in whatever pieces it comes, or the failure
#[verifier::external_body]
pub fn read_all<R: std::io::Read>(reader: &mut R, buffer: &mut String) -> (r: Result<usize, std::io::Error>)
    ensures match read_text(*old(reader)) { Some(t) => r is Ok && final(buffer)@ == old(buffer)@ + t, None => r is Err }
{ reader.read_to_string(buffer) }
}
verus! {
/// `?` converts an error with From::from
pub broadcast axiom fn question_mark<S, T: From<S>>(s: S, t: T)
    requires #[trigger] vstd::std_specs::control_flow::spec_from::<T, S>(s, t), <T as vstd::std_specs::convert::FromSpec<S>>::obeys_from_spec()
    ensures t == <T as vstd::std_specs::convert::FromSpec<S>>::from_spec(s);
}
