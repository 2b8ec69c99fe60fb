// Parse errors (errors.rs)
use crate::errors::InternalKind;
verus! {
#[verifier::external_trait_specification]
pub trait ExAsBytes {
    type ExternalTraitSpecificationFor: nom::AsBytes;
    fn as_bytes(&self) -> &[u8];
}
/// the library error a code stands for
pub open spec fn kind_of_code(c: u32) -> Option<InternalKind> {
    if c == 0 { Some(InternalKind::InvalidUnicodeCodePoint) } else if c == 1 { Some(InternalKind::InvalidUnicode) } else if c == 2 { Some(InternalKind::InvalidNumber) } else { None }
}
pub open spec fn code_of_kind(k: InternalKind) -> u32 {
    match k { InternalKind::InvalidUnicodeCodePoint => 0, InternalKind::InvalidUnicode => 1, InternalKind::InvalidNumber => 2 }
}
/// codes and kinds correspond one to one
pub proof fn codes_one_to_one(k: InternalKind, c: u32)
    ensures kind_of_code(code_of_kind(k)) == Some(k), kind_of_code(c) matches Some(j) ==> code_of_kind(j) == c,
{}
/// the bytes of an input
pub uninterp spec fn bytes_of<I>(i: I) -> Seq<u8>;
#[verifier::external_body]
pub fn as_bytes_of<'b, I: nom::AsBytes>(i: &'b I) -> (r: &'b [u8]) ensures r@ == bytes_of(*i) { i.as_bytes() }
/// the texts `f` may give for an input (UNKNOWN if it gives none)
pub open spec fn texts_by<I, F: Fn(&I) -> Option<String>>(f: F) -> spec_fn(I, Seq<char>) -> bool {
    |i: I, t: Seq<char>| exists|o: Option<String>| #[trigger] f.ensures((&i,), o) && t == (match o { Some(x) => x@, None => "UNKNOWN"@ })
}
/// the error a code carried by a failure at `i` is mapped to; `tx` tells the offending texts
pub open spec fn carries<I>(e: Error, i: I, k: InternalKind, tx: spec_fn(I, Seq<char>) -> bool) -> bool {
    match k {
        InternalKind::InvalidUnicodeCodePoint => e matches Error::InvalidUnicodeCodePoint(t) && tx(i, t@),
        InternalKind::InvalidUnicode => e matches Error::InvalidUnicode(b) && b@ =~= bytes_of(i),
        InternalKind::InvalidNumber => e matches Error::InvalidNumber(t) && tx(i, t@),
    }
}
pub open spec fn carries_code<I>(r: Option<Error>, i: I, c: u32, tx: spec_fn(I, Seq<char>) -> bool) -> bool {
    match kind_of_code(c) { None => r is None, Some(k) => r matches Some(e) && carries(e, i, k, tx) }
}
/// an entry of a context becomes the error its code stands for, or a generic one
pub open spec fn entry_error<I>(e: nom::ErrorKind<Error>, i: I, k: nom::ErrorKind<u32>, tx: spec_fn(I, Seq<char>) -> bool) -> bool {
    e matches nom::ErrorKind::Custom(x) && match k {
        nom::ErrorKind::Custom(c) => match kind_of_code(c) { None => x is ParseError, Some(j) => carries(x, i, j, tx) },
        _ => x is ParseError,
    }
}
pub open spec fn entries_error<I>(m: Seq<(I, nom::ErrorKind<Error>)>, l: Seq<(I, nom::ErrorKind<u32>)>, n: int, tx: spec_fn(I, Seq<char>) -> bool) -> bool {
    m.len() == n && forall|k: int| 0 <= k < n ==> (#[trigger] m[k]).0 == l[k].0 && entry_error(m[k].1, l[k].0, l[k].1, tx)
}
pub open spec fn context_error<I>(r: nom::Context<I, Error>, c: nom::Context<I, u32>, tx: spec_fn(I, Seq<char>) -> bool) -> bool {
    match c {
        nom::Context::Code(i, k) => r matches nom::Context::Code(j, e) && j == i && entry_error(e, i, k, tx),
        nom::Context::List(l) => r matches nom::Context::List(m) && entries_error(m@, l@, l@.len() as int, tx),
    }
}
pub open spec fn custom_code<I>(p: (I, nom::ErrorKind<u32>)) -> Option<u32> {
    match p.1 { nom::ErrorKind::Custom(c) => Some(c), _ => None }
}
/// position of the innermost custom code in a list of contexts, -1 if none
pub open spec fn last_custom<I>(l: Seq<(I, nom::ErrorKind<u32>)>) -> int
    decreases l.len()
{
    if l.len() == 0 { -1 } else if custom_code(l.last()) is Some { l.len() - 1 } else { last_custom(l.drop_last()) }
}
pub broadcast proof fn last_custom_props<I>(l: Seq<(I, nom::ErrorKind<u32>)>)
    ensures -1 <= #[trigger] last_custom(l) < l.len(), last_custom(l) >= 0 ==> custom_code(l[last_custom(l)]) is Some,
    decreases l.len()
{ if l.len() > 0 && custom_code(l.last()) is None { last_custom_props(l.drop_last()); } }
pub broadcast proof fn last_custom_push<I>(l: Seq<(I, nom::ErrorKind<u32>)>, x: (I, nom::ErrorKind<u32>))
    ensures #[trigger] last_custom(l.push(x)) == (if custom_code(x) is Some { l.len() as int } else { last_custom(l) }), -1 <= last_custom(l) < l.len()
{ assert(l.push(x).drop_last() =~= l); last_custom_props(l); }
/// the custom code a context carries, and where
pub open spec fn custom_at<I>(c: nom::Context<I, u32>) -> Option<(I, u32)> {
    match c {
        nom::Context::Code(i, nom::ErrorKind::Custom(c)) => Some((i, c)),
        nom::Context::Code(i, _) => None,
        nom::Context::List(l) => if last_custom(l@) < 0 { None } else { Some((l@[last_custom(l@)].0, custom_code(l@[last_custom(l@)])->Some_0)) },
    }
}
/// the error carried by a context
pub open spec fn context_carries<I>(r: Option<Error>, c: nom::Context<I, u32>, tx: spec_fn(I, Seq<char>) -> bool) -> bool {
    match custom_at(c) { None => r is None, Some(p) => carries_code(r, p.0, p.1, tx) }
}
/// a failure that carries a known code gives its error, everything else a generic one
pub open spec fn err_carries<I>(r: Error, e: nom::Err<I, u32>, tx: spec_fn(I, Seq<char>) -> bool) -> bool {
    match err_kind(e) { Some(p) => carries(r, p.0, p.1, tx), None => r is ParseError }
}
pub open spec fn err_kind<I>(e: nom::Err<I, u32>) -> Option<(I, InternalKind)> {
    match e {
        nom::Err::Failure(c) => match custom_at(c) { None => None, Some(p) => match kind_of_code(p.1) { None => None, Some(k) => Some((p.0, k)) } },
        _ => None,
    }
}
/// same severity, entries mapped one by one
pub open spec fn err_mapped<I>(r: nom::Err<I, Error>, e: nom::Err<I, u32>, tx: spec_fn(I, Seq<char>) -> bool) -> bool {
    match e {
        nom::Err::Incomplete(n) => r == nom::Err::<I, Error>::Incomplete(n),
        nom::Err::Error(c) => r matches nom::Err::Error(d) && context_error(d, c, tx),
        nom::Err::Failure(c) => r matches nom::Err::Failure(d) && context_error(d, c, tx),
    }
}
/// more texts allowed
pub open spec fn tx_le<I>(a: spec_fn(I, Seq<char>) -> bool, b: spec_fn(I, Seq<char>) -> bool) -> bool { forall|i: I, t: Seq<char>| #[trigger] a(i, t) ==> b(i, t) }
pub proof fn err_carries_mono<I>(r: Error, e: nom::Err<I, u32>, a: spec_fn(I, Seq<char>) -> bool, b: spec_fn(I, Seq<char>) -> bool)
    requires err_carries(r, e, a), tx_le(a, b) ensures err_carries(r, e, b)
{ match err_kind(e) { Some(p) => { carries_mono(r, p.0, p.1, a, b); }, None => {} } }
pub proof fn carries_mono<I>(e: Error, i: I, k: InternalKind, a: spec_fn(I, Seq<char>) -> bool, b: spec_fn(I, Seq<char>) -> bool)
    requires carries(e, i, k, a), tx_le(a, b) ensures carries(e, i, k, b)
{ match e { Error::InvalidUnicodeCodePoint(t) | Error::InvalidNumber(t) => { assert(a(i, t@) ==> b(i, t@)); }, _ => {} } }
pub proof fn entry_mono<I>(e: nom::ErrorKind<Error>, i: I, k: nom::ErrorKind<u32>, a: spec_fn(I, Seq<char>) -> bool, b: spec_fn(I, Seq<char>) -> bool)
    requires entry_error(e, i, k, a), tx_le(a, b) ensures entry_error(e, i, k, b)
{
    match (e, k) { (nom::ErrorKind::Custom(x), nom::ErrorKind::Custom(c)) => { match kind_of_code(c) { Some(j) => { carries_mono(x, i, j, a, b); }, None => {} } }, _ => {} }
}
pub proof fn err_mapped_mono<I>(r: nom::Err<I, Error>, e: nom::Err<I, u32>, a: spec_fn(I, Seq<char>) -> bool, b: spec_fn(I, Seq<char>) -> bool)
    requires err_mapped(r, e, a), tx_le(a, b) ensures err_mapped(r, e, b)
{
    match (r, e) {
        (nom::Err::Error(d), nom::Err::Error(c)) | (nom::Err::Failure(d), nom::Err::Failure(c)) => {
            match (d, c) {
                (nom::Context::Code(j, x), nom::Context::Code(i, k)) => { entry_mono(x, i, k, a, b); },
                (nom::Context::List(m), nom::Context::List(l)) => {
                    assert forall|n: int| 0 <= n < l@.len() implies (#[trigger] m@[n]).0 == l@[n].0 && entry_error(m@[n].1, l@[n].0, l@[n].1, b) by { entry_mono(m@[n].1, l@[n].0, l@[n].1, a, b); }
                },
                _ => {},
            }
        },
        _ => {},
    }
}
/// the text of an input
pub uninterp spec fn text_of<I>(i: I) -> Seq<char>;
pub broadcast axiom fn text_of_cs(c: CompleteStr) ensures #[trigger] text_of::<CompleteStr>(c) == c.0@;
#[verifier::external_body]
pub fn as_str_of<'b, I: AsRef<str>>(i: &'b I) -> (r: &'b str) ensures r@ == text_of(*i) { i.as_ref() }
pub open spec fn tx_text<I>() -> spec_fn(I, Seq<char>) -> bool { |i: I, t: Seq<char>| t == text_of(i) }
pub open spec fn tx_bytes<I>() -> spec_fn(I, Seq<char>) -> bool {
    |i: I, t: Seq<char>| t == (if vstd::utf8::valid_utf8(bytes_of(i)) { vstd::utf8::decode_utf8(bytes_of(i)) } else { "UNKNOWN"@ })
}
pub assume_specification<'b>[std::str::from_utf8](b: &'b [u8]) -> (r: Result<&'b str, std::str::Utf8Error>)
    ensures (r is Ok) == vstd::utf8::valid_utf8(b@), r matches Ok(s) ==> s@ == vstd::utf8::decode_utf8(b@);
pub open spec fn total_fn<I, F: Fn(&I) -> Option<String>>(f: F) -> bool { forall|x: &I| #[trigger] f.requires((x,)) }
/// slice::Iter, last first
#[verifier::external_body]
pub fn refs_rev<'b, T>(l: &'b Vec<T>) -> (r: Vec<&'b T>)
    ensures r@.len() == l@.len(), forall|k: int| 0 <= k < r@.len() ==> *(#[trigger] r@[k]) == l@[l@.len() - 1 - k]
{ l.iter().rev().collect() }
/// a borrowed closure behaves as the closure
pub broadcast axiom fn ref_fn_requires<I, F: Fn(&I) -> Option<String>>(f: &F, i: &I)
    ensures (#[trigger] call_requires::<(&I,), &F>(f, (i,))) == call_requires::<(&I,), F>(*f, (i,));
pub broadcast axiom fn ref_fn_ensures<I, F: Fn(&I) -> Option<String>>(f: &F, i: &I, o: Option<String>)
    ensures (#[trigger] call_ensures::<(&I,), &F>(f, (i,), o)) == call_ensures::<(&I,), F>(*f, (i,), o);
pub broadcast proof fn total_ref<I, F: Fn(&I) -> Option<String>>(f: &F)
    requires total_fn::<I, F>(*f)
    ensures #[trigger] total_fn::<I, &F>(f)
{ broadcast use ref_fn_requires; assert forall|x: &I| #[trigger] f.requires((x,)) by { assert(call_requires::<(&I,), F>(*f, (x,))); } }
pub broadcast proof fn carries_ref<I, F: Fn(&I) -> Option<String>>(r: Option<Error>, i: I, c: u32, f: &F)
    requires #[trigger] carries_code(r, i, c, texts_by::<I, &F>(f))
    ensures carries_code(r, i, c, texts_by::<I, F>(*f))
{
    broadcast use ref_fn_ensures;
    let (a, b) = (texts_by::<I, &F>(f), texts_by::<I, F>(*f));
    assert forall|i: I, t: Seq<char>| #[trigger] a(i, t) implies b(i, t) by {
        let o = choose|o: Option<String>| #[trigger] f.ensures((&i,), o) && t == (match o { Some(x) => x@, None => "UNKNOWN"@ });
        assert(call_ensures::<(&I,), F>(*f, (&i,), o));
    }
    match kind_of_code(c) { Some(k) => { carries_mono(r->Some_0, i, k, a, b); }, None => {} }
}
pub broadcast proof fn last_custom_step<I>(l: Seq<(I, nom::ErrorKind<u32>)>, n: int)
    requires 0 < n <= l.len()
    ensures last_custom(#[trigger] l.take(n)) == (if custom_code(l[n - 1]) is Some { n - 1 } else { last_custom(l.take(n - 1)) }),
{ assert(l.take(n).drop_last() =~= l.take(n - 1)); assert(l.take(n).last() == l[n - 1]); }
pub open spec fn found_custom<I>(r: Option<(&I, u32)>, l: Seq<(I, nom::ErrorKind<u32>)>) -> bool {
    match r { None => last_custom(l) < 0, Some(p) => last_custom(l) >= 0 && *p.0 == l[last_custom(l)].0 && custom_code(l[last_custom(l)]) == Some(p.1) }
}
pub open spec fn entries_mapped<I>(m: Vec<(I, nom::ErrorKind<Error>)>, l: Seq<(I, nom::ErrorKind<u32>)>, n: int, tx: spec_fn(I, Seq<char>) -> bool) -> bool { entries_error(m@, l, n, tx) }
pub open spec fn gives_text<I, F: Fn(&I) -> Option<String>>(f: F) -> bool { forall|i: &I, o: Option<String>| #[trigger] f.ensures((i,), o) ==> (o matches Some(t) && t@ == text_of(*i)) }
pub open spec fn gives_utf8<I, F: Fn(&I) -> Option<String>>(f: F) -> bool {
    forall|i: &I, o: Option<String>| #[trigger] f.ensures((i,), o) ==> match o { Some(t) => vstd::utf8::valid_utf8(bytes_of(*i)) && t@ == vstd::utf8::decode_utf8(bytes_of(*i)), None => !vstd::utf8::valid_utf8(bytes_of(*i)) } }
pub broadcast proof fn err_text<I, F: Fn(&I) -> Option<String>>(r: Error, e: nom::Err<I, u32>, f: F)
    requires #[trigger] err_carries(r, e, texts_by::<I, F>(f)), gives_text(f)
    ensures err_carries(r, e, tx_text())
{ err_carries_mono(r, e, texts_by::<I, F>(f), tx_text()); }
pub broadcast proof fn err_utf8<I, F: Fn(&I) -> Option<String>>(r: Error, e: nom::Err<I, u32>, f: F)
    requires #[trigger] err_carries(r, e, texts_by::<I, F>(f)), gives_utf8(f)
    ensures err_carries(r, e, tx_bytes())
{ err_carries_mono(r, e, texts_by::<I, F>(f), tx_bytes()); }
pub broadcast proof fn mapped_text<I, F: Fn(&I) -> Option<String>>(r: nom::Err<I, Error>, e: nom::Err<I, u32>, f: F)
    requires #[trigger] err_mapped(r, e, texts_by::<I, F>(f)), gives_text(f)
    ensures err_mapped(r, e, tx_text())
{ err_mapped_mono(r, e, texts_by::<I, F>(f), tx_text()); }
pub broadcast proof fn mapped_utf8<I, F: Fn(&I) -> Option<String>>(r: nom::Err<I, Error>, e: nom::Err<I, u32>, f: F)
    requires #[trigger] err_mapped(r, e, texts_by::<I, F>(f)), gives_utf8(f)
    ensures err_mapped(r, e, tx_bytes())
{ err_mapped_mono(r, e, texts_by::<I, F>(f), tx_bytes()); }
impl FromSpecImpl<InternalKind> for u32 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(k: InternalKind) -> u32 { code_of_kind(k) }
}
impl FromSpecImpl<std::str::Utf8Error> for InternalKind {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: std::str::Utf8Error) -> InternalKind { InternalKind::InvalidUnicode }
}
impl FromSpecImpl<std::num::ParseIntError> for InternalKind {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: std::num::ParseIntError) -> InternalKind { InternalKind::InvalidNumber }
}
impl FromSpecImpl<std::num::ParseFloatError> for InternalKind {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: std::num::ParseFloatError) -> InternalKind { InternalKind::InvalidNumber }
}
impl FromSpecImpl<std::io::Error> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: std::io::Error) -> Error { Error::IOError(e) }
}
impl FromSpecImpl<std::str::Utf8Error> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: std::str::Utf8Error) -> Error { Error::InvalidUnicodeToParse(e) }
}
pub assume_specification<T: Clone>[<[T]>::to_vec](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|k: int| 0 <= k < s@.len() ==> cloned(s@[k], #[trigger] r@[k]);
pub fn same_ref<'b, T>(l: &'b Vec<T>) -> (r: &'b Vec<T>) ensures r == l { l }
#[verifier::external_body]
pub fn error_description(k: &nom::ErrorKind<u32>) -> &str { k.description() }
}
