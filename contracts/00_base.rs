// ---------------------------------------------------------------------------
// Base: external types of nom/std, UTF-8 byte lengths, PEG results.
// ---------------------------------------------------------------------------
use nom::types::CompleteStr;
use nom::{AtEof, Compare, CompareResult, InputLength, InputTake, InputIter, Slice, FindSubstring, FindToken, InputTakeAtPosition, AsChar, ExtendInto, Offset};
use std::borrow::Cow;
use std::ops::{Range, RangeFrom, RangeTo, RangeFull};
verus! {

#[verifier::external_type_specification]
pub struct ExErrorKind<E>(nom::ErrorKind<E>);
#[verifier::external_type_specification]
pub struct ExNeeded(nom::Needed);
#[verifier::external_type_specification]
pub struct ExErr<I,E>(nom::Err<I,E>);
#[verifier::external_type_specification]
pub struct ExContext<I,E>(nom::Context<I,E>);
#[verifier::external_type_specification]
pub struct ExCompareResult(nom::CompareResult);
#[verifier::external_type_specification]
pub struct ExCS<'a>(CompleteStr<'a>);

/// every panicking expression of the code under contract: must be unreachable
#[verifier::external_body]
pub fn vx_panic() -> !
    requires false
{ panic!() }

/// every `format!` of the code under contract: some text
#[verifier::external_body]
pub fn vx_format() -> String
{ unimplemented!() }

// ----- byte lengths -----------------------------------------------------------
pub open spec fn clen(c: char) -> int {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 }
}
#[verifier::opaque]
pub open spec fn blen(s: Seq<char>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) }
}
pub broadcast proof fn blen_bounds(s: Seq<char>)
    ensures s.len() <= #[trigger] blen(s) <= 4 * s.len()
    decreases s.len()
{ reveal(blen);
    if s.len() > 0 { blen_bounds(s.drop_last()); }
}
pub proof fn blen_take_step(s: Seq<char>, k: int)
    requires 0 <= k < s.len()
    ensures blen(s.take(k + 1)) == blen(s.take(k)) + clen(s[k])
{ reveal(blen);
    assert(s.take(k + 1).drop_last() =~= s.take(k));
}
pub proof fn blen_take_mono(s: Seq<char>, j: int, k: int)
    requires 0 <= j < k <= s.len()
    ensures blen(s.take(j)) < blen(s.take(k))
    decreases k - j
{
    blen_take_step(s, k - 1);
    if j < k - 1 { blen_take_mono(s, j, k - 1); }
}
pub proof fn blen_add(a: Seq<char>, b: Seq<char>)
    ensures blen(a + b) == blen(a) + blen(b)
    decreases b.len()
{ reveal(blen);
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        blen_add(a, b.drop_last());
    }
}
/// n is the byte offset of a char boundary of s
#[verifier::opaque]
pub open spec fn is_bnd(s: Seq<char>, n: int) -> bool {
    exists|k: int| 0 <= k <= s.len() && #[trigger] blen(s.take(k)) == n
}
#[verifier::opaque]
pub open spec fn cidx(s: Seq<char>, n: int) -> int {
    choose|k: int| 0 <= k <= s.len() && #[trigger] blen(s.take(k)) == n
}
/// the char index of the byte offset of the first k chars is k
pub broadcast proof fn cidx_of(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures is_bnd(s, #[trigger] blen(s.take(k))), cidx(s, blen(s.take(k))) == k
{ reveal(is_bnd); reveal(cidx);
    let n = blen(s.take(k));
    let j = cidx(s, n);
    assert(0 <= j <= s.len() && blen(s.take(j)) == n);
    if j < k { blen_take_mono(s, j, k); }
    if k < j { blen_take_mono(s, k, j); }
}
pub broadcast proof fn blen_whole(s: Seq<char>)
    ensures is_bnd(s, #[trigger] blen(s)), cidx(s, blen(s)) == s.len()
{ reveal(is_bnd); reveal(cidx);
    assert(s.take(s.len() as int) =~= s);
    cidx_of(s, s.len() as int);
}
pub broadcast proof fn bnd_zero(s: Seq<char>)
    ensures #[trigger] is_bnd(s, 0), cidx(s, 0) == 0
{ reveal(blen); reveal(is_bnd); reveal(cidx);
    assert(s.take(0) =~= Seq::<char>::empty());
    cidx_of(s, 0);
}
/// a literal that is a prefix has its own byte length as boundary
pub broadcast proof fn bnd_prefix(s: Seq<char>, t: Seq<char>)
    requires #[trigger] t.is_prefix_of(s)
    ensures is_bnd(s, blen(t)), cidx(s, blen(t)) == t.len()
{ 
    assert(s.take(t.len() as int) =~= t);
    cidx_of(s, t.len() as int);
}
pub broadcast group group_str {
    blen_bounds, cidx_of, blen_whole, bnd_zero, bnd_prefix,
}

// ----- sequences ------------------------------------------------------------------
/// index of the first char satisfying p (len if none)
#[verifier::opaque]
pub open spec fn first_idx(s: Seq<char>, p: spec_fn(char) -> bool) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else if p(s[0]) { 0 } else { 1 + first_idx(s.skip(1), p) }
}
pub broadcast proof fn first_idx_props(s: Seq<char>, p: spec_fn(char) -> bool)
    ensures
        0 <= #[trigger] first_idx(s, p) <= s.len(),
        forall|j: int| 0 <= j < first_idx(s, p) ==> !p(#[trigger] s[j]),
        first_idx(s, p) < s.len() ==> p(s[first_idx(s, p)]),
    decreases s.len()
{ reveal(first_idx);
    if s.len() > 0 && !p(s[0]) {
        let t = s.skip(1);
        first_idx_props(t, p);
        assert forall|j: int| 0 <= j < first_idx(s, p) implies !p(#[trigger] s[j]) by {
            if j > 0 { assert(s[j] == t[j - 1]); }
        }
    }
}
/// index of the first occurrence of t in s, or -1
#[verifier::opaque]
pub open spec fn find_sub(s: Seq<char>, t: Seq<char>) -> int
    decreases s.len()
{
    if t.is_prefix_of(s) { 0 } else if s.len() == 0 { -1 } else {
        let r = find_sub(s.skip(1), t);
        if r < 0 { -1 } else { r + 1 }
    }
}
pub broadcast proof fn find_sub_props(s: Seq<char>, t: Seq<char>)
    ensures -1 <= #[trigger] find_sub(s, t) <= s.len(),
        find_sub(s, t) >= 0 ==> t.is_prefix_of(s.skip(find_sub(s, t))),
    decreases s.len()
{ reveal(find_sub);
    if t.is_prefix_of(s) { assert(s.skip(0) =~= s); } else if s.len() > 0 {
        find_sub_props(s.skip(1), t);
        let r = find_sub(s.skip(1), t);
        if r >= 0 { assert(s.skip(1).skip(r) =~= s.skip(r + 1)); }
    }
}
pub broadcast group group_peg {
    first_idx_props, find_sub_props,
}

// ----- parse results -----------------------------------------------------------------
#[verifier::ext_equal]
pub enum PR<V> { Ok(Seq<char>, V), Err, Fail }

/// the address of the end of a slice: a rest of an input ends where the input ends
pub uninterp spec fn mend(c: CompleteStr) -> int;
/// the code a failure carries: the only failures are escapes that name no character
pub open spec fn bad_escape<'a>(c: nom::Context<CompleteStr<'a>, u32>) -> bool { custom_at(c) matches Some(x) && kind_of_code(x.1) == Some(crate::errors::InternalKind::InvalidUnicodeCodePoint) }
/// conversion of errors: the identity between equal types
pub uninterp spec fn converted<A, B>(a: A) -> B;
pub broadcast axiom fn converted_same<A>(a: A) ensures #[trigger] converted::<A, A>(a) == a;
/// how a spec result relates to the value returned by a nom parser on complete input
/// (`i` is the input: the rest returned must end where the input ends, in memory)
pub open spec fn rel<'a, T, V>(r: nom::IResult<CompleteStr<'a>, T, u32>, i: CompleteStr<'a>, p: PR<V>, f: spec_fn(T) -> V) -> bool {
    match r {
        Ok((rest, v)) => p == PR::Ok(rest.0@, f(v)) && mend(rest) == mend(i),
        Err(nom::Err::Error(_)) => p == PR::<V>::Err,
        Err(nom::Err::Failure(c)) => p == PR::<V>::Fail && bad_escape(c),
        Err(nom::Err::Incomplete(_)) => false,
    }
}
pub open spec fn vstr<'a>() -> spec_fn(CompleteStr<'a>) -> Seq<char> { |c: CompleteStr<'a>| c.0@ }
pub open spec fn vunit<T>() -> spec_fn(T) -> () { |c: T| () }

/// same outcome, value forgotten
pub open spec fn forget<V>(p: PR<V>) -> PR<()> {
    match p { PR::Ok(r, _) => PR::Ok(r, ()), PR::Err => PR::Err, PR::Fail => PR::Fail }
}
/// the parser only ever returns a suffix of its input
pub open spec fn suffixy<V>(p: spec_fn(Seq<char>) -> PR<V>) -> bool {
    forall|s: Seq<char>| (#[trigger] p(s)) matches PR::Ok(r, _) ==> is_suffix(r, s)
}
pub open spec fn is_suffix(r: Seq<char>, s: Seq<char>) -> bool {
    r.len() <= s.len() && r == s.skip(s.len() - r.len())
}
pub broadcast proof fn suffix_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires #[trigger] is_suffix(a, b), #[trigger] is_suffix(b, c)
    ensures is_suffix(a, c)
{
    assert(b.skip(b.len() - a.len()) =~= c.skip(c.len() - a.len()));
}
pub broadcast proof fn suffix_skip(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures is_suffix(#[trigger] s.skip(k), s)
{
    assert(s.skip(k) =~= s.skip(s.len() - s.skip(k).len()));
}
pub broadcast proof fn suffix_refl(s: Seq<char>)
    ensures #[trigger] is_suffix(s, s)
{
    assert(s.skip(0) =~= s);
}
pub broadcast proof fn suffix_same_len(r: Seq<char>, s: Seq<char>)
    requires #[trigger] is_suffix(r, s)
    ensures r.len() <= s.len(), r.len() == s.len() <==> r == s, blen(r) <= blen(s), blen(r) == blen(s) ==> r == s
{
    assert(s.skip(0) =~= s);
    let k = s.len() - r.len();
    assert(s =~= s.take(k) + r);
    blen_add(s.take(k), r);
    blen_bounds(s.take(k));
}
pub broadcast group group_suffix { suffix_trans, suffix_skip, suffix_refl, suffix_same_len }

/// consequences of the suffix property used by loops
pub proof fn suf_le<V>(p: PR<V>, s: Seq<char>)
    requires p matches PR::Ok(r, _) ==> is_suffix(r, s)
    ensures p matches PR::Ok(r, _) ==> r.len() <= s.len() && (r.len() == s.len() ==> r == s) && (blen(r) == blen(s) ==> r == s)
{
    broadcast use suffix_same_len;
}
// ----- PEG primitives -------------------------------------------------------------------
pub open spec fn s_tag(t: Seq<char>, s: Seq<char>) -> PR<Seq<char>> {
    if t.is_prefix_of(s) { PR::Ok(s.skip(t.len() as int), s.take(t.len() as int)) } else { PR::Err }
}
pub open spec fn s_split(s: Seq<char>, k: int) -> PR<Seq<char>> { PR::Ok(s.skip(k), s.take(k)) }
/// up to (not including) the first char satisfying p; to the end if none
pub open spec fn s_till(p: spec_fn(char) -> bool, s: Seq<char>) -> PR<Seq<char>> { s_split(s, first_idx(s, p)) }
pub open spec fn s_till1(p: spec_fn(char) -> bool, s: Seq<char>) -> PR<Seq<char>> {
    if first_idx(s, p) == 0 { PR::Err } else { s_split(s, first_idx(s, p)) }
}
pub open spec fn s_until(t: Seq<char>, s: Seq<char>) -> PR<Seq<char>> {
    if find_sub(s, t) < 0 { PR::Err } else { s_split(s, find_sub(s, t)) }
}
pub open spec fn s_eol(s: Seq<char>) -> PR<Seq<char>> {
    if s.len() > 0 && s[0] == '\n' { s_split(s, 1) }
    else if s.len() > 1 && s[0] == '\r' && s[1] == '\n' { s_split(s, 2) }
    else { PR::Err }
}

pub open spec fn s_alt<V>(a: PR<V>, b: PR<V>) -> PR<V> {
    match a { PR::Err => b, x => x }
}
/// zero or more; stops (successfully) when an element consumes nothing
pub open spec fn s_many0<V>(p: spec_fn(Seq<char>) -> PR<V>, s: Seq<char>, acc: Seq<V>) -> PR<Seq<V>>
    decreases s.len()
{
    match p(s) {
        PR::Err => PR::Ok(s, acc),
        PR::Fail => PR::Fail,
        PR::Ok(r, v) => if r.len() < s.len() { s_many0(p, r, acc.push(v)) } else { PR::Ok(s, acc) },
    }
}
/// one or more
pub open spec fn s_many1<V>(p: spec_fn(Seq<char>) -> PR<V>, s: Seq<char>) -> PR<Seq<V>> {
    match p(s) {
        PR::Err => PR::Err,
        PR::Fail => PR::Fail,
        PR::Ok(r, v) => s_many0(p, r, seq![v]),
    }
}
pub broadcast proof fn many0_suffix<V>(p: spec_fn(Seq<char>) -> PR<V>, s: Seq<char>, acc: Seq<V>)
    requires suffixy(p)
    ensures (#[trigger] s_many0(p, s, acc)) matches PR::Ok(r, _) ==> is_suffix(r, s)
    decreases s.len()
{
    broadcast use group_suffix;
    match p(s) {
        PR::Ok(r, v) => if r.len() < s.len() { many0_suffix(p, r, acc.push(v)); assert(is_suffix(r, s)); },
        _ => {},
    }
}
pub broadcast proof fn push_map<A, B>(s: Seq<A>, a: A, f: spec_fn(A) -> B)
    ensures #[trigger] s.push(a).map_values(f) == s.map_values(f).push(f(a))
{
    assert(s.push(a).map_values(f) =~= s.map_values(f).push(f(a)));
}
/// membership in a short literal
pub broadcast proof fn contains_small(s: Seq<char>, c: char)
    requires s.len() <= 4
    ensures #[trigger] s.contains(c) <==> (s.len() > 0 && s[0] == c) || (s.len() > 1 && s[1] == c) || (s.len() > 2 && s[2] == c) || (s.len() > 3 && s[3] == c)
{
}
/// a short literal prefix, character by character
pub broadcast proof fn prefix_small(t: Seq<char>, s: Seq<char>)
    requires t.len() <= 6
    ensures #[trigger] t.is_prefix_of(s) <==> t.len() <= s.len() && (t.len() > 0 ==> t[0] == s[0]) && (t.len() > 1 ==> t[1] == s[1]) && (t.len() > 2 ==> t[2] == s[2])
        && (t.len() > 3 ==> t[3] == s[3]) && (t.len() > 4 ==> t[4] == s[4]) && (t.len() > 5 ==> t[5] == s[5])
{
    if t.is_prefix_of(s) {
        assert(t =~= s.take(t.len() as int));
        assert forall|k: int| 0 <= k < t.len() implies t[k] == #[trigger] s[k] by { assert(t[k] == s.take(t.len() as int)[k]); }
    } else if t.len() <= s.len() {
        let u = s.take(t.len() as int);
        assert(!(t =~= u));
    }
}
pub open spec fn vvec<A, B>(f: spec_fn(A) -> B) -> spec_fn(Vec<A>) -> Seq<B> { |v: Vec<A>| v@.map_values(f) }

// ----- trusted contracts of nom / std ------------------------------------------------
pub uninterp spec fn inp<T>(t: T) -> Seq<char>;
pub broadcast axiom fn inp_cs(c: CompleteStr) ensures #[trigger] inp::<CompleteStr>(c) == c.0@;
pub uninterp spec fn inp_end<T>(t: T) -> int;
pub broadcast axiom fn inp_end_cs(c: CompleteStr) ensures #[trigger] inp_end::<CompleteStr>(c) == mend(c);

pub assume_specification<'a>[<CompleteStr<'a> as Clone>::clone](a: &CompleteStr<'a>) -> (r: CompleteStr<'a>)
    ensures r == *a;
pub assume_specification<'a>[<CompleteStr<'a> as PartialEq>::eq](a: &CompleteStr<'a>, b: &CompleteStr<'a>) -> (r: bool)
    ensures r == (a.0@ == b.0@);
pub assume_specification<'a, 'b>[<CompleteStr<'a> as Compare<&'b str>>::compare](a: &CompleteStr<'a>, b: &'b str) -> (r: CompareResult)
    ensures
        r == CompareResult::Ok <==> b@.is_prefix_of(a.0@),
        r == CompareResult::Incomplete ==> a.0@.is_prefix_of(b@) && a.0@.len() < b@.len();
pub assume_specification<'a>[<&'a str as InputLength>::input_len](a: &&'a str) -> (r: usize)
    ensures r == blen(a@);
pub assume_specification<'a>[<CompleteStr<'a> as InputLength>::input_len](a: &CompleteStr<'a>) -> (r: usize)
    ensures r == blen(a.0@);
pub assume_specification<'a>[<CompleteStr<'a> as InputTake>::take_split](a: &CompleteStr<'a>, n: usize) -> (r: (CompleteStr<'a>, CompleteStr<'a>))
    requires is_bnd(a.0@, n as int)
    ensures r.0.0@ == a.0@.skip(cidx(a.0@, n as int)), r.1.0@ == a.0@.take(cidx(a.0@, n as int)), mend(r.0) == mend(*a);
pub assume_specification<'a>[<CompleteStr<'a> as AtEof>::at_eof](a: &CompleteStr<'a>) -> (r: bool)
    ensures r;
pub assume_specification<I: AtEof, O, E>[nom::need_more](i: I, n: nom::Needed) -> (r: nom::IResult<I, O, E>)
    ensures (r matches Err(nom::Err::Error(_))) || (r matches Err(nom::Err::Incomplete(_))),
        r matches Err(nom::Err::Incomplete(_)) ==> !complete::<I>();
pub assume_specification<I: AtEof, O, E>[nom::need_more_err](i: I, n: nom::Needed, e: nom::ErrorKind<E>) -> (r: nom::IResult<I, O, E>)
    ensures (r matches Err(nom::Err::Error(_))) || (r matches Err(nom::Err::Incomplete(_))),
        r matches Err(nom::Err::Incomplete(_)) ==> !complete::<I>();
pub uninterp spec fn complete<I>() -> bool;
pub broadcast axiom fn complete_cs(c: CompleteStr) ensures #![trigger inp::<CompleteStr>(c)] complete::<CompleteStr>();
pub broadcast axiom fn complete_cs0() ensures #[trigger] complete::<CompleteStr>();

pub assume_specification<'a, 'b>[<CompleteStr<'a> as FindSubstring<&'b str>>::find_substring](a: &CompleteStr<'a>, t: &'b str) -> (r: Option<usize>)
    ensures match r {
        None => find_sub(a.0@, t@) < 0,
        Some(n) => find_sub(a.0@, t@) >= 0 && n == blen(a.0@.take(find_sub(a.0@, t@))),
    };
pub assume_specification<'a, P: Fn(char) -> bool>[<CompleteStr<'a> as InputTakeAtPosition>::split_at_position](a: &CompleteStr<'a>, predicate: P) -> (r: nom::IResult<CompleteStr<'a>, CompleteStr<'a>, u32>)
    requires forall|c: char| #[trigger] predicate.requires((c,))
    ensures forall|p: spec_fn(char) -> bool| (forall|c: char, b: bool| predicate.ensures((c,), b) ==> b == p(c)) ==> rel(r, *a, #[trigger] s_till(p, a.0@), vstr());
pub assume_specification<'a, P: Fn(char) -> bool>[<CompleteStr<'a> as InputTakeAtPosition>::split_at_position1](a: &CompleteStr<'a>, predicate: P, e: nom::ErrorKind<u32>) -> (r: nom::IResult<CompleteStr<'a>, CompleteStr<'a>, u32>)
    requires forall|c: char| #[trigger] predicate.requires((c,))
    ensures forall|p: spec_fn(char) -> bool| (forall|c: char, b: bool| predicate.ensures((c,), b) ==> b == p(c)) ==> rel(r, *a, #[trigger] s_till1(p, a.0@), vstr());

pub assume_specification<T>[nom::eol](input: T) -> (r: nom::IResult<T, T, u32>)
    where T: Slice<Range<usize>> + Slice<RangeFrom<usize>> + Slice<RangeTo<usize>>, T: InputIter + InputLength + AtEof, T: Compare<&'static str>
    ensures complete::<T>() ==> match r {
        Ok((rest, v)) => s_eol(inp(input)) == PR::Ok(inp(rest), inp(v)) && inp_end(rest) == inp_end(input),
        Err(nom::Err::Error(_)) => s_eol(inp(input)) == PR::<Seq<char>>::Err,
        _ => false,
    };
pub assume_specification<I, H, F, E>[<nom::Err<H, E> as nom::Convert<nom::Err<I, F>>>::convert](e: nom::Err<I, F>) -> (r: nom::Err<H, E>)
    where E: std::convert::From<F>, H: std::convert::From<I>
    ensures (r is Error) == (e is Error), (r is Failure) == (e is Failure), (r is Incomplete) == (e is Incomplete), r == converted::<nom::Err<I, F>, nom::Err<H, E>>(e);
pub assume_specification<'b>[<&'b str as FindToken<char>>::find_token](a: &&'b str, c: char) -> (r: bool)
    ensures r == a@.contains(c);

} // verus!
