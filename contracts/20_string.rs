// Strings (parser/string.rs)
verus! {
pub use vstd::string::*;
#[verifier::external_trait_specification]
pub trait ExExtendInto {
    type ExternalTraitSpecificationFor: nom::ExtendInto;
    type Item;
    type Extender: Extend<Self::Item>;
    fn new_builder(&self) -> Self::Extender;
    fn extend_into(&self, acc: &mut Self::Extender);
}

/// value of an ASCII alphanumeric as a digit
pub open spec fn dig(c: char) -> int {
    if '0' <= c <= '9' { c as int - '0' as int } else if 'a' <= c <= 'z' { c as int - 'a' as int + 10 } else if 'A' <= c <= 'Z' { c as int - 'A' as int + 10 } else { 99 }
}
pub open spec fn p_not_hex() -> spec_fn(char) -> bool { |c: char| !(dig(c) < 16) }
pub open spec fn p_not_oct() -> spec_fn(char) -> bool { |c: char| !(dig(c) < 8) }
/// positional value of a digit string
pub open spec fn radix_val(s: Seq<char>, r: int) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { radix_val(s.drop_last(), r) * r + dig(s.last()) }
}
pub open spec fn all_digits(s: Seq<char>, r: int) -> bool { forall|k: int| 0 <= k < s.len() ==> dig(#[trigger] s[k]) < r }
pub proof fn radix_bound(s: Seq<char>, r: int)
    requires all_digits(s, r), 2 <= r <= 16
    ensures 0 <= radix_val(s, r), s.len() <= 3 && r == 8 ==> radix_val(s, r) < 512, s.len() <= 8 && r == 16 ==> radix_val(s, r) < 0x1_0000_0000,
    decreases s.len()
{
    radix_bound_pow(s, r);
    reveal_with_fuel(pw, 10);
    if s.len() <= 3 && r == 8 { pw_mono(8, s.len(), 3); assert(pw(8, 3) == 512); }
    if s.len() <= 8 && r == 16 { pw_mono(16, s.len(), 8); assert(pw(16, 8) == 0x1_0000_0000) by (compute); }
}
pub open spec fn pw(r: int, n: nat) -> int decreases n { if n == 0 { 1 } else { pw(r, (n - 1) as nat) * r } }
proof fn pw_mono(r: int, a: nat, b: nat)
    requires a <= b, r >= 1
    ensures 1 <= pw(r, a) <= pw(r, b)
    decreases b
{
    if a < b { pw_mono(r, a, (b - 1) as nat); assert(pw(r, (b - 1) as nat) * r >= pw(r, (b - 1) as nat)) by (nonlinear_arith) requires r >= 1, pw(r, (b - 1) as nat) >= 1; }
    else if a > 0 { pw_mono(r, (a - 1) as nat, (a - 1) as nat); assert(pw(r, (a - 1) as nat) * r >= 1) by (nonlinear_arith) requires r >= 1, pw(r, (a - 1) as nat) >= 1; }
}
proof fn radix_bound_pow(s: Seq<char>, r: int)
    requires all_digits(s, r), 2 <= r <= 16
    ensures 0 <= radix_val(s, r) < pw(r, s.len()),
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|k: int| 0 <= k < t.len() implies dig(#[trigger] t[k]) < r by { assert(t[k] == s[k]); }
        radix_bound_pow(t, r);
        assert(s.last() == s[s.len() - 1]);
        let v = radix_val(t, r);
        let p = pw(r, t.len());
        assert(v * r + dig(s.last()) < p * r) by (nonlinear_arith) requires v + 1 <= p, 0 <= dig(s.last()) < r, r >= 2;
        assert(v * r >= 0) by (nonlinear_arith) requires v >= 0, r >= 2;
    }
}
pub proof fn dig_ascii(c: char) requires dig(c) < 99 ensures (c as u32) < 0x80, clen(c) == 1 {}
/// ASCII-digit prefixes: byte offsets are char offsets
pub broadcast proof fn ascii_prefix(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> dig(#[trigger] s[j]) < 99
    ensures #[trigger] blen(s.take(k)) == k, is_bnd(s, k), cidx(s, k) == k
    decreases k
{
    if k > 0 {
        ascii_prefix(s, k - 1);
        blen_take_step(s, k - 1);
        assert(dig(s[k - 1]) < 99);
    } else {
        reveal(blen);
        assert(s.take(0) =~= Seq::<char>::empty());
    }
    cidx_of(s, k);
}
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
/// between m and n leading chars that do not satisfy `stop`
pub open spec fn s_mn(m: int, n: int, stop: spec_fn(char) -> bool, s: Seq<char>) -> PR<Seq<char>> {
    if first_idx(s, stop) < m { PR::Err } else { s_split(s, imin(first_idx(s, stop), n)) }
}
/// facts the extracted take_while_m_n code needs
pub proof fn mn_facts(s: Seq<char>, stop: spec_fn(char) -> bool, n: int)
    requires forall|c: char| !(#[trigger] stop(c)) ==> dig(c) < 99, n >= 0
    ensures
        forall|k: int| #![trigger is_bnd(s, k)] #![trigger cidx(s, k)] 0 <= k <= first_idx(s, stop) ==> is_bnd(s, k) && cidx(s, k) == k,
        blen(s.take(first_idx(s, stop))) == first_idx(s, stop),
        first_idx(s, stop) == s.len() ==> blen(s) == s.len() && s.take(s.len() as int) == s,
{
    first_idx_props(s, stop);
    assert forall|k: int| #![trigger is_bnd(s, k)] #![trigger cidx(s, k)] 0 <= k <= first_idx(s, stop) implies is_bnd(s, k) && cidx(s, k) == k by { ascii_prefix(s, k); }
    ascii_prefix(s, first_idx(s, stop));
    assert(s.take(s.len() as int) =~= s);
}

pub open spec fn one(c: char) -> Seq<char> { seq![c] }
pub open spec fn valid_scalar(x: int) -> bool { 0 <= x < 0xD800 || 0xE000 <= x <= 0x10FFFF }
/// \x \u \U: the digits name a code point
pub open spec fn s_hex_digits(n: int, s: Seq<char>) -> PR<Seq<char>> {
    match s_mn(1, n, p_not_hex(), s) {
        PR::Ok(r, d) => if valid_scalar(radix_val(d, 16)) { PR::Ok(r, one((radix_val(d, 16) as u32) as char)) } else { PR::Fail },
        _ => PR::Fail,
    }
}
pub open spec fn s_octal(s: Seq<char>) -> PR<Seq<char>> {
    match s_mn(1, 3, p_not_oct(), s) {
        PR::Ok(r, d) => PR::Ok(r, one((radix_val(d, 8) as u32) as char)),
        x => x,
    }
}
pub open spec fn s_hex(s: Seq<char>) -> PR<Seq<char>> {
    if s.len() == 0 { PR::Fail }
    else if s[0] == 'x' { s_hex_digits(2, s.skip(1)) }
    else if s[0] == 'u' { s_hex_digits(4, s.skip(1)) }
    else if s[0] == 'U' { s_hex_digits(8, s.skip(1)) }
    else { PR::Fail }
}
/// what follows a backslash; anything unknown is a hard failure
pub open spec fn s_unescape(s: Seq<char>) -> PR<Seq<char>> {
    if s.len() == 0 { PR::Fail }
    else if s[0] == 'a' { PR::Ok(s.skip(1), one('\x07')) }
    else if s[0] == 'b' { PR::Ok(s.skip(1), one('\x08')) }
    else if s[0] == 'f' { PR::Ok(s.skip(1), one('\x0c')) }
    else if s[0] == 'n' { PR::Ok(s.skip(1), one('\n')) }
    else if s[0] == 'r' { PR::Ok(s.skip(1), one('\r')) }
    else if s[0] == 't' { PR::Ok(s.skip(1), one('\t')) }
    else if s[0] == 'v' { PR::Ok(s.skip(1), one('\x0b')) }
    else if s[0] == '\\' { PR::Ok(s.skip(1), one('\\')) }
    else if s[0] == '"' { PR::Ok(s.skip(1), one('"')) }
    else if s[0] == '?' { PR::Ok(s.skip(1), one('?')) }
    else if dig(s[0]) < 8 { s_octal(s) }
    else { s_hex(s) }
}
pub open spec fn vcow<'a>() -> spec_fn(Cow<'a, str>) -> Seq<char> { |c: Cow<'a, str>| c@ }
pub open spec fn vstring() -> spec_fn(String) -> Seq<char> { |c: String| c@ }

pub assume_specification[char::is_digit](c: char, radix: u32) -> (r: bool)
    requires 2 <= radix <= 36
    ensures r == (dig(c) < radix);
pub assume_specification[std::char::from_u32](x: u32) -> (r: Option<char>)
    ensures match r { Some(c) => valid_scalar(x as int) && c == x as char, None => !valid_scalar(x as int) };
pub assume_specification[char::from_u32](x: u32) -> (r: Option<char>)
    ensures match r { Some(c) => valid_scalar(x as int) && c == x as char, None => !valid_scalar(x as int) };
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPIE(std::num::ParseIntError);
pub assume_specification[u32::from_str_radix](s: &str, radix: u32) -> (r: Result<u32, std::num::ParseIntError>)
    requires 2 <= radix <= 36
    ensures s@.len() > 0 && all_digits(s@, radix as int) && radix_val(s@, radix as int) <= u32::MAX ==> r is Ok && r->Ok_0 == radix_val(s@, radix as int);
pub broadcast axiom fn to_string_char(c: char, s: String)
    ensures #[trigger] to_string_from_display_ensures::<char>(&c, s) ==> s@ == seq![c];
pub assume_specification<'a, P: Fn(char) -> bool>[<CompleteStr<'a> as InputIter>::position](a: &CompleteStr<'a>, predicate: P) -> (r: Option<usize>)
    requires forall|c: char| #[trigger] predicate.requires((c,))
    ensures forall|p: spec_fn(char) -> bool| (forall|c: char, b: bool| predicate.ensures((c,), b) ==> b == p(c)) ==> match r {
        None => #[trigger] first_idx(a.0@, p) == a.0@.len(),
        Some(n) => first_idx(a.0@, p) < a.0@.len() && n == blen(a.0@.take(first_idx(a.0@, p))),
    };
pub assume_specification<'a>[<CompleteStr<'a> as Slice<RangeFrom<usize>>>::slice](a: &CompleteStr<'a>, r: RangeFrom<usize>) -> (res: CompleteStr<'a>)
    requires is_bnd(a.0@, r.start as int)
    ensures res.0@ == a.0@.skip(cidx(a.0@, r.start as int)), mend(res) == mend(*a);
pub assume_specification<'a>[<CompleteStr<'a> as Offset>::offset](a: &CompleteStr<'a>, b: &CompleteStr<'a>) -> (r: usize)
    requires mend(*a) == mend(*b), is_suffix(b.0@, a.0@)
    ensures r == blen(a.0@) - blen(b.0@);
}
verus! {
pub proof fn digits_of(s: Seq<char>, stop: spec_fn(char) -> bool, n: int, r: int)
    requires forall|c: char| !(#[trigger] stop(c)) ==> dig(c) < r, r <= 99, 0 <= n <= first_idx(s, stop)
    ensures all_digits(s.take(n), r), s.take(n).len() == n
{
    first_idx_props(s, stop);
    assert forall|k: int| 0 <= k < n implies dig(#[trigger] s.take(n)[k]) < r by { assert(!stop(s[k])); }
}
/// everything the hexadecimal escapes need to know about the text after the marker
pub proof fn hex_facts(s: Seq<char>)
    ensures
        s.len() > 0 ==> ({
            let t = s.skip(1);
            let f = first_idx(t, p_not_hex());
            &&& forall|k: int| #![trigger is_bnd(t, k)] #![trigger cidx(t, k)] 0 <= k <= f ==> is_bnd(t, k) && cidx(t, k) == k
            &&& blen(t.take(f)) == f
            &&& f == t.len() ==> blen(t) == t.len() && t.take(t.len() as int) == t
            &&& forall|k: int| #![trigger t.take(k)] 0 <= k <= f ==> all_digits(t.take(k), 16) && t.take(k).len() == k
        }),
{
    reveal_strlit("x"); reveal_strlit("u"); reveal_strlit("U");
    if s.len() > 0 {
        let t = s.skip(1);
        let f = first_idx(t, p_not_hex());
        mn_facts(t, p_not_hex(), 1);
        assert forall|k: int| #![trigger t.take(k)] 0 <= k <= f implies all_digits(t.take(k), 16) && t.take(k).len() == k by { digits_of(t, p_not_hex(), k, 16); }
    }
}
}
verus! {
/// the characters of the texts handed to nom's ExtendInto
pub trait Txt { spec fn txt(&self) -> Seq<char>; }
impl<'a> Txt for CompleteStr<'a> { open spec fn txt(&self) -> Seq<char> { self.0@ } }
impl<'a> Txt for Cow<'a, str> { open spec fn txt(&self) -> Seq<char> { self@ } }
/// nom::ExtendInto::extend_into into a String appends the characters
#[verifier::external_body]
pub fn extend_into<T: Txt>(t: &T, acc: &mut String)
    ensures final(acc)@ == old(acc)@ + t.txt()
{ unimplemented!() }
/// nom::ExtendInto::new_builder of text is the empty String
#[verifier::external_body]
pub fn new_builder(t: &CompleteStr) -> (r: String)
    ensures r@ == Seq::<char>::empty()
{ String::new() }
/// nom::InputIter::iter_elements of text
#[verifier::external_body]
pub fn iter_elements<'a>(a: &CompleteStr<'a>) -> (r: std::str::Chars<'a>)
    ensures vstd::std_specs::iter::IteratorSpec::remaining(&r) == a.0@
{ a.0.chars() }

/// characters up to the first stop character, with escapes decoded
#[verifier::opaque]
pub open spec fn s_content(stop: spec_fn(char) -> bool, s: Seq<char>, acc: Seq<char>) -> PR<Seq<char>>
    decreases s.len()
{
    let k = first_idx(s, stop);
    if s.len() == 0 { PR::Ok(s, acc) }
    else if k > 0 { if k <= s.len() { s_content(stop, s.skip(k), acc + s.take(k)) } else { PR::Err } }
    else if s[0] != '\\' { PR::Ok(s, acc) }
    else if s.len() == 1 { PR::Err }
    else {
        match s_unescape(s.skip(1)) {
            PR::Ok(r, v) => if r.len() < s.len() { s_content(stop, r, acc + v) } else { PR::Err },
            x => x,
        }
    }
}
pub open spec fn p_stop_multi() -> spec_fn(char) -> bool { |c: char| c == '\\' || c == '"' }
pub open spec fn p_stop_single() -> spec_fn(char) -> bool { |c: char| c == '\\' || c == '"' || c == '\r' || c == '\n' }
pub open spec fn s_quoted(stop: spec_fn(char) -> bool, s: Seq<char>) -> PR<Seq<char>> {
    match s_tag("\""@, s) {
        PR::Ok(r, _) => match s_content(stop, r, Seq::empty()) {
            PR::Ok(r2, v) => match s_tag("\""@, r2) { PR::Ok(r3, _) => PR::Ok(r3, v), x => x },
            x => x,
        },
        x => x,
    }
}
pub open spec fn s_quoted_string(s: Seq<char>) -> PR<Seq<char>> { s_quoted(p_stop_multi(), s) }
pub open spec fn s_string_literal(s: Seq<char>) -> PR<Seq<char>> { s_quoted(p_stop_single(), s) }
pub proof fn suf_mn(m: int, n: int, stop: spec_fn(char) -> bool, s: Seq<char>)
    requires 1 <= m, 1 <= n
    ensures s_mn(m, n, stop, s) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
{ broadcast use {group_suffix, group_peg}; }
pub broadcast proof fn suf_unescape(s: Seq<char>) ensures (#[trigger] s_unescape(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
{
    broadcast use {group_suffix, group_peg};
    if s.len() > 0 {
        suf_mn(1, 3, p_not_oct(), s);
        suf_mn(1, 2, p_not_hex(), s.skip(1)); suf_mn(1, 4, p_not_hex(), s.skip(1)); suf_mn(1, 8, p_not_hex(), s.skip(1));
    }
}
pub proof fn unescape_never_err(s: Seq<char>) ensures !(s_unescape(s) is Err)
{ broadcast use {group_peg}; reveal(first_idx); }
pub broadcast proof fn suf_content(stop: spec_fn(char) -> bool, s: Seq<char>, acc: Seq<char>) ensures (#[trigger] s_content(stop, s, acc)) matches PR::Ok(r, _) ==> is_suffix(r, s)
    decreases s.len()
{
    broadcast use {group_suffix, group_peg, suf_unescape};
    reveal(s_content);
    let k = first_idx(s, stop);
    if s.len() == 0 {} else if k > 0 { suf_content(stop, s.skip(k), acc + s.take(k)); }
    else if s[0] != '\\' || s.len() == 1 {} else {
        match s_unescape(s.skip(1)) { PR::Ok(r, v) => { suf_content(stop, r, acc + v); assert(is_suffix(r, s.skip(1))); assert(is_suffix(r, s)); }, _ => {} }
    }
}
pub broadcast proof fn suf_quoted(stop: spec_fn(char) -> bool, s: Seq<char>) ensures (#[trigger] s_quoted(stop, s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
{ broadcast use {group_suffix, suf_content}; reveal_strlit("\""); }

/// one step of the scan
pub proof fn content_step(stop: spec_fn(char) -> bool, t: Seq<char>, acc: Seq<char>)
    ensures ({
        let k = first_idx(t, stop);
        &&& t.len() == 0 ==> s_content(stop, t, acc) == PR::Ok(t, acc)
        &&& k > 0 ==> s_content(stop, t, acc) == s_content(stop, t.skip(k), acc + t.take(k))
        &&& k > 0 && k == t.len() ==> s_content(stop, t, acc) == PR::Ok(Seq::<char>::empty(), acc + t.take(k))
        &&& k == 0 && t.len() > 0 && t[0] != '\\' ==> s_content(stop, t, acc) == PR::Ok(t, acc)
        &&& k == 0 && t.len() == 1 && t[0] == '\\' ==> s_content(stop, t, acc) == PR::<Seq<char>>::Err
        &&& k == 0 && t.len() > 1 && t[0] == '\\' ==> match s_unescape(t.skip(1)) {
            PR::Ok(r, v) => s_content(stop, t, acc) == s_content(stop, r, acc + v) && (r.len() == 0 ==> s_content(stop, t, acc) == PR::Ok(Seq::<char>::empty(), acc + v)),
            PR::Err => false,
            PR::Fail => s_content(stop, t, acc) == PR::<Seq<char>>::Fail,
        }
    })
{
    reveal_with_fuel(s_content, 3);
    broadcast use {group_peg, suf_unescape};
    let k = first_idx(t, stop);
    if t.len() > 0 { 
        assert(t.skip(t.len() as int) =~= Seq::<char>::empty());
        if t.len() > 1 { unescape_never_err(t.skip(1)); match s_unescape(t.skip(1)) { PR::Ok(r, v) => { if r.len() == 0 { assert(r =~= Seq::<char>::empty()); } }, _ => {} } }
    }
}
pub proof fn blen_head(t: Seq<char>)
    requires t.len() > 0
    ensures blen(t) == clen(t[0]) + blen(t.skip(1))
{
    blen_add(t.take(1), t.skip(1));
    assert(t =~= t.take(1) + t.skip(1));
    blen_take_step(t, 0);
    assert(blen(t.take(0)) == 0) by { reveal(blen); }
}
/// the position of the scanning loop: `index` is the byte offset of the remaining text
pub open spec fn at(s: Seq<char>, index: int, rem: Seq<char>) -> bool { is_bnd(s, index) && rem == s.skip(cidx(s, index)) && index == blen(s) - blen(rem) && is_suffix(rem, s) }
/// a suffix starts at a boundary
pub proof fn at_suffix(s: Seq<char>, rem: Seq<char>)
    requires is_suffix(rem, s)
    ensures at(s, blen(s) - blen(rem), rem), blen(s) - blen(rem) >= 0, blen(rem) == 0 ==> rem.len() == 0, s.len() <= blen(s)
{
    let k = s.len() - rem.len();
    assert(s =~= s.take(k) + rem);
    blen_add(s.take(k), rem);
    cidx_of(s, k);
    blen_bounds(rem); blen_bounds(s); blen_bounds(s.take(k));
}
pub proof fn at_start(s: Seq<char>)
    ensures at(s, 0, s)
{
    broadcast use suffix_refl;
    at_suffix(s, s);
}
}
// ----- heredocs ------------------------------------------------------------------------
use crate::parser::string::HereDoc;
verus! {
impl<'a> Txt for &'a str { open spec fn txt(&self) -> Seq<char> { self@ } }
impl Txt for String { open spec fn txt(&self) -> Seq<char> { self@ } }
/// length in bytes of a text (str::len and friends)
#[verifier::external_body]
pub fn t_len<T: Txt>(t: &T) -> (r: usize) ensures r == blen(t.txt()) { unimplemented!() }
/// str::char_indices, as a list: every character with its byte offset
#[verifier::external_body]
pub fn str_places<'a>(t: &'a str) -> (r: Vec<(usize, char)>)
    ensures r@.len() == t@.len(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).0 == blen(t@.take(k)) && r@[k].1 == t@[k]
{ t.char_indices().collect() }
pub fn char_places<'a>(t: &CompleteStr<'a>) -> (r: Vec<(usize, char)>)
    ensures r@.len() == t.0@.len(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).0 == blen(t.0@.take(k)) && r@[k].1 == t.0@[k]
{ str_places(t.0) }
/// str::split at a character
#[verifier::external_body]
pub fn str_split<'a>(t: &'a str, c: char) -> (r: Vec<&'a str>)
    ensures r@.map_values(|x: &str| x@) == split_at(t@, c)
{ t.split(c).collect() }
/// str::trim_start_matches of a character
#[verifier::external_body]
pub fn trim_start_char<'a>(t: &'a str, c: char) -> (r: &'a str)
    ensures r@ == t@.skip(first_idx(t@, p_not(c)))
{ t.trim_start_matches(c) }
/// `&t[n..]`
#[verifier::external_body]
pub fn str_from<'a>(t: &'a str, n: usize) -> (r: &'a str)
    requires is_bnd(t@, n as int)
    ensures r@ == t@.skip(cidx(t@, n as int))
{ &t[n..] }
pub assume_specification[String::with_capacity](n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
pub assume_specification[String::truncate](s: &mut String, n: usize)
    requires is_bnd(old(s)@, n as int)
    ensures final(s)@ == old(s)@.take(cidx(old(s)@, n as int));
pub uninterp spec fn alnum(c: char) -> bool;
pub assume_specification[char::is_alphanumeric](c: char) -> (r: bool) ensures r == alnum(c);
pub assume_specification<T>[nom::space0](input: T) -> (r: nom::IResult<T, T, u32>)
    where T: nom::InputTakeAtPosition, <T as nom::InputTakeAtPosition>::Item: nom::AsChar + Clone
    ensures complete::<T>() ==> match r {
        Ok((rest, v)) => s_till(p_not_sp(), inp(input)) == PR::Ok(inp(rest), inp(v)) && inp_end(rest) == inp_end(input),
        _ => false,
    };

pub open spec fn p_not(c: char) -> spec_fn(char) -> bool { |x: char| x != c }
pub open spec fn p_is(c: char) -> spec_fn(char) -> bool { |x: char| x == c }
/// the pieces of a text between the occurrences of c
pub open spec fn split_at(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len()
{
    let k = first_idx(s, p_is(c));
    if 0 <= k < s.len() { seq![s.take(k)] + split_at(s.skip(k + 1), c) } else { seq![s] }
}
/// a line without at most n leading spaces
pub open spec fn undent_line(l: Seq<char>, n: int) -> Seq<char> { l.skip(imin(n, first_idx(l, p_not(' ')))) }
/// lines, each ended by a line feed
pub open spec fn undent_lines(ls: Seq<Seq<char>>, n: int) -> Seq<char>
    decreases ls.len()
{
    if ls.len() == 0 { Seq::empty() } else { undent_lines(ls.drop_last(), n) + undent_line(ls.last(), n).push('\n') }
}
/// every line of the text loses at most n leading spaces; nothing else changes
pub open spec fn s_undent(s: Seq<char>, n: int) -> Seq<char> {
    if n == 0 { s } else { undent_lines(split_at(s, '\n'), n).drop_last() }
}
pub open spec fn p_not_marker() -> spec_fn(char) -> bool { |c: char| !(alnum(c) || c == '_') }
/// `<<NAME` or `<<-NAME`, followed by a line end that is not consumed
pub open spec fn s_hd_begin(s: Seq<char>) -> PR<(Seq<char>, bool)> {
    if !"<<"@.is_prefix_of(s) { PR::Err } else {
        let r = s.skip(2);
        let ind = r.len() > 0 && r[0] == '-';
        let r1 = if ind { r.skip(1) } else { r };
        match s_till1(p_not_marker(), r1) {
            PR::Ok(r2, id) => if s_eol(r2) is Ok { PR::Ok(r2, (id, ind)) } else { PR::Err },
            _ => PR::Err,
        }
    }
}
/// a line end, blanks, the marker, and a line end that is not consumed; the number of blanks if indented
pub open spec fn s_hd_end(id: Seq<char>, ind: bool, s: Seq<char>) -> PR<int> {
    match s_eol(s) {
        PR::Ok(r, _) => match s_till(p_not_sp(), r) {
            PR::Ok(r2, sp) => if id.is_prefix_of(r2) && s_eol(r2.skip(id.len() as int)) is Ok { PR::Ok(r2.skip(id.len() as int), if ind { sp.len() as int } else { 0 }) } else { PR::Err },
            _ => PR::Err,
        },
        _ => PR::Err,
    }
}
/// text up to the first terminator
pub open spec fn s_hd_find(id: Seq<char>, ind: bool, s: Seq<char>, k: int) -> PR<(Seq<char>, int)>
    decreases s.len() - k
{
    if k >= s.len() || k < 0 { PR::Err } else {
        match s_hd_end(id, ind, s.skip(k)) {
            PR::Ok(r, n) => PR::Ok(r, (s.take(k), n)),
            _ => s_hd_find(id, ind, s, k + 1),
        }
    }
}
pub open spec fn s_heredoc(s: Seq<char>) -> PR<Seq<char>> {
    match s_hd_begin(s) {
        PR::Ok(r, h) => match s_hd_end(h.0, h.1, r) {
            PR::Ok(r2, _) => PR::Ok(r2, Seq::empty()),
            _ => match s_eol(r) {
                PR::Ok(r1, _) => match s_hd_find(h.0, h.1, r1, 0) {
                    PR::Ok(r2, c) => PR::Ok(r2, s_undent(c.0, c.1)),
                    PR::Err => PR::Err,
                    PR::Fail => PR::Fail,
                },
                _ => PR::Err,
            },
        },
        PR::Err => PR::Err,
        PR::Fail => PR::Fail,
    }
}
pub open spec fn s_string(s: Seq<char>) -> PR<Seq<char>> { s_alt(s_quoted_string(s), s_heredoc(s)) }
pub open spec fn vhd<'a>() -> spec_fn(HereDoc<'a>) -> (Seq<char>, bool) { |h: HereDoc<'a>| (h.identifier.0@, h.indented) }
pub open spec fn vint() -> spec_fn(usize) -> int { |n: usize| n as int }
pub broadcast proof fn suf_hd_begin(s: Seq<char>) ensures (#[trigger] s_hd_begin(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
{ broadcast use {group_suffix, group_peg}; reveal_strlit("<<"); }
pub broadcast proof fn suf_hd_end(id: Seq<char>, ind: bool, s: Seq<char>) ensures (#[trigger] s_hd_end(id, ind, s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
{ broadcast use {group_suffix, group_peg, suf_eol}; }
pub broadcast proof fn suf_hd_find(id: Seq<char>, ind: bool, s: Seq<char>, k: int) requires 0 <= k ensures (#[trigger] s_hd_find(id, ind, s, k)) matches PR::Ok(r, _) ==> is_suffix(r, s)
    decreases s.len() - k
{ broadcast use {group_suffix, suf_hd_end}; if k < s.len() { suf_hd_find(id, ind, s, k + 1); match s_hd_end(id, ind, s.skip(k)) { PR::Ok(r, _) => { assert(is_suffix(r, s.skip(k))); }, _ => {} } } }
pub broadcast proof fn suf_heredoc(s: Seq<char>) ensures (#[trigger] s_heredoc(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
{ broadcast use {group_suffix, suf_hd_begin, suf_hd_end, suf_hd_find, suf_eol}; }
pub broadcast proof fn suf_string(s: Seq<char>) ensures (#[trigger] s_string(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
{ broadcast use {group_suffix, suf_heredoc, suf_quoted}; }
/// equality of texts is equality of characters
pub broadcast axiom fn cs_eq_spec<'a>(a: CompleteStr<'a>, b: CompleteStr<'a>)
    ensures <CompleteStr<'a> as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec(), #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a.0@ == b.0@);
pub broadcast axiom fn cs_obeys_eq<'a>()
    ensures #[trigger] <CompleteStr<'a> as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec();
/// blanks are one byte each
pub broadcast proof fn blanks_bytes(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> (#[trigger] s[j]) == ' ' || s[j] == '\t'
    ensures #[trigger] blen(s.take(k)) == k, is_bnd(s, k), cidx(s, k) == k
    decreases k
{
    if k > 0 {
        blanks_bytes(s, k - 1);
        blen_take_step(s, k - 1);
        assert(s[k - 1] == ' ' || s[k - 1] == '\t');
    } else {
        reveal(blen);
        assert(s.take(0) =~= Seq::<char>::empty());
    }
    cidx_of(s, k);
}
/// the facts one line of unindent_heredoc needs
pub proof fn undent_facts(l: Seq<char>, n: int)
    requires n >= 0
    ensures ({
        let f = first_idx(l, p_not(' '));
        let k = imin(n, f);
        &&& blen(l) - blen(l.skip(f)) == f
        &&& is_bnd(l, k) && cidx(l, k) == k
    })
{
    let f = first_idx(l, p_not(' '));
    first_idx_props(l, p_not(' '));
    assert(l =~= l.take(f) + l.skip(f));
    blen_add(l.take(f), l.skip(f));
    blanks_bytes(l, f);
    blanks_bytes(l, imin(n, f));
}
pub proof fn undent_step(ls: Seq<Seq<char>>, i: int, n: int)
    requires 0 <= i < ls.len()
    ensures undent_lines(ls.take(i + 1), n) == undent_lines(ls.take(i), n) + undent_line(ls[i], n).push('\n')
{
    assert(ls.take(i + 1).drop_last() =~= ls.take(i));
    assert(ls.take(i + 1).last() == ls[i]);
}
pub proof fn undent_done(ls: Seq<Seq<char>>, n: int)
    requires ls.len() > 0
    ensures ({ let s = undent_lines(ls, n); s.len() > 0 && blen(s) >= 1 && is_bnd(s, blen(s) - 1) && cidx(s, blen(s) - 1) == s.len() - 1 && s.take(s.len() - 1) == s.drop_last() }), ls.take(ls.len() as int) == ls
{
    let s = undent_lines(ls, n);
    assert(s.last() == '\n');
    assert(s.take(s.len() - 1) =~= s.drop_last());
    assert(ls.take(ls.len() as int) =~= ls);
    blen_take_step(s, s.len() - 1);
    assert(s.take(s.len() as int) =~= s);
    cidx_of(s, s.len() - 1);
    blen_bounds(s);
}
}
