// Numbers (parser/number.rs)
use crate::parser::number::{Number, Exponent};
verus! {
#[verifier::ext_equal]
pub struct NumV { pub input: Seq<char>, pub positive: bool, pub whole: Option<Seq<char>>, pub fraction: Option<Seq<char>>, pub exp: Option<(bool, Seq<char>)> }
pub open spec fn ocow<'a>(o: Option<Cow<'a, str>>) -> Option<Seq<char>> { match o { Some(c) => Some(c@), None => None } }
pub open spec fn ecow<'a>(e: Exponent<'a>) -> (bool, Seq<char>) { (e.positive, e.exponent@) }
pub open spec fn oexp<'a>(o: Option<Exponent<'a>>) -> Option<(bool, Seq<char>)> { match o { Some(e) => Some(ecow(e)), None => None } }
pub open spec fn nview<'a>(n: Number<'a>) -> NumV { NumV { input: n.input@, positive: n.positive, whole: ocow(n.whole), fraction: ocow(n.fraction), exp: oexp(n.exponent) } }
pub open spec fn vnum<'a>() -> spec_fn(Number<'a>) -> NumV { |n: Number<'a>| nview(n) }
pub open spec fn voexp<'a>() -> spec_fn(Option<Exponent<'a>>) -> Option<(bool, Seq<char>)> { |o: Option<Exponent<'a>>| oexp(o) }

pub open spec fn is_dec(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn p_not_dec() -> spec_fn(char) -> bool { |c: char| !is_dec(c) }
pub open spec fn s_digits(s: Seq<char>) -> PR<Seq<char>> { s_till1(p_not_dec(), s) }
pub open spec fn starts(s: Seq<char>, c: char) -> bool { s.len() > 0 && s[0] == c }
pub open spec fn s_char(c: char, s: Seq<char>) -> PR<char> { if starts(s, c) { PR::Ok(s.skip(1), c) } else { PR::Err } }
/// optional sign: (rest, positive)
pub open spec fn s_sign(s: Seq<char>) -> (Seq<char>, bool) {
    if starts(s, '+') { (s.skip(1), true) } else if starts(s, '-') { (s.skip(1), false) } else { (s, true) }
}
/// whole and fraction
pub open spec fn s_mantissa(s: Seq<char>) -> PR<(Option<Seq<char>>, Option<Seq<char>>)> {
    match s_digits(s) {
        PR::Ok(r, w) => if starts(r, '.') {
            match s_digits(r.skip(1)) { PR::Ok(r2, f) => PR::Ok(r2, (Some(w), Some(f))), _ => PR::Ok(r.skip(1), (Some(w), Some(Seq::empty()))) }
        } else { PR::Ok(r, (Some(w), None)) },
        _ => if starts(s, '.') {
            match s_digits(s.skip(1)) { PR::Ok(r2, f) => PR::Ok(r2, (None, Some(f))), _ => PR::Err }
        } else { PR::Err },
    }
}
/// optional exponent: (rest, (positive, digits))
pub open spec fn s_exponent(s: Seq<char>) -> PR<Option<(bool, Seq<char>)>> {
    if starts(s, 'e') || starts(s, 'E') {
        let (r, p) = s_sign(s.skip(1));
        match s_digits(r) { PR::Ok(r2, d) => PR::Ok(r2, Some((p, d))), _ => PR::Ok(s, None) }
    } else { PR::Ok(s, None) }
}
pub open spec fn s_number(s: Seq<char>) -> PR<NumV> {
    let (r, positive) = s_sign(s);
    match s_mantissa(r) {
        PR::Ok(r2, (whole, fraction)) => match s_exponent(r2) {
            PR::Ok(r3, exp) => PR::Ok(r3, NumV { input: s.take(s.len() - r3.len()), positive, whole, fraction, exp }),
            _ => PR::Err,
        },
        _ => PR::Err,
    }
}
pub broadcast proof fn suf_digits(s: Seq<char>) ensures (#[trigger] s_digits(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
{ broadcast use {group_suffix, group_peg}; }
pub broadcast proof fn suf_mantissa(s: Seq<char>) ensures (#[trigger] s_mantissa(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
{ broadcast use {group_suffix, suf_digits}; }
pub broadcast proof fn suf_exponent(s: Seq<char>) ensures (#[trigger] s_exponent(s)) matches PR::Ok(r, _) && is_suffix(r, s)
{ broadcast use {group_suffix, suf_digits}; let t = s_sign(s.skip(1)).0; if s.len() > 0 { assert(is_suffix(t, s.skip(1))); assert(is_suffix(t, s)); } }
pub broadcast proof fn suf_number(s: Seq<char>) ensures (#[trigger] s_number(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
{
    broadcast use {group_suffix, suf_mantissa, suf_exponent};
    let t = s_sign(s).0;
    assert(is_suffix(t, s));
    match s_mantissa(t) { PR::Ok(r, _) => { assert(is_suffix(r, s)); match s_exponent(r) { PR::Ok(r2, _) => { assert(is_suffix(r2, s)); }, _ => {} } }, _ => {} }
}
/// one ASCII character at the front
pub broadcast proof fn head_ascii(s: Seq<char>)
    requires s.len() > 0, (#[trigger] s[0] as u32) < 0x80
    ensures is_bnd(s, 1), cidx(s, 1) == 1
{
    reveal(blen);
    blen_take_step(s, 0);
    assert(s.take(0) =~= Seq::<char>::empty());
    cidx_of(s, 1);
}
impl Txt for char { open spec fn txt(&self) -> Seq<char> { seq![*self] } }
pub broadcast proof fn blen_one(c: char)
    ensures #[trigger] blen(seq![c]) == clen(c)
{ reveal_with_fuel(blen, 2); assert(seq![c].drop_last() =~= Seq::<char>::empty()); }
pub broadcast proof fn blen_txt_char(c: char) ensures #[trigger] blen(c.txt()) == clen(c)
{ blen_one(c); }
pub assume_specification<T>[nom::digit](input: T) -> (r: nom::IResult<T, T, u32>)
    where T: nom::InputTakeAtPosition, <T as nom::InputTakeAtPosition>::Item: nom::AsChar
    ensures complete::<T>() ==> match r {
        Ok((rest, v)) => s_digits(inp(input)) == PR::Ok(inp(rest), inp(v)) && inp_end(rest) == inp_end(input),
        Err(nom::Err::Error(_)) => s_digits(inp(input)) == PR::<Seq<char>>::Err,
        _ => false,
    };
pub assume_specification<'a>[<CompleteStr<'a> as InputTake>::take](a: &CompleteStr<'a>, n: usize) -> (r: CompleteStr<'a>)
    requires is_bnd(a.0@, n as int)
    ensures r.0@ == a.0@.take(cidx(a.0@, n as int));
/// what the parsed-off prefix of a text is
pub proof fn prefix_of_suffix(s: Seq<char>, r: Seq<char>)
    requires is_suffix(r, s)
    ensures is_bnd(s, blen(s) - blen(r)), cidx(s, blen(s) - blen(r)) == s.len() - r.len(), blen(s) >= blen(r)
{
    at_suffix(s, r);
    let k = s.len() - r.len();
    assert(s =~= s.take(k) + r);
    blen_add(s.take(k), r);
    cidx_of(s, k);
}
}
// ----- machine values --------------------------------------------------------------------
verus! {
/// positional value of a decimal digit string
pub open spec fn dec_digits(s: Seq<char>) -> bool { s.len() > 0 && forall|k: int| 0 <= k < s.len() ==> is_dec(#[trigger] s[k]) }
/// the integer an unsigned literal denotes: optional `+`, digits
pub open spec fn u_lit(s: Seq<char>) -> Option<int> {
    let d = if starts(s, '+') { s.skip(1) } else { s };
    if dec_digits(d) { Some(radix_val(d, 10)) } else { None }
}
/// the integer a signed literal denotes: optional sign, digits
pub open spec fn i_lit(s: Seq<char>) -> Option<int> {
    if starts(s, '-') { if dec_digits(s.skip(1)) { Some(-radix_val(s.skip(1), 10)) } else { None } } else { u_lit(s) }
}
pub open spec fn ranged(o: Option<int>, lo: int, hi: int) -> Option<int> { match o { Some(v) => if lo <= v <= hi { Some(v) } else { None }, None => None } }
/// str::parse: what the text denotes in the target type, if anything
pub trait Parse: Sized {
    spec fn parsed(s: Seq<char>) -> Option<Self>;
}
pub uninterp spec fn f32_of(s: Seq<char>) -> Option<f32>;
pub uninterp spec fn f64_of(s: Seq<char>) -> Option<f64>;
}
macro_rules! parse_ints { ($($t:ident $f:ident;)*) => { verus! { $(
impl Parse for $t { open spec fn parsed(s: Seq<char>) -> Option<$t> { match ranged($f(s), $t::MIN as int, $t::MAX as int) { Some(v) => Some(v as $t), None => None } } }
)* } } }
parse_ints! { u8 u_lit; u16 u_lit; u32 u_lit; u64 u_lit; u128 u_lit; i8 i_lit; i16 i_lit; i32 i_lit; i64 i_lit; i128 i_lit; }
verus! {
impl Parse for f32 { open spec fn parsed(s: Seq<char>) -> Option<f32> { f32_of(s) } }
impl Parse for f64 { open spec fn parsed(s: Seq<char>) -> Option<f64> { f64_of(s) } }
#[verifier::external_trait_specification]
pub trait ExFromStr: Sized {
    type ExternalTraitSpecificationFor: std::str::FromStr;
    type Err;
}
pub open spec fn opt<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(v) => Some(v), Err(_) => None } }
/// str::parse
#[verifier::external_body]
pub fn str_parse<T: Parse + std::str::FromStr>(s: &str) -> (r: Result<T, <T as std::str::FromStr>::Err>)
    ensures opt(r) == T::parsed(s@)
{ s.parse() }
/// AsRef<str> of a Cow
#[verifier::external_body]
pub fn cow_str<'b, 'a>(c: &'b Cow<'a, str>) -> (r: &'b str) ensures r@ == c@ { c.as_ref() }
pub broadcast axiom fn cow_eq_spec<'a>(a: Cow<'a, str>, b: Cow<'a, str>)
    ensures <Cow<'a, str> as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec(), #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a@ == b@);
}
verus! {
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPFE(std::num::ParseFloatError);
/// decimal rendering
pub open spec fn dec_char(d: int) -> char { ((d + 48) as u32) as char }
pub open spec fn dec_nat(n: int) -> Seq<char>
    decreases n
{
    if n < 10 { seq![dec_char(n)] } else { dec_nat(n / 10).push(dec_char(n % 10)) }
}
pub open spec fn dec(n: int) -> Seq<char> { if n < 0 { seq!['-'] + dec_nat(-n) } else { dec_nat(n) } }
pub proof fn dec_nat_facts(n: int)
    requires n >= 0
    ensures dec_digits(dec_nat(n)), radix_val(dec_nat(n), 10) == n, is_dec(dec_nat(n)[0])
    decreases n
{
    reveal_with_fuel(radix_val, 2);
    if n < 10 {
        assert(dec_nat(n).drop_last() =~= Seq::<char>::empty());
        assert(dec_nat(n).last() == dec_char(n));
    } else {
        dec_nat_facts(n / 10);
        let s = dec_nat(n / 10);
        let t = dec_nat(n);
        assert(t.drop_last() =~= s);
        assert(t.last() == dec_char(n % 10));
        assert forall|k: int| 0 <= k < t.len() implies is_dec(#[trigger] t[k]) by { if k < s.len() { assert(t[k] == s[k]); } }
        assert(t[0] == s[0]);
    }
}
/// printing an integer and reading it back
pub broadcast proof fn dec_round(n: int)
    ensures i_lit(#[trigger] dec(n)) == Some(n), n >= 0 ==> u_lit(dec(n)) == Some(n), n < 0 ==> u_lit(dec(n)) is None
{
    if n >= 0 { dec_nat_facts(n); } else {
        dec_nat_facts(-n);
        assert(dec(n).skip(1) =~= dec_nat(-n));
        assert(dec(n)[0] == '-');
        assert(!is_dec(dec(n)[0]));
    }
}
/// leading minus signs removed
pub broadcast proof fn dec_unsigned(n: int)
    ensures (#[trigger] dec(n)).skip(first_idx(dec(n), p_not('-'))) == dec_nat(if n < 0 { -n } else { n })
{
    let s = dec(n);
    first_idx_props(s, p_not('-'));
    reveal_with_fuel(first_idx, 3);
    dec_nat_facts(if n < 0 { -n } else { n });
    if n >= 0 { assert(s[0] != '-'); assert(s.skip(0) =~= s); } else {
        assert(s.skip(1) =~= dec_nat(-n));
        assert(s.skip(1)[0] != '-');
    }
}
pub broadcast axiom fn to_string_str(c: &str, s: String)
    ensures #[trigger] to_string_from_display_ensures::<str>(c, s) ==> s@ == c@;
/// str::trim_start_matches of a character, on a String
#[verifier::external_body]
pub fn trim_start_string<'a>(t: &'a String, c: char) -> (r: &'a str)
    ensures r@ == t@.skip(first_idx(t@, p_not(c)))
{ t.trim_start_matches(c) }
}
macro_rules! display_ints { ($($t:ident $f:ident;)*) => { verus! { $(
/// integers print in decimal
pub broadcast axiom fn $f(n: $t, s: String)
    ensures #[trigger] to_string_from_display_ensures::<$t>(&n, s) ==> s@ == dec(n as int);
)* } } }
display_ints! { u8 ts_u8; u16 ts_u16; u32 ts_u32; u64 ts_u64; u128 ts_u128; i8 ts_i8; i16 ts_i16; i32 ts_i32; i64 ts_i64; i128 ts_i128; }
verus! {
/// the number a machine integer becomes
pub open spec fn num_of_int(n: int) -> NumV { NumV { input: dec(n), positive: n >= 0, whole: Some(dec_nat(if n < 0 { -n } else { n })), fraction: None, exp: None } }
}
verus! {
/// a number with a fraction or an exponent is a float
pub open spec fn is_fl(n: NumV) -> bool { n.fraction is Some || n.exp is Some }
pub open spec fn f64_eq(a: f64, b: f64) -> bool { vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) }
// IEEE operations are total and `==` is a function of its operands
pub broadcast axiom fn f64_sub(a: f64, b: f64) ensures #[trigger] vstd::std_specs::ops::SubSpec::sub_req(a, b);
pub broadcast axiom fn f64_mul(a: f64, b: f64) ensures #[trigger] vstd::std_specs::ops::MulSpec::mul_req(a, b);
pub broadcast axiom fn f64_div(a: f64, b: f64) ensures #[trigger] vstd::std_specs::ops::DivSpec::div_req(a, b);
pub broadcast axiom fn f64_add(a: f64, b: f64) ensures #[trigger] vstd::std_specs::ops::AddSpec::add_req(a, b);
pub broadcast axiom fn f64_obeys() ensures #[trigger] <f64 as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec();
pub broadcast group group_f64 { f64_sub, f64_mul, f64_div, f64_add, f64_obeys }
pub assume_specification [ std::f64::EPSILON ] -> f64;
pub assume_specification [ std::f64::MIN_POSITIVE ] -> f64;
pub assume_specification [ std::f64::MAX ] -> f64;
pub assume_specification [ f64::abs ] (a: f64) -> f64;
pub assume_specification [ f64::min ] (a: f64, b: f64) -> f64;
}
verus! {
pub broadcast axiom fn cow_obeys_eq<'a>()
    ensures #[trigger] <Cow<'a, str> as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec();
}
// ----- floats becoming numbers -----------------------------------------------------------
verus! {
/// the unread pieces of str::split with a one-character separator
#[verifier::external_body]
pub struct Pieces<'a>(std::str::Split<'a, &'a str>);
impl<'a> Pieces<'a> {
    /// what is left to be split; None once the last piece has been handed out
    pub uninterp spec fn left(&self) -> Option<Seq<char>>;
    pub uninterp spec fn sep(&self) -> char;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures final(self).sep() == old(self).sep(),
            match old(self).left() {
                None => r is None && final(self).left() is None,
                Some(s) => r matches Some(x) && x@ == piece(s, old(self).sep()) && final(self).left() == rest_of(s, old(self).sep()),
            }
    { self.0.next() }
}
pub open spec fn piece(s: Seq<char>, c: char) -> Seq<char> { s.take(first_idx(s, p_is(c))) }
pub open spec fn rest_of(s: Seq<char>, c: char) -> Option<Seq<char>> { if first_idx(s, p_is(c)) < s.len() { Some(s.skip(first_idx(s, p_is(c)) + 1)) } else { None } }
#[verifier::external_body]
pub fn split_pieces<'a>(t: &'a String, p: &'a str) -> (r: Pieces<'a>)
    requires p@.len() == 1
    ensures r.left() == Some(t@), r.sep() == p@[0]
{ Pieces(t.split(p)) }
/// digits, or digits with a fraction
pub open spec fn plain_dec(s: Seq<char>) -> bool {
    dec_digits(piece(s, '.')) && match rest_of(s, '.') { Some(f) => dec_digits(f), None => true }
}
/// digits are one piece
pub broadcast proof fn piece_digits(s: Seq<char>)
    requires dec_digits(s)
    ensures #[trigger] piece(s, '.') == s
{
    let k = first_idx(s, p_is('.'));
    first_idx_props(s, p_is('.'));
    if k < s.len() { assert(is_dec(s[k])); }
    assert(s.take(s.len() as int) =~= s);
}
/// the rendering of a magnitude with its sign in front
pub open spec fn signed(neg: bool, m: Seq<char>) -> Seq<char> { if neg { seq!['-'] + m } else { m } }
/// the number whose text is the given magnitude with its sign in front
pub open spec fn num_of_dec(neg: bool, m: Seq<char>) -> NumV { NumV { input: signed(neg, m), positive: !neg, whole: Some(piece(m, '.')), fraction: rest_of(m, '.'), exp: None } }
/// ... is the number a literal of that text is
pub broadcast proof fn num_of_dec_lit(neg: bool, m: Seq<char>)
    requires plain_dec(m)
    ensures s_number(signed(neg, m)) == PR::Ok(Seq::empty(), #[trigger] num_of_dec(neg, m))
{
    let s = signed(neg, m);
    let k = first_idx(m, p_is('.'));
    first_idx_props(m, p_is('.'));
    assert(m.take(k)[0] == m[0]);
    assert(is_dec(m[0]));
    if neg { assert(s[0] == '-'); assert(s.skip(1) =~= m); } else { assert(s =~= m); }
    assert(s_sign(s) == (m, !neg));
    digits_front(m, k);
    assert(s_digits(m) == PR::Ok(m.skip(k), m.take(k)));
    if k < m.len() {
        let r = m.skip(k);
        assert(r.skip(1) =~= m.skip(k + 1));
        let f = m.skip(k + 1);
        digits_front(f, f.len() as int);
        assert(f.take(f.len() as int) =~= f);
        assert(f.skip(f.len() as int) =~= Seq::<char>::empty());
    } else {
        assert(m.skip(k) =~= Seq::<char>::empty());
    }
    assert(s.take(s.len() as int) =~= s);
}
/// a run of digits that ends where something else starts
pub proof fn digits_front(s: Seq<char>, k: int)
    requires 0 < k <= s.len(), dec_digits(s.take(k)), k < s.len() ==> !is_dec(s[k])
    ensures s_digits(s) == PR::Ok(s.skip(k), s.take(k))
{
    first_idx_props(s, p_not_dec());
    let i = first_idx(s, p_not_dec());
    if i < k { assert(s.take(k)[i] == s[i]); }
    if i > k { assert(!p_not_dec()(s[k])); }
}
/// a machine integer as a literal
pub broadcast proof fn num_of_int_lit(n: int)
    ensures s_number(dec(n)) == PR::Ok(Seq::empty(), #[trigger] num_of_int(n))
{
    let m = dec_nat(if n < 0 { -n } else { n });
    dec_nat_facts(if n < 0 { -n } else { n });
    first_idx_props(m, p_is('.'));
    assert(first_idx(m, p_is('.')) == m.len()) by { if first_idx(m, p_is('.')) < m.len() { assert(is_dec(m[first_idx(m, p_is('.'))])); } }
    assert(m.take(m.len() as int) =~= m);
    num_of_dec_lit(n < 0, m);
}
}
macro_rules! float_text { ($t:ident, $fin:ident, $neg:ident, $mag:ident, $ts:ident, $obeys:ident, $total:ident, $flip:ident, $round:ident, $form:ident, $group:ident, $of:ident, $m1:literal) => { verus! {
/// neither infinite nor NaN
pub uninterp spec fn $fin(n: $t) -> bool;
/// the sign bit
pub uninterp spec fn $neg(n: $t) -> bool;
/// the rendering without its sign
pub uninterp spec fn $mag(n: $t) -> Seq<char>;
pub assume_specification [ $t::is_sign_positive ] (n: $t) -> (r: bool) ensures r == !$neg(n);
/// Display writes the sign, if there is one, and the magnitude
pub broadcast axiom fn $ts(n: $t, s: String)
    ensures #[trigger] to_string_from_display_ensures::<$t>(&n, s) ==> $fin(n) ==> s@ == signed($neg(n), $mag(n));
/// multiplication is a function of its operands
pub broadcast axiom fn $obeys() ensures #[trigger] <$t as vstd::std_specs::ops::MulSpec>::obeys_mul_spec();
/// ... total
pub broadcast axiom fn $total(n: $t, m: $t) ensures #[trigger] vstd::std_specs::ops::MulSpec::mul_req(n, m);
/// ... and by -1 changes the sign only
pub broadcast axiom fn $flip(n: $t, m: $t)
    ensures m == $m1 && $fin(n) ==> $fin(#[trigger] vstd::std_specs::ops::MulSpec::mul_spec(n, m)) && $neg(vstd::std_specs::ops::MulSpec::mul_spec(n, m)) == !$neg(n) && $mag(vstd::std_specs::ops::MulSpec::mul_spec(n, m)) == $mag(n);
/// a finite float is written as digits, maybe with a fraction
pub broadcast axiom fn $form(n: $t) ensures $fin(n) ==> plain_dec(#[trigger] $mag(n));
/// the shortest text that reads back as the same value
pub broadcast axiom fn $round(n: $t) ensures $fin(n) ==> $of(signed($neg(n), #[trigger] $mag(n))) == Some(n);
pub broadcast group $group { $ts, $obeys, $total, $flip, $round, $form }
} } }
float_text! { f32, fin32, neg32, mag32, ts_f32, obeys32, total32, flip32, round32, form32, group_f32_text, f32_of, -1.0f32 }
float_text! { f64, fin64, neg64, mag64, ts_f64, obeys64, total64, flip64, round64, form64, group_f64_text, f64_of, -1.0f64 }
