// Deserialization: what visitors and seeds are told (serde/de.rs)
use serde::de::{DeserializeSeed, Visitor};
use crate::serde::de::{Compat, Error as DeError};
use crate::serde::de::body::BodyValue;
use crate::parser::identifier::Identifier;
use crate::serde::de::object::ObjectMapAccess;
verus! {
#[verifier::external_trait_specification]
pub trait ExVisitor<'de>: Sized {
    type ExternalTraitSpecificationFor: Visitor<'de>;
    type Value;
}
#[verifier::external_trait_specification]
pub trait ExDeserializeSeed<'de>: Sized {
    type ExternalTraitSpecificationFor: DeserializeSeed<'de>;
    type Value;
}
#[verifier::external_trait_specification]
pub trait ExDeserialize<'de>: Sized {
    type ExternalTraitSpecificationFor: serde::Deserialize<'de>;
}
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExFailureCompat<T>(failure::Compat<T>);
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(E)]
pub struct ExCowDe<'a, E>(serde::de::value::CowStrDeserializer<'a, E>);
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(E)]
pub struct ExSeqDe<I, E>(serde::de::value::SeqDeserializer<I, E>);

/// the error a compatible error stands for
pub uninterp spec fn inside<T>(c: failure::Compat<T>) -> T;
pub uninterp spec fn wrapped(e: DeError) -> failure::Compat<DeError>;
pub broadcast axiom fn wrapped_inside(e: DeError) ensures inside(#[trigger] wrapped(e)) == e;
#[verifier::external_body]
pub fn compat_of_error(e: DeError) -> (r: failure::Compat<DeError>) ensures r == wrapped(e), inside(r) == e { failure::Fail::compat(e) }
#[verifier::external_body]
pub fn compat_into_inner(c: failure::Compat<DeError>) -> (r: DeError) ensures r == inside(c) { c.into_inner() }
impl FromSpecImpl<DeError> for Compat {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: DeError) -> Compat { Compat(wrapped(e)) }
}
impl FromSpecImpl<crate::Error> for Compat {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: crate::Error) -> Compat { Compat(wrapped(DeError::ParseError(e))) }
}
impl FromSpecImpl<Compat> for DeError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: Compat) -> DeError { de_error(e) }
}
impl FromSpecImpl<crate::Error> for DeError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: crate::Error) -> DeError { DeError::ParseError(e) }
}
impl FromSpecImpl<std::num::ParseIntError> for DeError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: std::num::ParseIntError) -> DeError { DeError::ParseIntError(e) }
}
impl FromSpecImpl<std::num::ParseFloatError> for DeError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: std::num::ParseFloatError) -> DeError { DeError::ParseFloatError(e) }
}
pub open spec fn de_error(c: Compat) -> DeError { inside(c.0) }

/// what a visitor or seed is given: one value of serde's data model
pub enum Told<'de> {
    Unit,
    Nothing,
    Bool(bool),
    Unsigned(u64),
    Signed(i64),
    Float(f64),
    Borrowed(Seq<char>),
    Owned(Seq<char>),
    Text(Seq<char>),
    Something(Expression<'de>),
    Newtype(Expression<'de>),
    Tuple(Seq<Expression<'de>>),
    Object(Seq<(ObjectElementIdentifier<'de>, Expression<'de>)>),
    Expr(Expression<'de>),
    Name(Seq<char>),
    SomeBlock(BlockBody<'de>),
    Bodies(Seq<Body<'de>>),
    Elements(Seq<(Identifier<'de>, BodyValue<'de>)>),
    Block(BlockBody<'de>),
    Document(Body<'de>),
}
/// visitor `v` may answer `r` when told `d`
pub uninterp spec fn visits<'de, V: Visitor<'de>>(v: V, d: Told<'de>, r: Result<V::Value, Compat>) -> bool;
/// seed `v` may answer `r` when given something that tells `d`
pub uninterp spec fn seeds<'de, V: DeserializeSeed<'de>>(v: V, d: Told<'de>, r: Result<V::Value, Compat>) -> bool;
#[verifier::external_body]
pub fn tell_unit<'de, V: Visitor<'de>>(v: V) -> (r: Result<V::Value, Compat>) ensures visits(v, Told::Unit, r) { v.visit_unit() }
#[verifier::external_body]
pub fn tell_none<'de, V: Visitor<'de>>(v: V) -> (r: Result<V::Value, Compat>) ensures visits(v, Told::Nothing, r) { v.visit_none() }
#[verifier::external_body]
pub fn tell_bool<'de, V: Visitor<'de>>(v: V, b: bool) -> (r: Result<V::Value, Compat>) ensures visits(v, Told::Bool(b), r) { v.visit_bool(b) }
#[verifier::external_body]
pub fn tell_u64<'de, V: Visitor<'de>>(v: V, n: u64) -> (r: Result<V::Value, Compat>) ensures visits(v, Told::Unsigned(n), r) { v.visit_u64(n) }
#[verifier::external_body]
pub fn tell_i64<'de, V: Visitor<'de>>(v: V, n: i64) -> (r: Result<V::Value, Compat>) ensures visits(v, Told::Signed(n), r) { v.visit_i64(n) }
#[verifier::external_body]
pub fn tell_f64<'de, V: Visitor<'de>>(v: V, n: f64) -> (r: Result<V::Value, Compat>) ensures visits(v, Told::Float(n), r) { v.visit_f64(n) }
#[verifier::external_body]
pub fn tell_borrowed<'de, V: Visitor<'de>>(v: V, s: &'de str) -> (r: Result<V::Value, Compat>) ensures visits(v, Told::Borrowed(s@), r) { v.visit_borrowed_str(s) }
#[verifier::external_body]
pub fn tell_str<'de, V: Visitor<'de>>(v: V, s: &str) -> (r: Result<V::Value, Compat>) ensures visits(v, Told::Text(s@), r) { v.visit_str(s) }
#[verifier::external_body]
pub fn tell_string<'de, V: Visitor<'de>>(v: V, s: String) -> (r: Result<V::Value, Compat>) ensures visits(v, Told::Owned(s@), r) { v.visit_string(s) }
#[verifier::external_body]
pub fn tell_some<'de, V: Visitor<'de>>(v: V, e: Expression<'de>) -> (r: Result<V::Value, Compat>) ensures visits(v, Told::Something(e), r) { v.visit_some(e) }
#[verifier::external_body]
pub fn tell_newtype<'de, V: Visitor<'de>>(v: V, e: Expression<'de>) -> (r: Result<V::Value, Compat>) ensures visits(v, Told::Newtype(e), r) { v.visit_newtype_struct(e) }
/// the items a list deserializer hands out
pub uninterp spec fn seq_items<I: Iterator<Item = T>, T, E>(d: serde::de::value::SeqDeserializer<I, E>) -> Seq<T>;
#[verifier::external_body]
pub fn exprs_deserializer<'de>(t: Vec<Expression<'de>>) -> (r: serde::de::value::SeqDeserializer<std::vec::IntoIter<Expression<'de>>, Compat>) ensures seq_items(r) == t@ { serde::de::IntoDeserializer::into_deserializer(t) }
#[verifier::external_body]
pub fn tell_exprs<'de, V: Visitor<'de>>(v: V, d: serde::de::value::SeqDeserializer<std::vec::IntoIter<Expression<'de>>, Compat>) -> (r: Result<V::Value, Compat>) ensures visits(v, Told::Tuple(seq_items(d)), r) { v.visit_seq(d) }

/// an iterator over a vector by value
pub uninterp spec fn left<T>(i: std::vec::IntoIter<T>) -> Seq<T>;
#[verifier::external_body]
pub fn left_of<T>(v: Vec<T>) -> (r: std::vec::IntoIter<T>) ensures left(r) == v@ { v.into_iter() }
#[verifier::external_body]
pub fn left_next<T>(i: &mut std::vec::IntoIter<T>) -> (r: Option<T>)
    ensures match r { Some(x) => left(*old(i)).len() > 0 && x == left(*old(i))[0] && left(*final(i)) == left(*old(i)).drop_first(), None => left(*old(i)).len() == 0 && left(*final(i)) == left(*old(i)) }
{ i.next() }
#[verifier::external_body]
pub fn left_hint<T>(i: &std::vec::IntoIter<T>) -> (r: (usize, Option<usize>)) ensures r.0 == left(*i).len(), r.1 == Some(r.0) { i.size_hint() }
/// the texts in a set of names
pub uninterp spec fn names<'a>(s: std::collections::HashSet<Cow<'a, str>>) -> Set<Seq<char>>;
#[verifier::external_body]
pub fn names_none<'a>() -> (r: std::collections::HashSet<Cow<'a, str>>) ensures names(r) == Set::<Seq<char>>::empty() { Default::default() }
#[verifier::external_body]
pub fn names_add<'a>(s: &mut std::collections::HashSet<Cow<'a, str>>, c: Cow<'a, str>) -> (r: bool) ensures r == !names(*old(s)).contains(c@), names(*final(s)) == names(*old(s)).insert(c@) { s.insert(c) }

/// tells an expression: what `deserialize_any` gives
pub open spec fn told_string<'de>(c: Cow<'de, str>) -> Told<'de> { match c { Cow::Borrowed(s) => Told::Borrowed(s@), Cow::Owned(s) => Told::Owned(s@) } }
/// a number is told exactly, or an error given when it is not a machine number
pub open spec fn tells_number<'de, V: Visitor<'de>>(v: V, n: crate::parser::number::Number<'de>, r: Result<V::Value, Compat>) -> bool {
    if is_fl(nview(n)) { match <f64 as Parse>::parsed(n.input@) { Some(x) => visits(v, Told::Float(x), r), None => r matches Err(e) && de_error(e) is ParseFloatError } }
    else if n.positive { match <u64 as Parse>::parsed(n.input@) { Some(x) => visits(v, Told::Unsigned(x), r), None => r matches Err(e) && de_error(e) is ParseIntError } }
    else { match <i64 as Parse>::parsed(n.input@) { Some(x) => visits(v, Told::Signed(x), r), None => r matches Err(e) && de_error(e) is ParseIntError } }
}
pub open spec fn tells_expr<'de, V: Visitor<'de>>(v: V, e: Expression<'de>, r: Result<V::Value, Compat>) -> bool {
    match e {
        Expression::Null => visits(v, Told::Unit, r),
        Expression::Number(n) => tells_number(v, n, r),
        Expression::Boolean(b) => visits(v, Told::Bool(b), r),
        Expression::String(s) => visits(v, told_string(s), r),
        Expression::Tuple(t) => visits(v, Told::Tuple(t@), r),
        Expression::Object(o) => visits(v, Told::Object(o@), r),
    }
}
pub open spec fn tells_tuple<'de, V: Visitor<'de>>(v: V, t: Seq<Expression<'de>>, len: Option<usize>, r: Result<V::Value, Compat>) -> bool {
    if len matches Some(n) && n != t.len() { r matches Err(e) && (de_error(e) matches DeError::InvalidTupleLength { expected, actual } && expected == len->Some_0 && actual == t.len()) }
    else { visits(v, Told::Tuple(t), r) }
}
pub open spec fn oma_left<'de>(a: ObjectMapAccess<'de>) -> Seq<(ObjectElementIdentifier<'de>, Expression<'de>)> { left(crate::serde::de::object::oma_iter(a)) }

pub use crate::serde::de::object::{oma_iter, oma_value, oma_seen};
#[verifier::external_body]
pub fn tell_object<'de, V: Visitor<'de>>(v: V, a: ObjectMapAccess<'de>) -> (r: Result<V::Value, Compat>)
    ensures oma_value(a) is None && oma_seen(a) == Set::<Seq<char>>::empty() ==> visits(v, Told::Object(oma_left(a)), r)
{ v.visit_map(a) }

#[verifier::external_body]
pub fn custom_error(m: String) -> (r: Compat) ensures de_error(r) is Custom { serde::de::Error::custom(m) }
/// the text a name deserializer holds
pub uninterp spec fn name_in<'a, E>(d: serde::de::value::CowStrDeserializer<'a, E>) -> Seq<char>;
#[verifier::external_body]
pub fn name_deserializer<'a>(c: Cow<'a, str>) -> (r: serde::de::value::CowStrDeserializer<'a, Compat>) ensures name_in(r) == c@ { serde::de::IntoDeserializer::into_deserializer(c) }
#[verifier::external_body]
pub fn seed_name<'de, K: DeserializeSeed<'de>>(k: K, d: serde::de::value::CowStrDeserializer<'de, Compat>) -> (r: Result<K::Value, Compat>) ensures seeds(k, Told::Name(name_in(d)), r) { k.deserialize(d) }
#[verifier::external_body]
pub fn seed_expr<'de, K: DeserializeSeed<'de>>(k: K, e: Expression<'de>) -> (r: Result<K::Value, Compat>) ensures seeds(k, Told::Expr(e), r) { k.deserialize(e) }
/// `r` is the answer `seed` gives to `d`, wrapped in `Some`
pub open spec fn seeds_some<'de, K: DeserializeSeed<'de>>(k: K, d: Told<'de>, r: Result<Option<K::Value>, Compat>) -> bool {
    match r { Ok(Some(x)) => seeds(k, d, Ok(x)), Ok(None) => false, Err(e) => seeds(k, d, Err(e)) }
}
/// asking an object for its next key
pub open spec fn oma_key<'de, K: DeserializeSeed<'de>>(a: ObjectMapAccess<'de>, b: ObjectMapAccess<'de>, k: K, r: Result<Option<K::Value>, Compat>) -> bool {
    if oma_left(a).len() == 0 { r matches Ok(None) && oma_left(b) == oma_left(a) && oma_seen(b) == oma_seen(a) && oma_value(b) == oma_value(a) }
    else {
        &&& oma_left(b) == oma_left(a).drop_first()
        &&& match oma_left(a)[0].0 {
            ObjectElementIdentifier::Expression(_) => r matches Err(e) && de_error(e) is Custom,
            ObjectElementIdentifier::Identifier(id) =>
                if oma_seen(a).contains(id@) { r matches Err(e) && (de_error(e) matches DeError::ObjectDuplicateKey(t) && t@ == id@) }
                else { seeds_some(k, Told::Name(id@), r) && oma_seen(b) == oma_seen(a).insert(id@) && oma_value(b) == Some(oma_left(a)[0].1) },
        }
    }
}

pub open spec fn key_text<'de>(k: ObjectElementIdentifier<'de>) -> Seq<char> { match k { ObjectElementIdentifier::Identifier(id) => id@, ObjectElementIdentifier::Expression(_) => Seq::empty() } }
/// the names of the first n entries
pub open spec fn key_names<'de>(e: Seq<(ObjectElementIdentifier<'de>, Expression<'de>)>, n: int) -> Set<Seq<char>>
    decreases n
{ if n <= 0 { Set::empty() } else { key_names(e, n - 1).insert(key_text(e[n - 1].0)) } }
pub proof fn key_names_has<'de>(e: Seq<(ObjectElementIdentifier<'de>, Expression<'de>)>, n: int, t: Seq<char>)
    ensures key_names(e, n).contains(t) == (exists|i: int| 0 <= i < n && t == key_text(#[trigger] e[i].0))
    decreases n
{
    if n > 0 {
        key_names_has(e, n - 1, t);
        if key_names(e, n).contains(t) && !key_names(e, n - 1).contains(t) { assert(t == key_text(e[n - 1].0)); }
        if exists|i: int| 0 <= i < n && t == key_text(#[trigger] e[i].0) { let i = choose|i: int| 0 <= i < n && t == key_text(#[trigger] e[i].0); if i < n - 1 { assert(key_names(e, n - 1).contains(t)); } }
    }
}
/// one entry taken from an object: key, then value
pub open spec fn oma_entry<'de, K: DeserializeSeed<'de>>(a: ObjectMapAccess<'de>, m: ObjectMapAccess<'de>, b: ObjectMapAccess<'de>, k: K, r: Result<Option<K::Value>, Compat>) -> bool {
    oma_key(a, m, k, r) && (r matches Ok(Some(_))) && oma_value(m) is Some && oma_left(b) == oma_left(m) && oma_seen(b) == oma_seen(m)
}
/// taking entry after entry from an object with entries `e` gives each name with its value, in
/// order, and never the same name twice
pub proof fn d01_object<'de, K: DeserializeSeed<'de>>(e: Seq<(ObjectElementIdentifier<'de>, Expression<'de>)>, a: Seq<ObjectMapAccess<'de>>, m: Seq<ObjectMapAccess<'de>>, k: Seq<K>, r: Seq<Result<Option<K::Value>, Compat>>, n: int)
    requires
        0 <= n < a.len(), n <= m.len(), oma_left(a[0]) == e, oma_seen(a[0]) == Set::<Seq<char>>::empty(),
        forall|i: int| 0 <= i < n ==> oma_entry(a[i], #[trigger] m[i], a[i + 1], k[i], r[i]),
    ensures
        n <= e.len(), oma_left(a[n]) == e.skip(n), oma_seen(a[n]) == key_names(e, n),
        forall|i: int| 0 <= i < n ==> (#[trigger] e[i]).0 is Identifier && oma_value(m[i]) == Some(e[i].1) && seeds_some(k[i], Told::Name(key_text(e[i].0)), r[i]),
        forall|i: int, j: int| 0 <= i < j < n ==> key_text(#[trigger] e[i].0) != key_text(#[trigger] e[j].0),
    decreases n
{
    if n == 0 { assert(e.skip(0) =~= e); }
    else {
        d01_object(e, a, m, k, r, n - 1);
        assert(oma_entry(a[n - 1], m[n - 1], a[n - 1 + 1], k[n - 1], r[n - 1]));
        assert(e.skip(n - 1).drop_first() =~= e.skip(n));
        assert(e.skip(n - 1)[0] == e[n - 1]);
        key_names_has(e, n - 1, key_text(e[n - 1].0));
        assert forall|i: int| 0 <= i < n implies (#[trigger] e[i]).0 is Identifier && oma_value(m[i]) == Some(e[i].1) && seeds_some(k[i], Told::Name(key_text(e[i].0)), r[i]) by { if i == n - 1 { assert(e[i] == oma_left(a[n - 1])[0]); } }
        assert forall|i: int, j: int| 0 <= i < j < n implies key_text(#[trigger] e[i].0) != key_text(#[trigger] e[j].0) by { if j == n - 1 { } }
    }
}
/// a name used before is an error, a new one is not
pub proof fn d01_duplicate<'de, K: DeserializeSeed<'de>>(e: Seq<(ObjectElementIdentifier<'de>, Expression<'de>)>, a: ObjectMapAccess<'de>, b: ObjectMapAccess<'de>, n: int, k: K, r: Result<Option<K::Value>, Compat>)
    requires 0 <= n < e.len(), oma_left(a) == e.skip(n), oma_seen(a) == key_names(e, n), oma_key(a, b, k, r), e[n].0 is Identifier
    ensures
        (exists|i: int| 0 <= i < n && key_text(e[n].0) == key_text(#[trigger] e[i].0)) ==> (r matches Err(x) && de_error(x) is ObjectDuplicateKey),
        !(exists|i: int| 0 <= i < n && key_text(e[n].0) == key_text(#[trigger] e[i].0)) ==> seeds_some(k, Told::Name(key_text(e[n].0)), r) && oma_value(b) == Some(e[n].1),
{ key_names_has(e, n, key_text(e[n].0)); assert(e.skip(n)[0] == e[n]); }

/// an integer is told with its exact value, or an error when it is no 64 bit integer
pub proof fn d01_integer<'de, V: Visitor<'de>>(v: V, n: crate::parser::number::Number<'de>, k: int, r: Result<V::Value, Compat>)
    requires nview(n) == num_of_int(k), tells_number(v, n, r)
    ensures
        0 <= k <= u64::MAX ==> visits(v, Told::Unsigned(k as u64), r),
        i64::MIN <= k < 0 ==> visits(v, Told::Signed(k as i64), r),
        k > u64::MAX || k < i64::MIN ==> (r matches Err(e) && de_error(e) is ParseIntError),
{ dec_round(k); }

// ---- documents ----
pub use crate::serde::de::body::{de_body, ma_iter, ma_value, ma_seen};
pub open spec fn ma_left<'de>(a: crate::serde::de::body::MapAccess<'de>) -> Seq<(Identifier<'de>, BodyValue<'de>)> { left(ma_iter(a)) }
pub open spec fn only<'a>(b: Seq<BodyElement<'a>>, attr: bool) -> Seq<BodyElement<'a>>
    decreases b.len()
{ if b.len() == 0 { b } else if (b.last() is Attribute) == attr { only(b.drop_last(), attr).push(b.last()) } else { only(b.drop_last(), attr) } }
pub proof fn only_kind<'a>(b: Seq<BodyElement<'a>>, attr: bool)
    ensures forall|i: int| 0 <= i < only(b, attr).len() ==> (#[trigger] only(b, attr)[i] is Attribute) == attr
    decreases b.len()
{ if b.len() > 0 { only_kind(b.drop_last(), attr); } }
pub open spec fn at_attr<'a>() -> spec_fn(BodyElement<'a>) -> (Identifier<'a>, Expression<'a>) { |e: BodyElement<'a>| e->Attribute_0 }
pub open spec fn at_entry<'a>() -> spec_fn((Identifier<'a>, Expression<'a>)) -> (Identifier<'a>, BodyValue<'a>) { |e: (Identifier<'a>, Expression<'a>)| (e.0, BodyValue::Expression(e.1)) }
pub proof fn map_step<A, B>(s: Seq<A>, f: spec_fn(A) -> B, i: int)
    requires 0 <= i < s.len() ensures s.take(i + 1).map_values(f) == s.take(i).map_values(f).push(f(s[i]))
{ assert(s.take(i + 1).map_values(f) =~= s.take(i).map_values(f).push(f(s[i]))); }
pub broadcast proof fn map_start<A, B>(s: Seq<A>, f: spec_fn(A) -> B) ensures #[trigger] s.take(0).map_values(f) == Seq::<B>::empty() { assert(s.take(0).map_values(f) =~= Seq::<B>::empty()); }
pub broadcast proof fn take_whole<A>(s: Seq<A>, n: int) requires n == s.len() ensures #[trigger] s.take(n) == s { assert(s.take(n) =~= s); }
pub open spec fn at_block<'a>() -> spec_fn(BodyElement<'a>) -> Block<'a> { |e: BodyElement<'a>| e->Block_0 }
pub open spec fn bl_entry<'a>() -> spec_fn((Identifier<'a>, BlockBody<'a>)) -> (Identifier<'a>, BodyValue<'a>) { |e: (Identifier<'a>, BlockBody<'a>)| (e.0, BodyValue::Block(e.1)) }
/// the entries a document is read as: its attributes in order, then its blocks indexed by type
pub open spec fn elements_of<'a>(b: Seq<BodyElement<'a>>, es: Seq<(Identifier<'a>, BodyValue<'a>)>) -> bool {
    exists|h: HashMap<Identifier<'a>, BlockBody<'a>>| es == only(b, true).map_values(at_attr()).map_values(at_entry()) + (#[trigger] hm_pairs(h)).map_values(bl_entry())
        && hm_view(h, vix()) == bs_all(Map::<KeyV, IxV<Body<'a>>>::empty(), only(b, false).map_values(at_block()).map_values(blk()))
}
/// Iterator::partition
pub fn parts<'a, F: Fn(&BodyElement<'a>) -> bool>(v: Vec<BodyElement<'a>>, f: F) -> (r: (Vec<BodyElement<'a>>, Vec<BodyElement<'a>>))
    requires
        forall|e: BodyElement<'a>| #[trigger] f.requires((&e,)),
        forall|e: BodyElement<'a>, b: bool| #[trigger] f.ensures((&e,), b) ==> b == (e is Attribute),
    ensures r.0@ == only(v@, true), r.1@ == only(v@, false)
{
    let mut a = Vec::new();
    let mut b = Vec::new();
    let ghost g = v@;
    for x in it: v
        invariant
            it.seq() == g, a@ == only(g.take(it.index@ as int), true), b@ == only(g.take(it.index@ as int), false),
            forall|e: BodyElement<'a>| #[trigger] f.requires((&e,)),
            forall|e: BodyElement<'a>, b: bool| #[trigger] f.ensures((&e,), b) ==> b == (e is Attribute),
    {
        proof { assert(g.take(it.index@ + 1).drop_last() =~= g.take(it.index@ as int)); }
        if f(&x) { a.push(x); } else { b.push(x); }
    }
    proof { assert(g.take(g.len() as int) =~= g); }
    (a, b)
}

pub open spec fn tells_body<'de, V: Visitor<'de>>(v: V, b: Seq<BodyElement<'de>>, r: Result<V::Value, Compat>) -> bool {
    exists|es: Seq<(Identifier<'de>, BodyValue<'de>)>| elements_of(b, es) && #[trigger] visits(v, Told::Elements(es), r)
}
#[verifier::external_body]
pub fn tell_elements<'de, V: Visitor<'de>>(v: V, a: crate::serde::de::body::MapAccess<'de>) -> (r: Result<V::Value, Compat>)
    ensures ma_value(a) is None && ma_seen(a) == Set::<Seq<char>>::empty() ==> visits(v, Told::Elements(ma_left(a)), r)
{ v.visit_map(a) }
#[verifier::external_body]
pub fn seed_block<'de, K: DeserializeSeed<'de>>(k: K, e: BlockBody<'de>) -> (r: Result<K::Value, Compat>) ensures seeds(k, Told::Block(e), r) { k.deserialize(e) }
#[verifier::external_body]
pub fn tell_some_block<'de, V: Visitor<'de>>(v: V, e: BlockBody<'de>) -> (r: Result<V::Value, Compat>) ensures visits(v, Told::SomeBlock(e), r) { v.visit_some(e) }
#[verifier::external_body]
pub fn custom_text(m: &str) -> (r: Compat) ensures de_error(r) is Custom { serde::de::Error::custom(m) }
pub open spec fn vdoc<'de>() -> spec_fn(crate::serde::de::body::Deserializer<'de>) -> Body<'de> { |d: crate::serde::de::body::Deserializer<'de>| de_body(d) }
#[verifier::external_body]
pub fn docs_deserializer<'de>(t: Vec<crate::serde::de::body::Deserializer<'de>>) -> (r: serde::de::value::SeqDeserializer<std::vec::IntoIter<crate::serde::de::body::Deserializer<'de>>, Compat>) ensures seq_items(r) == t@ { serde::de::IntoDeserializer::into_deserializer(t) }
#[verifier::external_body]
pub fn tell_bodies<'de, V: Visitor<'de>>(v: V, d: serde::de::value::SeqDeserializer<std::vec::IntoIter<crate::serde::de::body::Deserializer<'de>>, Compat>) -> (r: Result<V::Value, Compat>) ensures visits(v, Told::Bodies(seq_items(d).map_values(vdoc())), r) { v.visit_seq(d) }
pub open spec fn told_value<'de>(b: BodyValue<'de>) -> Told<'de> { match b { BodyValue::Expression(e) => Told::Expr(e), BodyValue::Block(b) => Told::Block(b) } }
/// asking a document for its next name
pub open spec fn ma_key<'de, K: DeserializeSeed<'de>>(a: crate::serde::de::body::MapAccess<'de>, b: crate::serde::de::body::MapAccess<'de>, k: K, r: Result<Option<K::Value>, Compat>) -> bool {
    if ma_left(a).len() == 0 { r matches Ok(None) && ma_left(b) == ma_left(a) && ma_seen(b) == ma_seen(a) && ma_value(b) == ma_value(a) }
    else {
        &&& ma_left(b) == ma_left(a).drop_first()
        &&& if ma_seen(a).contains(ma_left(a)[0].0@) { r matches Err(e) && (de_error(e) matches DeError::BodyDuplicateKey(t) && t@ == ma_left(a)[0].0@) }
            else { seeds_some(k, Told::Name(ma_left(a)[0].0@), r) && ma_seen(b) == ma_seen(a).insert(ma_left(a)[0].0@) && ma_value(b) == Some(ma_left(a)[0].1) }
    }
}
/// a block body on its own: one body as a map, several as a sequence, labels are not supported
pub open spec fn tells_block<'de, V: Visitor<'de>>(v: V, b: BlockBody<'de>, r: Result<V::Value, Compat>) -> bool {
    match b {
        BlockBody::Body(s) => if s@.len() == 1 { tells_body(v, s@[0]@, r) } else { visits(v, Told::Bodies(s@), r) },
        BlockBody::Labels { empty, labels } => some_key(hm_map(labels)) ==> (r matches Err(e) && de_error(e) is Custom),
    }
}
/// a block body as a sequence: all bodies in order
pub open spec fn tells_block_seq<'de, V: Visitor<'de>>(v: V, b: BlockBody<'de>, r: Result<V::Value, Compat>) -> bool {
    match b {
        BlockBody::Body(s) => visits(v, Told::Bodies(s@), r),
        BlockBody::Labels { empty, labels } => some_key(hm_map(labels)) ==> (r matches Err(e) && de_error(e) is Custom),
    }
}
/// reading a document: its elements, or the parse error
pub open spec fn reads_document<'de>(s: Seq<char>, r: Result<crate::serde::de::body::Deserializer<'de>, DeError>) -> bool {
    match r {
        Ok(d) => answers::<Body<'de>, Seq<BodyElemV>>(Ok(de_body(d)), s_config(s), vvec(vbody())),
        Err(DeError::ParseError(x)) => answers::<Body<'de>, Seq<BodyElemV>>(Err(x), s_config(s), vvec(vbody())),
        Err(_) => false,
    }
}
/// `T` may answer `r` when it is read from a document
pub uninterp spec fn loads<'de, T>(b: Body<'de>, r: Result<T, Compat>) -> bool;
#[verifier::external_body]
pub fn read_into<'de, T: serde::Deserialize<'de>>(d: crate::serde::de::body::Deserializer<'de>) -> (r: Result<T, Compat>) ensures loads(de_body(d), r) { T::deserialize(d) }
/// the value in a document: what its elements load into, and every error is passed on
pub open spec fn reads_value<'de, T>(s: Seq<char>, r: Result<T, DeError>) -> bool {
    exists|d: Result<crate::serde::de::body::Deserializer<'de>, DeError>| #[trigger] reads_document(s, d) && match d {
        Err(e) => r matches Err(x) && x == e,
        Ok(d) => exists|q: Result<T, Compat>| #[trigger] loads(de_body(d), q) && match q { Ok(t) => r matches Ok(x) && x == t, Err(e) => r matches Err(x) && x == de_error(e) },
    }
}

pub open spec fn docs<'de>(s: Seq<crate::serde::de::body::Deserializer<'de>>) -> Seq<Body<'de>> { s.map_values(vdoc()) }
pub broadcast proof fn docs_push<'de>(s: Seq<crate::serde::de::body::Deserializer<'de>>, x: crate::serde::de::body::Deserializer<'de>) ensures #[trigger] docs(s.push(x)) == docs(s).push(de_body(x)) { assert(docs(s.push(x)) =~= docs(s).push(de_body(x))); }

pub open spec fn doc_blocks<'a>(b: Seq<BodyElement<'a>>) -> Seq<BkV<Body<'a>>> { only(b, false).map_values(at_block()).map_values(blk()) }
pub proof fn d02_attributes<'a>(b: Seq<BodyElement<'a>>, es: Seq<(Identifier<'a>, BodyValue<'a>)>, i: int)
    requires elements_of(b, es), 0 <= i < only(b, true).len()
    ensures i < es.len(), es[i].0 == only(b, true)[i]->Attribute_0.0, es[i].1 == BodyValue::Expression(only(b, true)[i]->Attribute_0.1)
{ }
/// under a block type is the index of exactly the blocks of that type
pub proof fn d02_block<'a>(b: Seq<BodyElement<'a>>, es: Seq<(Identifier<'a>, BodyValue<'a>)>, i: int, p: Seq<Seq<char>>)
    requires elements_of(b, es), only(b, true).len() <= i < es.len()
    ensures es[i].1 matches BodyValue::Block(x) && ix_at(ixv(x), p) == written(doc_blocks(b), es[i].0@, p)
{
    broadcast use hm_keys, hm_order, hm_distinct, key_id_cow;
    let h = choose|h: HashMap<Identifier<'a>, BlockBody<'a>>| es == only(b, true).map_values(at_attr()).map_values(at_entry()) + (#[trigger] hm_pairs(h)).map_values(bl_entry())
        && hm_view(h, vix()) == bs_all(Map::<KeyV, IxV<Body<'a>>>::empty(), only(b, false).map_values(at_block()).map_values(blk()));
    let j = i - only(b, true).len();
    let e = hm_pairs(h)[j];
    assert(es[i] == (e.0, BodyValue::Block(e.1)));
    let t = es[i].0@;
    assert(key_id(&e.0) == KeyV::Text(t));
    assert(hm_map(h).contains_key(KeyV::Text(t)) && hm_map(h)[KeyV::Text(t)] == e);
    assert(hm_view(h, vix())[KeyV::Text(t)] == ixv(e.1));
    k02_index(Map::<KeyV, IxV<Body<'a>>>::empty(), doc_blocks(b), t, p);
    assert(Seq::<Body<'a>>::empty() + written(doc_blocks(b), t, p) =~= written(doc_blocks(b), t, p));
}
/// every block type of the document is an entry
pub proof fn d02_every<'a>(b: Seq<BodyElement<'a>>, es: Seq<(Identifier<'a>, BodyValue<'a>)>, t: Seq<char>, p: Seq<Seq<char>>)
    requires elements_of(b, es), written(doc_blocks(b), t, p).len() > 0
    ensures exists|i: int| only(b, true).len() <= i < es.len() && #[trigger] es[i].0@ == t
{
    broadcast use hm_keys, hm_order, hm_distinct, key_id_cow;
    let h = choose|h: HashMap<Identifier<'a>, BlockBody<'a>>| es == only(b, true).map_values(at_attr()).map_values(at_entry()) + (#[trigger] hm_pairs(h)).map_values(bl_entry())
        && hm_view(h, vix()) == bs_all(Map::<KeyV, IxV<Body<'a>>>::empty(), only(b, false).map_values(at_block()).map_values(blk()));
    k02_index(Map::<KeyV, IxV<Body<'a>>>::empty(), doc_blocks(b), t, p);
    assert(hm_map(h).contains_key(KeyV::Text(t)));
    let s = hm_pairs(h);
    let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == hm_map(h)[KeyV::Text(t)];
    assert(key_id(&s[j].0) == KeyV::Text(t));
    let i = j + only(b, true).len();
    assert(es[i] == (s[j].0, BodyValue::Block(s[j].1)));
    assert(es[i].0@ == t);
}
/// blocks without labels are indexed as the plain list of their bodies, in order
pub proof fn d02_plain<B>(s: Seq<BkV<B>>, t: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).t == t ==> s[i].l.len() == 0
    ensures ({ let m = bs_all(Map::<KeyV, IxV<B>>::empty(), s); m.contains_key(KeyV::Text(t)) ==> m[KeyV::Text(t)] is Body })
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() && (#[trigger] s.drop_last()[i]).t == t implies s.drop_last()[i].l.len() == 0 by { assert(s[i] == s.drop_last()[i]); }
        d02_plain(s.drop_last(), t);
        assert(s[s.len() - 1] == s.last());
    }
}
pub open spec fn name_texts<'a>(e: Seq<(Identifier<'a>, BodyValue<'a>)>, n: int) -> Set<Seq<char>>
    decreases n
{ if n <= 0 { Set::empty() } else { name_texts(e, n - 1).insert(e[n - 1].0@) } }
pub proof fn name_texts_has<'a>(e: Seq<(Identifier<'a>, BodyValue<'a>)>, n: int, t: Seq<char>)
    ensures name_texts(e, n).contains(t) == (exists|i: int| 0 <= i < n && t == (#[trigger] e[i]).0@)
    decreases n
{
    if n > 0 {
        name_texts_has(e, n - 1, t);
        if name_texts(e, n).contains(t) && !name_texts(e, n - 1).contains(t) { assert(t == e[n - 1].0@); }
        if exists|i: int| 0 <= i < n && t == (#[trigger] e[i]).0@ { let i = choose|i: int| 0 <= i < n && t == (#[trigger] e[i]).0@; if i < n - 1 { assert(name_texts(e, n - 1).contains(t)); } }
    }
}
/// one entry taken from a document: name, then value
pub open spec fn ma_entry<'de, K: DeserializeSeed<'de>>(a: crate::serde::de::body::MapAccess<'de>, m: crate::serde::de::body::MapAccess<'de>, b: crate::serde::de::body::MapAccess<'de>, k: K, r: Result<Option<K::Value>, Compat>) -> bool {
    ma_key(a, m, k, r) && (r matches Ok(Some(_))) && ma_value(m) is Some && ma_left(b) == ma_left(m) && ma_seen(b) == ma_seen(m)
}
/// taking entry after entry from a document with elements `e` gives each name with its value, in
/// order, and never the same name twice
pub proof fn d02_document<'de, K: DeserializeSeed<'de>>(e: Seq<(Identifier<'de>, BodyValue<'de>)>, a: Seq<crate::serde::de::body::MapAccess<'de>>, m: Seq<crate::serde::de::body::MapAccess<'de>>, k: Seq<K>, r: Seq<Result<Option<K::Value>, Compat>>, n: int)
    requires
        0 <= n < a.len(), n <= m.len(), ma_left(a[0]) == e, ma_seen(a[0]) == Set::<Seq<char>>::empty(),
        forall|i: int| 0 <= i < n ==> ma_entry(a[i], #[trigger] m[i], a[i + 1], k[i], r[i]),
    ensures
        n <= e.len(), ma_left(a[n]) == e.skip(n), ma_seen(a[n]) == name_texts(e, n),
        forall|i: int| 0 <= i < n ==> ma_value(m[i]) == Some((#[trigger] e[i]).1) && seeds_some(k[i], Told::Name(e[i].0@), r[i]),
        forall|i: int, j: int| 0 <= i < j < n ==> (#[trigger] e[i]).0@ != (#[trigger] e[j]).0@,
    decreases n
{
    if n == 0 { assert(e.skip(0) =~= e); }
    else {
        d02_document(e, a, m, k, r, n - 1);
        assert(ma_entry(a[n - 1], m[n - 1], a[n - 1 + 1], k[n - 1], r[n - 1]));
        assert(e.skip(n - 1).drop_first() =~= e.skip(n));
        assert(e.skip(n - 1)[0] == e[n - 1]);
        name_texts_has(e, n - 1, e[n - 1].0@);
        assert forall|i: int| 0 <= i < n implies ma_value(m[i]) == Some((#[trigger] e[i]).1) && seeds_some(k[i], Told::Name(e[i].0@), r[i]) by { if i == n - 1 { assert(e[i] == ma_left(a[n - 1])[0]); } }
        assert forall|i: int, j: int| 0 <= i < j < n implies (#[trigger] e[i]).0@ != (#[trigger] e[j]).0@ by { if j == n - 1 { } }
    }
}
pub proof fn d02_duplicate<'de, K: DeserializeSeed<'de>>(e: Seq<(Identifier<'de>, BodyValue<'de>)>, a: crate::serde::de::body::MapAccess<'de>, b: crate::serde::de::body::MapAccess<'de>, n: int, k: K, r: Result<Option<K::Value>, Compat>)
    requires 0 <= n < e.len(), ma_left(a) == e.skip(n), ma_seen(a) == name_texts(e, n), ma_key(a, b, k, r)
    ensures
        (exists|i: int| 0 <= i < n && e[n].0@ == (#[trigger] e[i]).0@) ==> (r matches Err(x) && de_error(x) is BodyDuplicateKey),
        !(exists|i: int| 0 <= i < n && e[n].0@ == (#[trigger] e[i]).0@) ==> seeds_some(k, Told::Name(e[n].0@), r) && ma_value(b) == Some(e[n].1),
{ name_texts_has(e, n, e[n].0@); assert(e.skip(n)[0] == e[n]); }
}
