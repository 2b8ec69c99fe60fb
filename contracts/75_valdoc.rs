// Value documents (parser.rs: the entry points of `value::from_str` and the deserializer)
use crate::parser::literals::number::Number as LitNumber;
verus! {
impl<'a> FromSpecImpl<LitNumber> for Value<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(n: LitNumber) -> Value<'a> { match n { LitNumber::Integer(i) => Value::Integer(i), LitNumber::Float(f) => Value::Float(f) } }
}
impl<'a> FromSpecImpl<Vec<KeyValuePairs<Key<'a>, Value<'a>>>> for Value<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Vec<KeyValuePairs<Key<'a>, Value<'a>>>) -> Value<'a> { Value::Object(v) }
}
impl<'a> FromSpecImpl<KeyValuePairs<Key<'a>, Value<'a>>> for Value<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: KeyValuePairs<Key<'a>, Value<'a>>) -> Value<'a> { Value::Null }
}
/// what a number literal denotes: an integer where it fits i64, else the closest double
pub open spec fn num_val(t: Seq<char>) -> Option<ValV> {
    match <i64 as Parse>::parsed(t) {
        Some(i) => Some(ValV::Integer(i)),
        None => match f64_of(t) { Some(f) => Some(ValV::Float(f)), None => None },
    }
}
pub open spec fn s_vnum(s: Seq<char>) -> PR<ValV> {
    match s_number(s) {
        PR::Ok(r, n) => match num_val(s.take(s.len() - r.len())) { Some(v) => PR::Ok(r, v), None => PR::Err },
        _ => PR::Err,
    }
}
/// identifier | string literal
pub open spec fn s_key(s: Seq<char>) -> PR<KeyLitV> {
    match s_ident(s) {
        PR::Ok(r, v) => PR::Ok(r, KeyLitV::Ident(v)),
        PR::Fail => PR::Fail,
        PR::Err => match s_string_literal(s) { PR::Ok(r, v) => PR::Ok(r, KeyLitV::Str(v)), PR::Fail => PR::Fail, PR::Err => PR::Err },
    }
}
pub open spec fn s_lit_item(s: Seq<char>) -> PR<Seq<char>> { s_string_literal(after_iws(s)) }
pub open spec fn p_lit_item() -> spec_fn(Seq<char>) -> PR<Seq<char>> { |s: Seq<char>| s_lit_item(s) }
#[verifier::opaque]
pub open spec fn s_lits(s: Seq<char>) -> PR<Seq<Seq<char>>> { s_many0(p_lit_item(), s, Seq::empty()) }
pub broadcast proof fn suf_vnum(s: Seq<char>)
    ensures (#[trigger] s_vnum(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
{ broadcast use suf_number; }
pub broadcast proof fn suf_key(s: Seq<char>)
    ensures (#[trigger] s_key(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
{ broadcast use {suf_ident, suf_string_literal}; }
pub broadcast proof fn suf_lit_item(s: Seq<char>)
    ensures (#[trigger] s_lit_item(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
{ broadcast use {suf_string_literal, after_iws_le, group_suffix}; }
pub broadcast proof fn suf_lits(s: Seq<char>)
    ensures (#[trigger] s_lits(s)) matches PR::Ok(r, _) ==> is_suffix(r, s)
{ reveal(s_lits); broadcast use suf_lit_item; assert(suffixy(p_lit_item())); many0_suffix(p_lit_item(), s, Seq::empty()); }
/// a comma (with whitespace around it), newlines, or the end of the input
pub open spec fn s_entry_sep(s: Seq<char>) -> PR<()> {
    if starts(after_ws(s), ',') { PR::Ok(after_ws(after_ws(s).skip(1)), ()) } else {
        match s_newline(s) { PR::Ok(r, _) => PR::Ok(r, ()), PR::Fail => PR::Fail, PR::Err => if s.len() == 0 { PR::Ok(s, ()) } else { PR::Err } }
    }
}
pub broadcast proof fn suf_entry_sep(s: Seq<char>)
    ensures (#[trigger] s_entry_sep(s)) matches PR::Ok(r, _) ==> is_suffix(r, s)
{ broadcast use {group_suffix, suf_newline, after_ws_le}; }
/// a whole document
pub open spec fn s_document(s: Seq<char>) -> PR<Seq<(KeyLitV, ValV)>> {
    match s_entries(s) { PR::Ok(r, v) => if r.len() == 0 { PR::Ok(r, v) } else { PR::Err }, x => x }
}
pub mod valdoc {
use super::*;
broadcast use {super::after_ws_le, super::after_iws_le, super::suf_ident, super::suf_key, super::suf_lits, super::suf_entry_sep};
/// the value of `= ...`
#[verifier::opaque]
pub open spec fn s_value(s: Seq<char>) -> PR<ValV>
    decreases s.len(), 10nat
{
    match s_null(s) { PR::Ok(r, _) => PR::Ok(r, ValV::Null), PR::Fail => PR::Fail, PR::Err =>
    match s_vnum(s) { PR::Ok(r, v) => PR::Ok(r, v), PR::Fail => PR::Fail, PR::Err =>
    match s_bool(s) { PR::Ok(r, v) => PR::Ok(r, ValV::Boolean(v)), PR::Fail => PR::Fail, PR::Err =>
    match s_string(s) { PR::Ok(r, v) => PR::Ok(r, ValV::Str(v)), PR::Fail => PR::Fail, PR::Err =>
    match s_list(s) { PR::Ok(r, v) => PR::Ok(r, ValV::List(v)), PR::Fail => PR::Fail, PR::Err =>
    match s_map(s) { PR::Ok(r, v) => PR::Ok(r, ValV::Object(seq![MvV::Unmerged(v)])), PR::Fail => PR::Fail, PR::Err => PR::Err }}}}}}
}
/// "[" (value ("," value)* ","?)? "]"
#[verifier::opaque]
pub open spec fn s_list(s: Seq<char>) -> PR<Seq<ValV>>
    decreases s.len(), 5nat
{
    if !starts(s, '[') { PR::Err } else {
        match s_list_items(after_ws(s.skip(1))) {
            PR::Ok(r, v) => {
                let r1 = after_ws(after_ws(r));
                let r2 = after_ws(if starts(r1, ',') { r1.skip(1) } else { r1 });
                if starts(r2, ']') { PR::Ok(r2.skip(1), v) } else { PR::Err }
            },
            x => x,
        }
    }
}
#[verifier::opaque]
pub open spec fn s_list_items(s: Seq<char>) -> PR<Seq<ValV>>
    decreases s.len(), 20nat
{
    match s_value(after_ws(s)) {
        PR::Err => PR::Ok(s, Seq::empty()),
        PR::Fail => PR::Fail,
        PR::Ok(r, v) => if r.len() < s.len() { s_list_more(r, seq![v]) } else { PR::Err },
    }
}
#[verifier::opaque]
pub open spec fn s_list_more(s: Seq<char>, acc: Seq<ValV>) -> PR<Seq<ValV>>
    decreases s.len(), 20nat
{
    let s1 = after_ws(s);
    if !starts(s1, ',') { PR::Ok(s, acc) } else {
        match s_value(after_ws(s1.skip(1))) {
            PR::Err => PR::Ok(s, acc),
            PR::Fail => PR::Fail,
            PR::Ok(r, v) => if r.len() < s1.len() - 1 { s_list_more(r, acc.push(v)) } else { PR::Ok(s, acc) },
        }
    }
}
/// "{" entries "}"
#[verifier::opaque]
pub open spec fn s_map(s: Seq<char>) -> PR<Seq<(KeyLitV, ValV)>>
    decreases s.len(), 5nat
{
    let s0 = after_ws(s);
    if !starts(s0, '{') { PR::Err } else {
        match s_entries(after_ws(after_ws(s0.skip(1)))) {
            PR::Ok(r, v) => if starts(after_ws(r), '}') { PR::Ok(after_ws(r).skip(1), v) } else { PR::Err },
            x => x,
        }
    }
}
/// entries, each ended by a comma, newlines or the end of the input
#[verifier::opaque]
pub open spec fn s_entries(s: Seq<char>) -> PR<Seq<(KeyLitV, ValV)>>
    decreases s.len(), 40nat
{
    match s_entry_items(s, Seq::empty()) { PR::Ok(r, v) => PR::Ok(after_ws(r), v), x => x }
}
#[verifier::opaque]
pub open spec fn s_entry_items(s: Seq<char>, acc: Seq<(KeyLitV, ValV)>) -> PR<Seq<(KeyLitV, ValV)>>
    decreases s.len(), 35nat
{
    match s_entry(after_ws(s)) {
        PR::Err => PR::Ok(s, acc),
        PR::Fail => PR::Fail,
        PR::Ok(r, v) => match s_entry_sep(r) {
            PR::Err => PR::Ok(s, acc),
            PR::Fail => PR::Fail,
            PR::Ok(r2, _) => if r2.len() < s.len() { s_entry_items(r2, acc.push(v)) } else { PR::Ok(s, acc) },
        },
    }
}
/// attribute, map or block
#[verifier::opaque]
pub open spec fn s_entry(s: Seq<char>) -> PR<(KeyLitV, ValV)>
    decreases s.len(), 30nat
{
    let b = after_iws(after_iws(after_iws(s)));
    match s_entry_value(b) { PR::Ok(r, v) => PR::Ok(after_iws(r), v), PR::Fail => PR::Fail, PR::Err =>
    match s_entry_map(b) { PR::Ok(r, v) => PR::Ok(after_iws(r), v), PR::Fail => PR::Fail, PR::Err =>
    match s_entry_block(b) { PR::Ok(r, v) => PR::Ok(after_iws(r), v), PR::Fail => PR::Fail, PR::Err => PR::Err }}}
}
/// key "=" value
#[verifier::opaque]
pub open spec fn s_entry_value(s: Seq<char>) -> PR<(KeyLitV, ValV)>
    decreases s.len(), 25nat
{
    match s_key(s) {
        PR::Err => PR::Err,
        PR::Fail => PR::Fail,
        PR::Ok(r, k) => if !starts(after_iws(r), '=') { PR::Err } else {
            match s_value(after_iws(after_iws(r).skip(1))) { PR::Ok(r2, v) => PR::Ok(r2, (k, v)), PR::Err => PR::Err, PR::Fail => PR::Fail }
        },
    }
}
/// identifier "="? map
#[verifier::opaque]
pub open spec fn s_entry_map(s: Seq<char>) -> PR<(KeyLitV, ValV)>
    decreases s.len(), 25nat
{
    match s_ident(s) {
        PR::Err => PR::Err,
        PR::Fail => PR::Fail,
        PR::Ok(r, k) => {
            let r1 = after_iws(r);
            let r2 = if starts(r1, '=') { r1.skip(1) } else { r1 };
            match s_map(after_iws(r2)) { PR::Ok(r3, v) => PR::Ok(r3, (KeyLitV::Ident(k), ValV::Object(seq![MvV::Unmerged(v)]))), PR::Err => PR::Err, PR::Fail => PR::Fail }
        },
    }
}
/// identifier string* map
#[verifier::opaque]
pub open spec fn s_entry_block(s: Seq<char>) -> PR<(KeyLitV, ValV)>
    decreases s.len(), 25nat
{
    match s_ident(s) {
        PR::Err => PR::Err,
        PR::Fail => PR::Fail,
        PR::Ok(r, k) => match s_lits(r) {
            PR::Err => PR::Err,
            PR::Fail => PR::Fail,
            PR::Ok(r2, l) => match s_map(after_iws(r2)) { PR::Ok(r3, v) => PR::Ok(r3, (KeyLitV::Ident(k), ValV::Block(BlV::Unmerged(seq![(l, MvV::Unmerged(v))])))), PR::Err => PR::Err, PR::Fail => PR::Fail },
        },
    }
}
pub broadcast proof fn suf_value(s: Seq<char>)
    ensures (#[trigger] s_value(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
    decreases s.len(), 10nat
{
    reveal(s_value); reveal(s_list); reveal(s_list_items); reveal(s_list_more); reveal(s_map); reveal(s_entries); reveal(s_entry_items); reveal(s_entry); reveal(s_entry_value); reveal(s_entry_map); reveal(s_entry_block);
    broadcast use group_suffix;
    broadcast use {suf_null, suf_vnum, suf_bool, suf_string}; suf_list(s); suf_map(s);
}
pub broadcast proof fn suf_list(s: Seq<char>)
    ensures (#[trigger] s_list(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
    decreases s.len(), 5nat
{
    reveal(s_value); reveal(s_list); reveal(s_list_items); reveal(s_list_more); reveal(s_map); reveal(s_entries); reveal(s_entry_items); reveal(s_entry); reveal(s_entry_value); reveal(s_entry_map); reveal(s_entry_block);
    broadcast use group_suffix;
    if starts(s, '[') { suf_list_items(after_ws(s.skip(1))); }
}
pub broadcast proof fn suf_list_items(s: Seq<char>)
    ensures (#[trigger] s_list_items(s)) matches PR::Ok(r, _) ==> is_suffix(r, s)
    decreases s.len(), 20nat
{
    reveal(s_value); reveal(s_list); reveal(s_list_items); reveal(s_list_more); reveal(s_map); reveal(s_entries); reveal(s_entry_items); reveal(s_entry); reveal(s_entry_value); reveal(s_entry_map); reveal(s_entry_block);
    broadcast use group_suffix;
    suf_value(after_ws(s)); match s_value(after_ws(s)) { PR::Ok(r, v) => if r.len() < s.len() { suf_list_more(r, seq![v]) }, _ => {} }
}
pub broadcast proof fn suf_list_more(s: Seq<char>, acc: Seq<ValV>)
    ensures (#[trigger] s_list_more(s, acc)) matches PR::Ok(r, _) ==> is_suffix(r, s)
    decreases s.len(), 20nat
{
    reveal(s_value); reveal(s_list); reveal(s_list_items); reveal(s_list_more); reveal(s_map); reveal(s_entries); reveal(s_entry_items); reveal(s_entry); reveal(s_entry_value); reveal(s_entry_map); reveal(s_entry_block);
    broadcast use group_suffix;
    let s1 = after_ws(s); if starts(s1, ',') { suf_value(after_ws(s1.skip(1))); match s_value(after_ws(s1.skip(1))) { PR::Ok(r, v) => if r.len() < s1.len() - 1 { suf_list_more(r, acc.push(v)) }, _ => {} } }
}
pub broadcast proof fn suf_map(s: Seq<char>)
    ensures (#[trigger] s_map(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
    decreases s.len(), 5nat
{
    reveal(s_value); reveal(s_list); reveal(s_list_items); reveal(s_list_more); reveal(s_map); reveal(s_entries); reveal(s_entry_items); reveal(s_entry); reveal(s_entry_value); reveal(s_entry_map); reveal(s_entry_block);
    broadcast use group_suffix;
    let s0 = after_ws(s); if starts(s0, '{') { suf_entries(after_ws(after_ws(s0.skip(1)))); }
}
pub broadcast proof fn suf_entries(s: Seq<char>)
    ensures (#[trigger] s_entries(s)) matches PR::Ok(r, _) ==> is_suffix(r, s)
    decreases s.len(), 40nat
{
    reveal(s_value); reveal(s_list); reveal(s_list_items); reveal(s_list_more); reveal(s_map); reveal(s_entries); reveal(s_entry_items); reveal(s_entry); reveal(s_entry_value); reveal(s_entry_map); reveal(s_entry_block);
    broadcast use group_suffix;
    suf_entry_items(s, Seq::empty());
}
pub broadcast proof fn suf_entry_items(s: Seq<char>, acc: Seq<(KeyLitV, ValV)>)
    ensures (#[trigger] s_entry_items(s, acc)) matches PR::Ok(r, _) ==> is_suffix(r, s)
    decreases s.len(), 35nat
{
    reveal(s_value); reveal(s_list); reveal(s_list_items); reveal(s_list_more); reveal(s_map); reveal(s_entries); reveal(s_entry_items); reveal(s_entry); reveal(s_entry_value); reveal(s_entry_map); reveal(s_entry_block);
    broadcast use group_suffix;
    suf_entry(after_ws(s)); match s_entry(after_ws(s)) { PR::Ok(r, v) => { suf_entry_sep(r); match s_entry_sep(r) { PR::Ok(r2, _) => if r2.len() < s.len() { suf_entry_items(r2, acc.push(v)) }, _ => {} } }, _ => {} }
}
pub broadcast proof fn suf_entry(s: Seq<char>)
    ensures (#[trigger] s_entry(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
    decreases s.len(), 30nat
{
    reveal(s_value); reveal(s_list); reveal(s_list_items); reveal(s_list_more); reveal(s_map); reveal(s_entries); reveal(s_entry_items); reveal(s_entry); reveal(s_entry_value); reveal(s_entry_map); reveal(s_entry_block);
    broadcast use group_suffix;
    let b = after_iws(after_iws(after_iws(s))); suf_entry_value(b); suf_entry_map(b); suf_entry_block(b);
}
pub broadcast proof fn suf_entry_value(s: Seq<char>)
    ensures (#[trigger] s_entry_value(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
    decreases s.len(), 25nat
{
    reveal(s_value); reveal(s_list); reveal(s_list_items); reveal(s_list_more); reveal(s_map); reveal(s_entries); reveal(s_entry_items); reveal(s_entry); reveal(s_entry_value); reveal(s_entry_map); reveal(s_entry_block);
    broadcast use group_suffix;
    broadcast use suf_key; match s_key(s) { PR::Ok(r, k) => if starts(after_iws(r), '=') { suf_value(after_iws(after_iws(r).skip(1))); }, _ => {} }
}
pub broadcast proof fn suf_entry_map(s: Seq<char>)
    ensures (#[trigger] s_entry_map(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
    decreases s.len(), 25nat
{
    reveal(s_value); reveal(s_list); reveal(s_list_items); reveal(s_list_more); reveal(s_map); reveal(s_entries); reveal(s_entry_items); reveal(s_entry); reveal(s_entry_value); reveal(s_entry_map); reveal(s_entry_block);
    broadcast use group_suffix;
    broadcast use suf_ident; match s_ident(s) { PR::Ok(r, k) => { let r1 = after_iws(r); let r2 = if starts(r1, '=') { r1.skip(1) } else { r1 }; suf_map(after_iws(r2)); }, _ => {} }
}
pub broadcast proof fn suf_entry_block(s: Seq<char>)
    ensures (#[trigger] s_entry_block(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
    decreases s.len(), 25nat
{
    reveal(s_value); reveal(s_list); reveal(s_list_items); reveal(s_list_more); reveal(s_map); reveal(s_entries); reveal(s_entry_items); reveal(s_entry); reveal(s_entry_value); reveal(s_entry_map); reveal(s_entry_block);
    broadcast use group_suffix;
    broadcast use {suf_ident, suf_lits}; match s_ident(s) { PR::Ok(r, k) => match s_lits(r) { PR::Ok(r2, l) => { suf_map(after_iws(r2)); }, _ => {} }, _ => {} }
}
/// one unfolding
pub broadcast proof fn x_value(s: Seq<char>)
    ensures (#[trigger] s_value(s)) == ({
    match s_null(s) { PR::Ok(r, _) => PR::Ok(r, ValV::Null), PR::Fail => PR::Fail, PR::Err =>
    match s_vnum(s) { PR::Ok(r, v) => PR::Ok(r, v), PR::Fail => PR::Fail, PR::Err =>
    match s_bool(s) { PR::Ok(r, v) => PR::Ok(r, ValV::Boolean(v)), PR::Fail => PR::Fail, PR::Err =>
    match s_string(s) { PR::Ok(r, v) => PR::Ok(r, ValV::Str(v)), PR::Fail => PR::Fail, PR::Err =>
    match s_list(s) { PR::Ok(r, v) => PR::Ok(r, ValV::List(v)), PR::Fail => PR::Fail, PR::Err =>
    match s_map(s) { PR::Ok(r, v) => PR::Ok(r, ValV::Object(seq![MvV::Unmerged(v)])), PR::Fail => PR::Fail, PR::Err => PR::Err }}}}}}
    })
{ reveal(s_value); reveal(s_list); reveal(s_list_items); reveal(s_list_more); reveal(s_map); reveal(s_entries); reveal(s_entry_items); reveal(s_entry); reveal(s_entry_value); reveal(s_entry_map); reveal(s_entry_block); }
/// one unfolding
pub broadcast proof fn x_list(s: Seq<char>)
    ensures (#[trigger] s_list(s)) == ({
    if !starts(s, '[') { PR::Err } else {
        match s_list_items(after_ws(s.skip(1))) {
            PR::Ok(r, v) => {
                let r1 = after_ws(after_ws(r));
                let r2 = after_ws(if starts(r1, ',') { r1.skip(1) } else { r1 });
                if starts(r2, ']') { PR::Ok(r2.skip(1), v) } else { PR::Err }
            },
            x => x,
        }
    }
    })
{ reveal(s_value); reveal(s_list); reveal(s_list_items); reveal(s_list_more); reveal(s_map); reveal(s_entries); reveal(s_entry_items); reveal(s_entry); reveal(s_entry_value); reveal(s_entry_map); reveal(s_entry_block); }
/// one unfolding
pub broadcast proof fn x_list_items(s: Seq<char>)
    ensures (#[trigger] s_list_items(s)) == ({
    match s_value(after_ws(s)) {
        PR::Err => PR::Ok(s, Seq::empty()),
        PR::Fail => PR::Fail,
        PR::Ok(r, v) => if r.len() < s.len() { s_list_more(r, seq![v]) } else { PR::Err },
    }
    })
{ reveal(s_value); reveal(s_list); reveal(s_list_items); reveal(s_list_more); reveal(s_map); reveal(s_entries); reveal(s_entry_items); reveal(s_entry); reveal(s_entry_value); reveal(s_entry_map); reveal(s_entry_block); }
/// one unfolding
pub broadcast proof fn x_list_more(s: Seq<char>, acc: Seq<ValV>)
    ensures (#[trigger] s_list_more(s, acc)) == ({
    let s1 = after_ws(s);
    if !starts(s1, ',') { PR::Ok(s, acc) } else {
        match s_value(after_ws(s1.skip(1))) {
            PR::Err => PR::Ok(s, acc),
            PR::Fail => PR::Fail,
            PR::Ok(r, v) => if r.len() < s1.len() - 1 { s_list_more(r, acc.push(v)) } else { PR::Ok(s, acc) },
        }
    }
    })
{ reveal(s_value); reveal(s_list); reveal(s_list_items); reveal(s_list_more); reveal(s_map); reveal(s_entries); reveal(s_entry_items); reveal(s_entry); reveal(s_entry_value); reveal(s_entry_map); reveal(s_entry_block); }
/// one unfolding
pub broadcast proof fn x_map(s: Seq<char>)
    ensures (#[trigger] s_map(s)) == ({
    let s0 = after_ws(s);
    if !starts(s0, '{') { PR::Err } else {
        match s_entries(after_ws(after_ws(s0.skip(1)))) {
            PR::Ok(r, v) => if starts(after_ws(r), '}') { PR::Ok(after_ws(r).skip(1), v) } else { PR::Err },
            x => x,
        }
    }
    })
{ reveal(s_value); reveal(s_list); reveal(s_list_items); reveal(s_list_more); reveal(s_map); reveal(s_entries); reveal(s_entry_items); reveal(s_entry); reveal(s_entry_value); reveal(s_entry_map); reveal(s_entry_block); }
/// one unfolding
pub broadcast proof fn x_entries(s: Seq<char>)
    ensures (#[trigger] s_entries(s)) == ({
    match s_entry_items(s, Seq::empty()) { PR::Ok(r, v) => PR::Ok(after_ws(r), v), x => x }
    })
{ reveal(s_value); reveal(s_list); reveal(s_list_items); reveal(s_list_more); reveal(s_map); reveal(s_entries); reveal(s_entry_items); reveal(s_entry); reveal(s_entry_value); reveal(s_entry_map); reveal(s_entry_block); }
/// one unfolding
pub broadcast proof fn x_entry_items(s: Seq<char>, acc: Seq<(KeyLitV, ValV)>)
    ensures (#[trigger] s_entry_items(s, acc)) == ({
    match s_entry(after_ws(s)) {
        PR::Err => PR::Ok(s, acc),
        PR::Fail => PR::Fail,
        PR::Ok(r, v) => match s_entry_sep(r) {
            PR::Err => PR::Ok(s, acc),
            PR::Fail => PR::Fail,
            PR::Ok(r2, _) => if r2.len() < s.len() { s_entry_items(r2, acc.push(v)) } else { PR::Ok(s, acc) },
        },
    }
    })
{ reveal(s_value); reveal(s_list); reveal(s_list_items); reveal(s_list_more); reveal(s_map); reveal(s_entries); reveal(s_entry_items); reveal(s_entry); reveal(s_entry_value); reveal(s_entry_map); reveal(s_entry_block); }
/// one unfolding
pub broadcast proof fn x_entry(s: Seq<char>)
    ensures (#[trigger] s_entry(s)) == ({
    let b = after_iws(after_iws(after_iws(s)));
    match s_entry_value(b) { PR::Ok(r, v) => PR::Ok(after_iws(r), v), PR::Fail => PR::Fail, PR::Err =>
    match s_entry_map(b) { PR::Ok(r, v) => PR::Ok(after_iws(r), v), PR::Fail => PR::Fail, PR::Err =>
    match s_entry_block(b) { PR::Ok(r, v) => PR::Ok(after_iws(r), v), PR::Fail => PR::Fail, PR::Err => PR::Err }}}
    })
{ reveal(s_value); reveal(s_list); reveal(s_list_items); reveal(s_list_more); reveal(s_map); reveal(s_entries); reveal(s_entry_items); reveal(s_entry); reveal(s_entry_value); reveal(s_entry_map); reveal(s_entry_block); }
/// one unfolding
pub broadcast proof fn x_entry_value(s: Seq<char>)
    ensures (#[trigger] s_entry_value(s)) == ({
    match s_key(s) {
        PR::Err => PR::Err,
        PR::Fail => PR::Fail,
        PR::Ok(r, k) => if !starts(after_iws(r), '=') { PR::Err } else {
            match s_value(after_iws(after_iws(r).skip(1))) { PR::Ok(r2, v) => PR::Ok(r2, (k, v)), PR::Err => PR::Err, PR::Fail => PR::Fail }
        },
    }
    })
{ reveal(s_value); reveal(s_list); reveal(s_list_items); reveal(s_list_more); reveal(s_map); reveal(s_entries); reveal(s_entry_items); reveal(s_entry); reveal(s_entry_value); reveal(s_entry_map); reveal(s_entry_block); }
/// one unfolding
pub broadcast proof fn x_entry_map(s: Seq<char>)
    ensures (#[trigger] s_entry_map(s)) == ({
    match s_ident(s) {
        PR::Err => PR::Err,
        PR::Fail => PR::Fail,
        PR::Ok(r, k) => {
            let r1 = after_iws(r);
            let r2 = if starts(r1, '=') { r1.skip(1) } else { r1 };
            match s_map(after_iws(r2)) { PR::Ok(r3, v) => PR::Ok(r3, (KeyLitV::Ident(k), ValV::Object(seq![MvV::Unmerged(v)]))), PR::Err => PR::Err, PR::Fail => PR::Fail }
        },
    }
    })
{ reveal(s_value); reveal(s_list); reveal(s_list_items); reveal(s_list_more); reveal(s_map); reveal(s_entries); reveal(s_entry_items); reveal(s_entry); reveal(s_entry_value); reveal(s_entry_map); reveal(s_entry_block); }
/// one unfolding
pub broadcast proof fn x_entry_block(s: Seq<char>)
    ensures (#[trigger] s_entry_block(s)) == ({
    match s_ident(s) {
        PR::Err => PR::Err,
        PR::Fail => PR::Fail,
        PR::Ok(r, k) => match s_lits(r) {
            PR::Err => PR::Err,
            PR::Fail => PR::Fail,
            PR::Ok(r2, l) => match s_map(after_iws(r2)) { PR::Ok(r3, v) => PR::Ok(r3, (KeyLitV::Ident(k), ValV::Block(BlV::Unmerged(seq![(l, MvV::Unmerged(v))])))), PR::Err => PR::Err, PR::Fail => PR::Fail },
        },
    }
    })
{ reveal(s_value); reveal(s_list); reveal(s_list_items); reveal(s_list_more); reveal(s_map); reveal(s_entries); reveal(s_entry_items); reveal(s_entry); reveal(s_entry_value); reveal(s_entry_map); reveal(s_entry_block); }
} // valdoc
pub use valdoc::*;
/// a value after whitespace is shorter, in characters and in bytes
pub broadcast proof fn lt_value(s: Seq<char>)
    ensures (#[trigger] s_value(after_ws(s))) matches PR::Ok(r, _) ==> r.len() < s.len() && blen(r) < blen(s)
{ broadcast use {group_suffix, after_ws_le}; suf_value(after_ws(s)); }
/// the pairs of an unmerged map
pub open spec fn ventries<'a>() -> spec_fn(KeyValuePairs<Key<'a>, Value<'a>>) -> MvV { |m: KeyValuePairs<Key<'a>, Value<'a>>| mview(m) }
pub open spec fn pr_map(p: PR<Seq<(KeyLitV, ValV)>>) -> PR<MvV> { match p { PR::Ok(r, v) => PR::Ok(r, MvV::Unmerged(v)), PR::Err => PR::Err, PR::Fail => PR::Fail } }
pub open spec fn vlitnum() -> spec_fn(LitNumber) -> ValV { |n: LitNumber| match n { LitNumber::Integer(i) => ValV::Integer(i), LitNumber::Float(f) => ValV::Float(f) } }
/// nom's recognize_float: the text of a number
pub assume_specification<T>[nom::recognize_float](input: T) -> (r: nom::IResult<T, T, u32>)
    where T: nom::Slice<Range<usize>> + nom::Slice<RangeFrom<usize>> + nom::Slice<RangeTo<usize>> + Clone + nom::Offset + nom::InputIter + nom::AtEof + nom::InputTakeAtPosition,
        <T as nom::InputIter>::Item: nom::AsChar, <T as nom::InputTakeAtPosition>::Item: nom::AsChar
    ensures complete::<T>() ==> match r {
        Ok((rest, v)) => s_number(inp(input)) matches PR::Ok(q, n) && q == inp(rest) && inp(v) == inp(input).take(inp(input).len() - q.len()) && inp_end(rest) == inp_end(input),
        Err(nom::Err::Error(_)) => s_number(inp(input)) == PR::<NumV>::Err,
        _ => false,
    };
/// ParseTo for a piece of text: str::parse
pub fn parse_to_number<'b, 'a>(s: &'b CompleteStr<'a>) -> (r: Option<LitNumber>)
    ensures (match r { Some(n) => Some(vlitnum()(n)), None => None }) == num_val(s.0@)
{ match <LitNumber as std::str::FromStr>::from_str(s.0) { Ok(n) => Some(n), Err(_) => None } }
}
