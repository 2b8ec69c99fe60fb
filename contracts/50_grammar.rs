// Expressions, collections and documents (tuple.rs, object.rs, expression.rs, attribute.rs, block.rs, body.rs)
use crate::parser::expression::Expression;
use crate::parser::object::ObjectElementIdentifier;
use crate::parser::block::{Block, BlockLabel};
verus! {
/// what is left after the whitespace and comments at the start
#[verifier::opaque]
pub open spec fn after_ws(s: Seq<char>) -> Seq<char> { match s_ws(s) { PR::Ok(r, _) => r, _ => s } }
/// what is left after the blanks and inline comments at the start
#[verifier::opaque]
pub open spec fn after_iws(s: Seq<char>) -> Seq<char> { match s_iws(s) { PR::Ok(r, _) => r, _ => s } }
pub broadcast proof fn after_ws_le(s: Seq<char>)
    ensures (#[trigger] after_ws(s)).len() <= s.len(), is_suffix(after_ws(s), s)
{ reveal(after_ws); suf_ws(s); }
pub broadcast proof fn after_iws_le(s: Seq<char>)
    ensures (#[trigger] after_iws(s)).len() <= s.len(), is_suffix(after_iws(s), s)
{ reveal(after_iws); suf_iws(s); }
pub broadcast proof fn ws_after(s: Seq<char>)
    ensures (#[trigger] s_ws(s)) matches PR::Ok(r, _) && r == after_ws(s)
{ reveal(after_ws); suf_ws(s); }
pub broadcast proof fn iws_after(s: Seq<char>)
    ensures (#[trigger] s_iws(s)) matches PR::Ok(r, _) && r == after_iws(s)
{ reveal(after_iws); suf_iws(s); }
pub broadcast proof fn suf_ident(s: Seq<char>)
    ensures (#[trigger] s_ident(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
{ broadcast use {group_suffix, group_peg}; }
pub broadcast proof fn suf_bool(s: Seq<char>)
    ensures (#[trigger] s_bool(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
{ broadcast use {group_suffix}; reveal_strlit("true"); reveal_strlit("false"); }
pub broadcast proof fn suf_null(s: Seq<char>)
    ensures (#[trigger] s_null(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
{ broadcast use {group_suffix}; reveal_strlit("null"); }
pub broadcast proof fn suf_string_literal(s: Seq<char>)
    ensures (#[trigger] s_string_literal(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
{ broadcast use {suf_quoted}; }

pub enum LabelV { Ident(Seq<char>), Lit(Seq<char>) }
pub open spec fn s_label(s: Seq<char>) -> PR<LabelV> {
    match s_ident(s) {
        PR::Ok(r, v) => PR::Ok(r, LabelV::Ident(v)),
        PR::Fail => PR::Fail,
        PR::Err => match s_string_literal(s) { PR::Ok(r, v) => PR::Ok(r, LabelV::Lit(v)), PR::Fail => PR::Fail, PR::Err => PR::Err },
    }
}
/// a label with the blanks around it
pub open spec fn s_label_item(s: Seq<char>) -> PR<LabelV> {
    match s_label(after_iws(s)) { PR::Ok(r, v) => PR::Ok(after_iws(r), v), x => x }
}
pub open spec fn p_label_item() -> spec_fn(Seq<char>) -> PR<LabelV> { |s: Seq<char>| s_label_item(s) }
#[verifier::opaque]
pub open spec fn s_labels(s: Seq<char>) -> PR<Seq<LabelV>> { s_many0(p_label_item(), s, Seq::empty()) }
pub broadcast proof fn suf_label(s: Seq<char>)
    ensures (#[trigger] s_label(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
{ broadcast use {suf_ident, suf_string_literal}; }
pub broadcast proof fn suf_label_item(s: Seq<char>)
    ensures (#[trigger] s_label_item(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
{ broadcast use {suf_label, after_iws_le, group_suffix}; }
pub broadcast proof fn suf_labels(s: Seq<char>)
    ensures (#[trigger] s_labels(s)) matches PR::Ok(r, _) ==> is_suffix(r, s)
{ reveal(s_labels); broadcast use suf_label_item; assert(suffixy(p_label_item())); many0_suffix(p_label_item(), s, Seq::empty()); }

pub mod gram {
use super::*;
broadcast use {super::after_ws_le, super::after_iws_le, super::suf_ident, super::suf_labels, super::suf_newline};

pub enum IdV { Ident(Seq<char>), Expr(Seq<char>) }
/// the meaning of an expression
pub enum ExprV { Null, Num(NumV), Bool(bool), Str(Seq<char>), Tuple(Seq<ExprV>), Object(Seq<(IdV, ExprV)>) }

/// LiteralValue | TemplateExpr | CollectionValue | "(" Expression ")"
#[verifier::opaque]
pub open spec fn s_expression(s: Seq<char>) -> PR<ExprV>
    decreases s.len(), 10nat
{
    match s_null(s) { PR::Ok(r, _) => PR::Ok(r, ExprV::Null), PR::Fail => PR::Fail, PR::Err =>
    match s_number(s) { PR::Ok(r, v) => PR::Ok(r, ExprV::Num(v)), PR::Fail => PR::Fail, PR::Err =>
    match s_bool(s) { PR::Ok(r, v) => PR::Ok(r, ExprV::Bool(v)), PR::Fail => PR::Fail, PR::Err =>
    match s_string(s) { PR::Ok(r, v) => PR::Ok(r, ExprV::Str(v)), PR::Fail => PR::Fail, PR::Err =>
    match s_tuple(s) { PR::Ok(r, v) => PR::Ok(r, ExprV::Tuple(v)), PR::Fail => PR::Fail, PR::Err =>
    match s_object(s) { PR::Ok(r, v) => PR::Ok(r, ExprV::Object(v)), PR::Fail => PR::Fail, PR::Err =>
    s_bracket(s) }}}}}}
}
/// "(" Expression ")"
#[verifier::opaque]
pub open spec fn s_bracket(s: Seq<char>) -> PR<ExprV>
    decreases s.len(), 5nat
{
    let s0 = after_ws(s);
    if !starts(s0, '(') { PR::Err } else {
        match s_expression(after_ws(after_ws(s0.skip(1)))) {
            PR::Ok(r, v) => if starts(after_ws(r), ')') { PR::Ok(after_ws(r).skip(1), v) } else { PR::Err },
            x => x,
        }
    }
}
/// "[" (Expression ("," Expression)* ","?)? "]"
#[verifier::opaque]
pub open spec fn s_tuple(s: Seq<char>) -> PR<Seq<ExprV>>
    decreases s.len(), 5nat
{
    if !starts(s, '[') { PR::Err } else {
        match s_tuple_items(after_ws(s.skip(1))) {
            PR::Ok(r, v) => {
                let r1 = after_ws(after_ws(r));
                let r2 = after_ws(if starts(r1, ',') { r1.skip(1) } else { r1 });
                if starts(r2, ']') { PR::Ok(r2.skip(1), v) } else { PR::Err }
            },
            x => x,
        }
    }
}
#[verifier::opaque]
pub open spec fn s_tuple_items(s: Seq<char>) -> PR<Seq<ExprV>>
    decreases s.len(), 20nat
{
    match s_expression(after_ws(s)) {
        PR::Err => PR::Ok(s, Seq::empty()),
        PR::Fail => PR::Fail,
        PR::Ok(r, v) => if r.len() < s.len() { s_tuple_more(r, seq![v]) } else { PR::Err },
    }
}
#[verifier::opaque]
pub open spec fn s_tuple_more(s: Seq<char>, acc: Seq<ExprV>) -> PR<Seq<ExprV>>
    decreases s.len(), 20nat
{
    let s1 = after_ws(s);
    if !starts(s1, ',') { PR::Ok(s, acc) } else {
        match s_expression(after_ws(s1.skip(1))) {
            PR::Err => PR::Ok(s, acc),
            PR::Fail => PR::Fail,
            PR::Ok(r, v) => if r.len() < s1.len() - 1 { s_tuple_more(r, acc.push(v)) } else { PR::Ok(s, acc) },
        }
    }
}
/// "{" (ObjectElement (separator ObjectElement)* separator?)? "}"
#[verifier::opaque]
pub open spec fn s_object(s: Seq<char>) -> PR<Seq<(IdV, ExprV)>>
    decreases s.len(), 5nat
{
    let s0 = after_ws(s);
    if !starts(s0, '{') { PR::Err } else {
        match s_object_body(after_ws(after_ws(s0.skip(1)))) {
            PR::Ok(r, v) => if starts(after_ws(r), '}') { PR::Ok(after_ws(r).skip(1), v) } else { PR::Err },
            x => x,
        }
    }
}
#[verifier::opaque]
pub open spec fn s_object_body(s: Seq<char>) -> PR<Seq<(IdV, ExprV)>>
    decreases s.len(), 30nat
{
    match s_object_items(s, Seq::empty()) { PR::Ok(r, v) => PR::Ok(after_ws(r), v), x => x }
}
/// a comma, newlines, or the end of the object (not consumed)
pub open spec fn s_object_sep(s: Seq<char>) -> PR<()> {
    if starts(s, ',') { PR::Ok(s.skip(1), ()) } else {
        match s_newline(s) { PR::Ok(r, _) => PR::Ok(r, ()), PR::Fail => PR::Fail, PR::Err => if starts(s, '}') { PR::Ok(s, ()) } else { PR::Err } }
    }
}
#[verifier::opaque]
pub open spec fn s_object_items(s: Seq<char>, acc: Seq<(IdV, ExprV)>) -> PR<Seq<(IdV, ExprV)>>
    decreases s.len(), 25nat
{
    match s_object_element(after_ws(s)) {
        PR::Err => PR::Ok(s, acc),
        PR::Fail => PR::Fail,
        PR::Ok(r, v) => match s_object_sep(r) {
            PR::Err => PR::Ok(s, acc),
            PR::Fail => PR::Fail,
            PR::Ok(r2, _) => if r2.len() < s.len() { s_object_items(r2, acc.push(v)) } else { PR::Ok(s, acc) },
        },
    }
}
/// (Identifier | Expression) "=" Expression
#[verifier::opaque]
pub open spec fn s_object_element(s: Seq<char>) -> PR<(IdV, ExprV)>
    decreases s.len(), 20nat
{
    match s_object_id(after_iws(after_iws(s))) {
        PR::Err => PR::Err,
        PR::Fail => PR::Fail,
        PR::Ok(r, id) => if r.len() > s.len() || !starts(after_iws(r), '=') { PR::Err } else {
            match s_expression(after_iws(after_iws(r).skip(1))) {
                PR::Err => PR::Err,
                PR::Fail => PR::Fail,
                PR::Ok(r2, v) => PR::Ok(after_iws(r2), (id, v)),
            }
        },
    }
}
#[verifier::opaque]
pub open spec fn s_object_id(s: Seq<char>) -> PR<IdV>
    decreases s.len(), 15nat
{
    match s_ident(s) {
        PR::Ok(r, v) => PR::Ok(r, IdV::Ident(v)),
        PR::Fail => PR::Fail,
        PR::Err => match s_expression(s) {
            PR::Ok(r, _) => PR::Ok(r, IdV::Expr(s.take(s.len() - r.len()))),
            PR::Fail => PR::Fail,
            PR::Err => PR::Err,
        },
    }
}
pub broadcast proof fn suf_expression(s: Seq<char>)
    ensures (#[trigger] s_expression(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
    decreases s.len(), 10nat
{
    reveal(s_expression); reveal(s_bracket); reveal(s_tuple); reveal(s_tuple_items); reveal(s_tuple_more); reveal(s_object); reveal(s_object_body); reveal(s_object_items); reveal(s_object_element); reveal(s_object_id);
    broadcast use {suf_null, suf_number, suf_bool, suf_string};
    suf_tuple(s); suf_object(s); suf_bracket(s);
}
pub proof fn suf_bracket(s: Seq<char>)
    ensures s_bracket(s) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
    decreases s.len(), 5nat
{
    reveal(s_expression); reveal(s_bracket); reveal(s_tuple); reveal(s_tuple_items); reveal(s_tuple_more); reveal(s_object); reveal(s_object_body); reveal(s_object_items); reveal(s_object_element); reveal(s_object_id);
    broadcast use group_suffix;
    let s0 = after_ws(s);
    if starts(s0, '(') { suf_expression(after_ws(after_ws(s0.skip(1)))); }
}
pub proof fn suf_tuple(s: Seq<char>)
    ensures s_tuple(s) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
    decreases s.len(), 5nat
{
    reveal(s_expression); reveal(s_bracket); reveal(s_tuple); reveal(s_tuple_items); reveal(s_tuple_more); reveal(s_object); reveal(s_object_body); reveal(s_object_items); reveal(s_object_element); reveal(s_object_id);
    broadcast use group_suffix;
    if starts(s, '[') { suf_tuple_items(after_ws(s.skip(1))); }
}
pub proof fn suf_tuple_items(s: Seq<char>)
    ensures s_tuple_items(s) matches PR::Ok(r, _) ==> is_suffix(r, s)
    decreases s.len(), 20nat
{
    reveal(s_expression); reveal(s_bracket); reveal(s_tuple); reveal(s_tuple_items); reveal(s_tuple_more); reveal(s_object); reveal(s_object_body); reveal(s_object_items); reveal(s_object_element); reveal(s_object_id);
    broadcast use group_suffix;
    suf_expression(after_ws(s));
    match s_expression(after_ws(s)) { PR::Ok(r, v) => if r.len() < s.len() { suf_tuple_more(r, seq![v]) }, _ => {} }
}
pub proof fn suf_tuple_more(s: Seq<char>, acc: Seq<ExprV>)
    ensures s_tuple_more(s, acc) matches PR::Ok(r, _) ==> is_suffix(r, s)
    decreases s.len(), 20nat
{
    reveal(s_expression); reveal(s_bracket); reveal(s_tuple); reveal(s_tuple_items); reveal(s_tuple_more); reveal(s_object); reveal(s_object_body); reveal(s_object_items); reveal(s_object_element); reveal(s_object_id);
    broadcast use group_suffix;
    let s1 = after_ws(s);
    if starts(s1, ',') {
        suf_expression(after_ws(s1.skip(1)));
        match s_expression(after_ws(s1.skip(1))) { PR::Ok(r, v) => if r.len() < s1.len() - 1 { suf_tuple_more(r, acc.push(v)) }, _ => {} }
    }
}
pub proof fn suf_object(s: Seq<char>)
    ensures s_object(s) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
    decreases s.len(), 5nat
{
    reveal(s_expression); reveal(s_bracket); reveal(s_tuple); reveal(s_tuple_items); reveal(s_tuple_more); reveal(s_object); reveal(s_object_body); reveal(s_object_items); reveal(s_object_element); reveal(s_object_id);
    broadcast use group_suffix;
    let s0 = after_ws(s);
    if starts(s0, '{') { suf_object_body(after_ws(after_ws(s0.skip(1)))); }
}
pub proof fn suf_object_body(s: Seq<char>)
    ensures s_object_body(s) matches PR::Ok(r, _) ==> is_suffix(r, s)
    decreases s.len(), 30nat
{
    reveal(s_expression); reveal(s_bracket); reveal(s_tuple); reveal(s_tuple_items); reveal(s_tuple_more); reveal(s_object); reveal(s_object_body); reveal(s_object_items); reveal(s_object_element); reveal(s_object_id);
    broadcast use group_suffix;
    suf_object_items(s, Seq::empty());
}
pub broadcast proof fn suf_object_sep(s: Seq<char>)
    ensures (#[trigger] s_object_sep(s)) matches PR::Ok(r, _) ==> is_suffix(r, s)
{ broadcast use {group_suffix, suf_newline}; }
pub proof fn suf_object_items(s: Seq<char>, acc: Seq<(IdV, ExprV)>)
    ensures s_object_items(s, acc) matches PR::Ok(r, _) ==> is_suffix(r, s)
    decreases s.len(), 25nat
{
    reveal(s_expression); reveal(s_bracket); reveal(s_tuple); reveal(s_tuple_items); reveal(s_tuple_more); reveal(s_object); reveal(s_object_body); reveal(s_object_items); reveal(s_object_element); reveal(s_object_id);
    broadcast use group_suffix;
    suf_object_element(after_ws(s));
    match s_object_element(after_ws(s)) {
        PR::Ok(r, v) => {
            suf_object_sep(r);
            match s_object_sep(r) { PR::Ok(r2, _) => if r2.len() < s.len() { suf_object_items(r2, acc.push(v)) }, _ => {} }
        },
        _ => {},
    }
}
pub broadcast proof fn suf_object_element(s: Seq<char>)
    ensures (#[trigger] s_object_element(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
    decreases s.len(), 20nat
{
    reveal(s_expression); reveal(s_bracket); reveal(s_tuple); reveal(s_tuple_items); reveal(s_tuple_more); reveal(s_object); reveal(s_object_body); reveal(s_object_items); reveal(s_object_element); reveal(s_object_id);
    broadcast use group_suffix;
    suf_object_id(after_iws(after_iws(s)));
    match s_object_id(after_iws(after_iws(s))) {
        PR::Ok(r, id) => if starts(after_iws(r), '=') { suf_expression(after_iws(after_iws(r).skip(1))); },
        _ => {},
    }
}
pub broadcast proof fn suf_object_id(s: Seq<char>)
    ensures (#[trigger] s_object_id(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
    decreases s.len(), 15nat
{
    reveal(s_expression); reveal(s_bracket); reveal(s_tuple); reveal(s_tuple_items); reveal(s_tuple_more); reveal(s_object); reveal(s_object_body); reveal(s_object_items); reveal(s_object_element); reveal(s_object_id);
    suf_expression(s);
}

/// one unfolding
pub broadcast proof fn x_expression(s: Seq<char>)
    ensures (#[trigger] s_expression(s)) == ({
    match s_null(s) { PR::Ok(r, _) => PR::Ok(r, ExprV::Null), PR::Fail => PR::Fail, PR::Err =>
    match s_number(s) { PR::Ok(r, v) => PR::Ok(r, ExprV::Num(v)), PR::Fail => PR::Fail, PR::Err =>
    match s_bool(s) { PR::Ok(r, v) => PR::Ok(r, ExprV::Bool(v)), PR::Fail => PR::Fail, PR::Err =>
    match s_string(s) { PR::Ok(r, v) => PR::Ok(r, ExprV::Str(v)), PR::Fail => PR::Fail, PR::Err =>
    match s_tuple(s) { PR::Ok(r, v) => PR::Ok(r, ExprV::Tuple(v)), PR::Fail => PR::Fail, PR::Err =>
    match s_object(s) { PR::Ok(r, v) => PR::Ok(r, ExprV::Object(v)), PR::Fail => PR::Fail, PR::Err =>
    s_bracket(s) }}}}}}
    })
{ reveal(s_expression); reveal(s_bracket); reveal(s_tuple); reveal(s_tuple_items); reveal(s_tuple_more); reveal(s_object); reveal(s_object_body); reveal(s_object_items); reveal(s_object_element); reveal(s_object_id); }
/// one unfolding
pub broadcast proof fn x_bracket(s: Seq<char>)
    ensures (#[trigger] s_bracket(s)) == ({
    let s0 = after_ws(s);
    if !starts(s0, '(') { PR::Err } else {
        match s_expression(after_ws(after_ws(s0.skip(1)))) {
            PR::Ok(r, v) => if starts(after_ws(r), ')') { PR::Ok(after_ws(r).skip(1), v) } else { PR::Err },
            x => x,
        }
    }
    })
{ reveal(s_expression); reveal(s_bracket); reveal(s_tuple); reveal(s_tuple_items); reveal(s_tuple_more); reveal(s_object); reveal(s_object_body); reveal(s_object_items); reveal(s_object_element); reveal(s_object_id); }
/// one unfolding
pub broadcast proof fn x_tuple(s: Seq<char>)
    ensures (#[trigger] s_tuple(s)) == ({
    if !starts(s, '[') { PR::Err } else {
        match s_tuple_items(after_ws(s.skip(1))) {
            PR::Ok(r, v) => {
                let r1 = after_ws(after_ws(r));
                let r2 = after_ws(if starts(r1, ',') { r1.skip(1) } else { r1 });
                if starts(r2, ']') { PR::Ok(r2.skip(1), v) } else { PR::Err }
            },
            x => x,
        }
    }
    })
{ reveal(s_expression); reveal(s_bracket); reveal(s_tuple); reveal(s_tuple_items); reveal(s_tuple_more); reveal(s_object); reveal(s_object_body); reveal(s_object_items); reveal(s_object_element); reveal(s_object_id); }
/// one unfolding
pub broadcast proof fn x_tuple_items(s: Seq<char>)
    ensures (#[trigger] s_tuple_items(s)) == ({
    match s_expression(after_ws(s)) {
        PR::Err => PR::Ok(s, Seq::empty()),
        PR::Fail => PR::Fail,
        PR::Ok(r, v) => if r.len() < s.len() { s_tuple_more(r, seq![v]) } else { PR::Err },
    }
    })
{ reveal(s_expression); reveal(s_bracket); reveal(s_tuple); reveal(s_tuple_items); reveal(s_tuple_more); reveal(s_object); reveal(s_object_body); reveal(s_object_items); reveal(s_object_element); reveal(s_object_id); }
/// one unfolding
pub broadcast proof fn x_tuple_more(s: Seq<char>, acc: Seq<ExprV>)
    ensures (#[trigger] s_tuple_more(s, acc)) == ({
    let s1 = after_ws(s);
    if !starts(s1, ',') { PR::Ok(s, acc) } else {
        match s_expression(after_ws(s1.skip(1))) {
            PR::Err => PR::Ok(s, acc),
            PR::Fail => PR::Fail,
            PR::Ok(r, v) => if r.len() < s1.len() - 1 { s_tuple_more(r, acc.push(v)) } else { PR::Ok(s, acc) },
        }
    }
    })
{ reveal(s_expression); reveal(s_bracket); reveal(s_tuple); reveal(s_tuple_items); reveal(s_tuple_more); reveal(s_object); reveal(s_object_body); reveal(s_object_items); reveal(s_object_element); reveal(s_object_id); }
/// one unfolding
pub broadcast proof fn x_object(s: Seq<char>)
    ensures (#[trigger] s_object(s)) == ({
    let s0 = after_ws(s);
    if !starts(s0, '{') { PR::Err } else {
        match s_object_body(after_ws(after_ws(s0.skip(1)))) {
            PR::Ok(r, v) => if starts(after_ws(r), '}') { PR::Ok(after_ws(r).skip(1), v) } else { PR::Err },
            x => x,
        }
    }
    })
{ reveal(s_expression); reveal(s_bracket); reveal(s_tuple); reveal(s_tuple_items); reveal(s_tuple_more); reveal(s_object); reveal(s_object_body); reveal(s_object_items); reveal(s_object_element); reveal(s_object_id); }
/// one unfolding
pub broadcast proof fn x_object_body(s: Seq<char>)
    ensures (#[trigger] s_object_body(s)) == ({
    match s_object_items(s, Seq::empty()) { PR::Ok(r, v) => PR::Ok(after_ws(r), v), x => x }
    })
{ reveal(s_expression); reveal(s_bracket); reveal(s_tuple); reveal(s_tuple_items); reveal(s_tuple_more); reveal(s_object); reveal(s_object_body); reveal(s_object_items); reveal(s_object_element); reveal(s_object_id); }
/// one unfolding
pub broadcast proof fn x_object_items(s: Seq<char>, acc: Seq<(IdV, ExprV)>)
    ensures (#[trigger] s_object_items(s, acc)) == ({
    match s_object_element(after_ws(s)) {
        PR::Err => PR::Ok(s, acc),
        PR::Fail => PR::Fail,
        PR::Ok(r, v) => match s_object_sep(r) {
            PR::Err => PR::Ok(s, acc),
            PR::Fail => PR::Fail,
            PR::Ok(r2, _) => if r2.len() < s.len() { s_object_items(r2, acc.push(v)) } else { PR::Ok(s, acc) },
        },
    }
    })
{ reveal(s_expression); reveal(s_bracket); reveal(s_tuple); reveal(s_tuple_items); reveal(s_tuple_more); reveal(s_object); reveal(s_object_body); reveal(s_object_items); reveal(s_object_element); reveal(s_object_id); }
/// one unfolding
pub broadcast proof fn x_object_element(s: Seq<char>)
    ensures (#[trigger] s_object_element(s)) == ({
    match s_object_id(after_iws(after_iws(s))) {
        PR::Err => PR::Err,
        PR::Fail => PR::Fail,
        PR::Ok(r, id) => if r.len() > s.len() || !starts(after_iws(r), '=') { PR::Err } else {
            match s_expression(after_iws(after_iws(r).skip(1))) {
                PR::Err => PR::Err,
                PR::Fail => PR::Fail,
                PR::Ok(r2, v) => PR::Ok(after_iws(r2), (id, v)),
            }
        },
    }
    })
{ reveal(s_expression); reveal(s_bracket); reveal(s_tuple); reveal(s_tuple_items); reveal(s_tuple_more); reveal(s_object); reveal(s_object_body); reveal(s_object_items); reveal(s_object_element); reveal(s_object_id); }
/// one unfolding
pub broadcast proof fn x_object_id(s: Seq<char>)
    ensures (#[trigger] s_object_id(s)) == ({
    match s_ident(s) {
        PR::Ok(r, v) => PR::Ok(r, IdV::Ident(v)),
        PR::Fail => PR::Fail,
        PR::Err => match s_expression(s) {
            PR::Ok(r, _) => PR::Ok(r, IdV::Expr(s.take(s.len() - r.len()))),
            PR::Fail => PR::Fail,
            PR::Err => PR::Err,
        },
    }
    })
{ reveal(s_expression); reveal(s_bracket); reveal(s_tuple); reveal(s_tuple_items); reveal(s_tuple_more); reveal(s_object); reveal(s_object_body); reveal(s_object_items); reveal(s_object_element); reveal(s_object_id); }
// ----- documents ---------------------------------------------------------------------------
pub enum BodyElemV { Attr(Seq<char>, ExprV), Block(Seq<char>, Seq<LabelV>, Seq<BodyElemV>) }

/// Identifier "=" Expression
#[verifier::opaque]
pub open spec fn s_attribute(s: Seq<char>) -> PR<(Seq<char>, ExprV)> {
    match s_ident(after_iws(after_iws(s))) {
        PR::Err => PR::Err,
        PR::Fail => PR::Fail,
        PR::Ok(r, id) => if !starts(after_iws(r), '=') { PR::Err } else {
            match s_expression(after_iws(after_iws(r).skip(1))) {
                PR::Err => PR::Err,
                PR::Fail => PR::Fail,
                PR::Ok(r2, v) => PR::Ok(after_iws(r2), (id, v)),
            }
        },
    }
}
pub broadcast proof fn suf_attribute(s: Seq<char>)
    ensures (#[trigger] s_attribute(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
{ reveal(s_attribute); broadcast use {group_suffix, suf_expression}; }
pub open spec fn opt_attr(s: Seq<char>) -> PR<Option<(Seq<char>, ExprV)>> {
    match s_attribute(s) { PR::Ok(r, v) => PR::Ok(r, Some(v)), PR::Err => PR::Ok(s, None), PR::Fail => PR::Fail }
}
/// Identifier (StringLit|Identifier)*
#[verifier::opaque]
pub open spec fn s_block_head(s: Seq<char>) -> PR<(Seq<char>, Seq<LabelV>)> {
    match s_ident(after_iws(after_iws(s))) {
        PR::Err => PR::Err,
        PR::Fail => PR::Fail,
        PR::Ok(r, id) => match s_labels(after_iws(r)) {
            PR::Err => PR::Err,
            PR::Fail => PR::Fail,
            PR::Ok(r2, ls) => if starts(after_iws(r2), '{') { PR::Ok(after_iws(r2).skip(1), (id, ls)) } else { PR::Err },
        },
    }
}
pub broadcast proof fn suf_block_head(s: Seq<char>)
    ensures (#[trigger] s_block_head(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
{ reveal(s_block_head); broadcast use {group_suffix}; }
/// Identifier (StringLit|Identifier)* "{" (Identifier "=" Expression)? "}"
#[verifier::opaque]
pub open spec fn s_one_line(s: Seq<char>) -> PR<BodyElemV> {
    match s_block_head(s) {
        PR::Err => PR::Err,
        PR::Fail => PR::Fail,
        PR::Ok(r, h) => match opt_attr(after_iws(r)) {
            PR::Err => PR::Err,
            PR::Fail => PR::Fail,
            PR::Ok(r2, a) => if starts(after_iws(r2), '}') {
                PR::Ok(after_iws(after_iws(r2).skip(1)), BodyElemV::Block(h.0, h.1, match a { Some(x) => seq![BodyElemV::Attr(x.0, x.1)], None => Seq::empty() }))
            } else { PR::Err },
        },
    }
}
pub broadcast proof fn suf_one_line(s: Seq<char>)
    ensures (#[trigger] s_one_line(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
{ reveal(s_one_line); broadcast use {group_suffix, suf_block_head, suf_attribute}; }
pub mod doc {
use super::*;
broadcast use {super::super::after_ws_le, super::super::after_iws_le, super::super::suf_newline, super::suf_block_head, super::suf_one_line, super::suf_attribute};
/// Identifier (StringLit|Identifier)* "{" Newline Body "}"
#[verifier::opaque]
pub open spec fn s_block(s: Seq<char>) -> PR<BodyElemV>
    decreases s.len(), 10nat
{
    match s_block_head(s) {
        PR::Err => PR::Err,
        PR::Fail => PR::Fail,
        PR::Ok(r, h) => match s_newline(after_iws(r)) {
            PR::Err => PR::Err,
            PR::Fail => PR::Fail,
            PR::Ok(r2, _) => match s_body(after_iws(r2)) {
                PR::Err => PR::Err,
                PR::Fail => PR::Fail,
                PR::Ok(r3, b) => if starts(after_iws(r3), '}') { PR::Ok(after_iws(after_iws(r3).skip(1)), BodyElemV::Block(h.0, h.1, b)) } else { PR::Err },
            },
        },
    }
}
/// Attribute | OneLineBlock | Block
#[verifier::opaque]
pub open spec fn s_body_element(s: Seq<char>) -> PR<BodyElemV>
    decreases s.len(), 20nat
{
    match s_attribute(s) { PR::Ok(r, v) => PR::Ok(r, BodyElemV::Attr(v.0, v.1)), PR::Fail => PR::Fail, PR::Err =>
    match s_one_line(s) { PR::Ok(r, v) => PR::Ok(r, v), PR::Fail => PR::Fail, PR::Err => s_block(s) }}
}
/// newlines, or the end of the input
pub open spec fn s_body_sep(s: Seq<char>) -> PR<()> {
    match s_newline(s) { PR::Ok(r, _) => PR::Ok(r, ()), PR::Fail => PR::Fail, PR::Err => if s.len() == 0 { PR::Ok(s, ()) } else { PR::Err } }
}
#[verifier::opaque]
pub open spec fn s_body_items(s: Seq<char>, acc: Seq<BodyElemV>) -> PR<Seq<BodyElemV>>
    decreases s.len(), 30nat
{
    match s_body_element(after_ws(s)) {
        PR::Err => PR::Ok(s, acc),
        PR::Fail => PR::Fail,
        PR::Ok(r, v) => match s_body_sep(r) {
            PR::Err => PR::Ok(s, acc),
            PR::Fail => PR::Fail,
            PR::Ok(r2, _) => if r2.len() < s.len() { s_body_items(r2, acc.push(v)) } else { PR::Ok(s, acc) },
        },
    }
}
/// (Attribute | Block | OneLineBlock)*
#[verifier::opaque]
pub open spec fn s_body(s: Seq<char>) -> PR<Seq<BodyElemV>>
    decreases s.len(), 40nat
{
    match s_body_items(s, Seq::empty()) { PR::Ok(r, v) => PR::Ok(after_ws(r), v), x => x }
}
pub broadcast proof fn suf_block(s: Seq<char>)
    ensures (#[trigger] s_block(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
    decreases s.len(), 10nat
{
    reveal(s_block); reveal(s_body_element); reveal(s_body_items); reveal(s_body);
    broadcast use group_suffix;
    match s_block_head(s) { PR::Ok(r, h) => match s_newline(after_iws(r)) { PR::Ok(r2, _) => { suf_body(after_iws(r2)); }, _ => {} }, _ => {} }
}
pub broadcast proof fn suf_body_element(s: Seq<char>)
    ensures (#[trigger] s_body_element(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
    decreases s.len(), 20nat
{ reveal(s_block); reveal(s_body_element); reveal(s_body_items); reveal(s_body); suf_block(s); }
pub broadcast proof fn suf_body_sep(s: Seq<char>)
    ensures (#[trigger] s_body_sep(s)) matches PR::Ok(r, _) ==> is_suffix(r, s)
{ broadcast use {group_suffix, suf_newline}; }
pub proof fn suf_body_items(s: Seq<char>, acc: Seq<BodyElemV>)
    ensures s_body_items(s, acc) matches PR::Ok(r, _) ==> is_suffix(r, s)
    decreases s.len(), 30nat
{
    reveal(s_block); reveal(s_body_element); reveal(s_body_items); reveal(s_body);
    broadcast use group_suffix;
    suf_body_element(after_ws(s));
    match s_body_element(after_ws(s)) {
        PR::Ok(r, v) => {
            suf_body_sep(r);
            match s_body_sep(r) { PR::Ok(r2, _) => if r2.len() < s.len() { suf_body_items(r2, acc.push(v)) }, _ => {} }
        },
        _ => {},
    }
}
pub broadcast proof fn suf_body(s: Seq<char>)
    ensures (#[trigger] s_body(s)) matches PR::Ok(r, _) ==> is_suffix(r, s)
    decreases s.len(), 40nat
{ reveal(s_block); reveal(s_body_element); reveal(s_body_items); reveal(s_body); broadcast use group_suffix; suf_body_items(s, Seq::empty()); }
/// one unfolding
pub broadcast proof fn x_block(s: Seq<char>)
    ensures (#[trigger] s_block(s)) == ({
    match s_block_head(s) {
        PR::Err => PR::Err,
        PR::Fail => PR::Fail,
        PR::Ok(r, h) => match s_newline(after_iws(r)) {
            PR::Err => PR::Err,
            PR::Fail => PR::Fail,
            PR::Ok(r2, _) => match s_body(after_iws(r2)) {
                PR::Err => PR::Err,
                PR::Fail => PR::Fail,
                PR::Ok(r3, b) => if starts(after_iws(r3), '}') { PR::Ok(after_iws(after_iws(r3).skip(1)), BodyElemV::Block(h.0, h.1, b)) } else { PR::Err },
            },
        },
    }
    })
{ reveal(s_block); reveal(s_body_element); reveal(s_body_items); reveal(s_body); }
/// one unfolding
pub broadcast proof fn x_body_element(s: Seq<char>)
    ensures (#[trigger] s_body_element(s)) == ({
    match s_attribute(s) { PR::Ok(r, v) => PR::Ok(r, BodyElemV::Attr(v.0, v.1)), PR::Fail => PR::Fail, PR::Err =>
    match s_one_line(s) { PR::Ok(r, v) => PR::Ok(r, v), PR::Fail => PR::Fail, PR::Err => s_block(s) }}
    })
{ reveal(s_block); reveal(s_body_element); reveal(s_body_items); reveal(s_body); }
/// one unfolding
pub broadcast proof fn x_body_items(s: Seq<char>, acc: Seq<BodyElemV>)
    ensures (#[trigger] s_body_items(s, acc)) == ({
    match s_body_element(after_ws(s)) {
        PR::Err => PR::Ok(s, acc),
        PR::Fail => PR::Fail,
        PR::Ok(r, v) => match s_body_sep(r) {
            PR::Err => PR::Ok(s, acc),
            PR::Fail => PR::Fail,
            PR::Ok(r2, _) => if r2.len() < s.len() { s_body_items(r2, acc.push(v)) } else { PR::Ok(s, acc) },
        },
    }
    })
{ reveal(s_block); reveal(s_body_element); reveal(s_body_items); reveal(s_body); }
/// one unfolding
pub broadcast proof fn x_body(s: Seq<char>)
    ensures (#[trigger] s_body(s)) == ({
    match s_body_items(s, Seq::empty()) { PR::Ok(r, v) => PR::Ok(after_ws(r), v), x => x }
    })
{ reveal(s_block); reveal(s_body_element); reveal(s_body_items); reveal(s_body); }
} // doc
} // gram
pub use gram::*;
pub use gram::doc::*;
pub broadcast group group_gram {
    after_ws_le, after_iws_le, ws_after, iws_after, suf_ident, suf_bool, suf_null, suf_string_literal, suf_string, suf_number, suf_newline, suf_label, suf_labels,
}

// ----- what the tree means ------------------------------------------------------------------
pub open spec fn iview<'a>(i: ObjectElementIdentifier<'a>) -> IdV {
    match i { ObjectElementIdentifier::Identifier(c) => IdV::Ident(c@), ObjectElementIdentifier::Expression(c) => IdV::Expr(c@) }
}
pub open spec fn eview<'a>(e: Expression<'a>) -> ExprV
    decreases e
{
    match e {
        Expression::Null => ExprV::Null,
        Expression::Number(n) => ExprV::Num(nview(n)),
        Expression::Boolean(b) => ExprV::Bool(b),
        Expression::String(s) => ExprV::Str(s@),
        Expression::Tuple(v) => ExprV::Tuple(Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { eview(v[i]) } else { ExprV::Null })),
        Expression::Object(v) => ExprV::Object(Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { (iview(v[i].0), eview(v[i].1)) } else { (IdV::Ident(Seq::empty()), ExprV::Null) })),
    }
}
pub open spec fn vexpr<'a>() -> spec_fn(Expression<'a>) -> ExprV { |e: Expression<'a>| eview(e) }
pub open spec fn vidv<'a>() -> spec_fn(ObjectElementIdentifier<'a>) -> IdV { |e: ObjectElementIdentifier<'a>| iview(e) }
pub open spec fn vobj<'a>() -> spec_fn((ObjectElementIdentifier<'a>, Expression<'a>)) -> (IdV, ExprV) { |e: (ObjectElementIdentifier<'a>, Expression<'a>)| (iview(e.0), eview(e.1)) }
pub open spec fn vattr<'a>() -> spec_fn((Cow<'a, str>, Expression<'a>)) -> (Seq<char>, ExprV) { |e: (Cow<'a, str>, Expression<'a>)| (e.0@, eview(e.1)) }
pub open spec fn voattr<'a>() -> spec_fn(Option<(Cow<'a, str>, Expression<'a>)>) -> Option<(Seq<char>, ExprV)> { |o: Option<(Cow<'a, str>, Expression<'a>)>| match o { Some(e) => Some((e.0@, eview(e.1))), None => None } }
pub open spec fn lview<'a>(l: BlockLabel<'a>) -> LabelV { match l { BlockLabel::StringLiteral(s) => LabelV::Lit(s@), BlockLabel::Identifier(c) => LabelV::Ident(c@) } }
pub open spec fn vlabel<'a>() -> spec_fn(BlockLabel<'a>) -> LabelV { |l: BlockLabel<'a>| lview(l) }
pub open spec fn bview<'a>(b: BodyElement<'a>) -> BodyElemV
    decreases b
{
    match b {
        BodyElement::Attribute(a) => BodyElemV::Attr(a.0@, eview(a.1)),
        BodyElement::Block(k) => BodyElemV::Block(k.r#type@, k.labels@.map_values(vlabel()),
            Seq::new(k.body@.len(), |i: int| if 0 <= i < k.body@.len() { bview(k.body[i]) } else { BodyElemV::Attr(Seq::empty(), ExprV::Null) })),
    }
}
pub open spec fn vbody<'a>() -> spec_fn(BodyElement<'a>) -> BodyElemV { |b: BodyElement<'a>| bview(b) }
pub open spec fn vblock<'a>() -> spec_fn(Block<'a>) -> BodyElemV { |k: Block<'a>| bview(BodyElement::Block(k)) }
pub broadcast proof fn eview_tuple<'a>(v: Vec<Expression<'a>>)
    ensures #[trigger] eview(Expression::Tuple(v)) == ExprV::Tuple(v@.map_values(vexpr()))
{ assert(eview(Expression::Tuple(v))->Tuple_0 =~= v@.map_values(vexpr())); }
pub broadcast proof fn eview_object<'a>(v: Vec<(ObjectElementIdentifier<'a>, Expression<'a>)>)
    ensures #[trigger] eview(Expression::Object(v)) == ExprV::Object(v@.map_values(vobj()))
{ assert(eview(Expression::Object(v))->Object_0 =~= v@.map_values(vobj())); }
pub broadcast proof fn bview_block<'a>(k: Block<'a>)
    ensures #[trigger] bview(BodyElement::Block(k)) == BodyElemV::Block(k.r#type@, k.labels@.map_values(vlabel()), k.body@.map_values(vbody()))
{ assert(bview(BodyElement::Block(k))->Block_2 =~= k.body@.map_values(vbody())); }
/// an expression after whitespace is shorter, in characters and in bytes
pub broadcast proof fn lt_expression(s: Seq<char>)
    ensures (#[trigger] s_expression(after_ws(s))) matches PR::Ok(r, _) ==> r.len() < s.len() && blen(r) < blen(s)
{ broadcast use {group_suffix, after_ws_le}; suf_expression(after_ws(s)); }
pub broadcast proof fn lt_skip(s: Seq<char>)
    requires after_ws(s).len() > 0
    ensures blen(#[trigger] after_ws(s).skip(1)) < blen(s), is_suffix(after_ws(s).skip(1), s)
{ broadcast use {group_suffix, after_ws_le}; }
pub broadcast proof fn map_small<A, B>(s: Seq<A>, f: spec_fn(A) -> B)
    ensures s.len() == 0 ==> #[trigger] s.map_values(f) == Seq::<B>::empty(), s.len() == 1 ==> s.map_values(f) == seq![f(s[0])]
{ if s.len() == 0 { assert(s.map_values(f) =~= Seq::<B>::empty()); } else if s.len() == 1 { assert(s.map_values(f) =~= seq![f(s[0])]); } }
pub broadcast group group_view { eview_tuple, eview_object, bview_block }

pub assume_specification<'a>[<CompleteStr<'a> as Slice<RangeTo<usize>>>::slice](a: &CompleteStr<'a>, r: RangeTo<usize>) -> (res: CompleteStr<'a>)
    requires is_bnd(a.0@, r.end as int)
    ensures res.0@ == a.0@.take(cidx(a.0@, r.end as int));
pub fn vx_same<T>(t: T) -> (r: T) ensures r == t { t }
/// Vec::into_iter ... collect() back into a Vec
pub fn vec_into_iter<T>(v: Vec<T>) -> (r: Vec<T>) ensures r == v { v }
pub fn vec_collect<T>(v: Vec<T>) -> (r: Vec<T>) ensures r == v { v }
impl<'a> FromSpecImpl<crate::parser::number::Number<'a>> for Expression<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: crate::parser::number::Number<'a>) -> Expression<'a> { Expression::Number(a) }
}
impl<'a> FromSpecImpl<bool> for Expression<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: bool) -> Expression<'a> { Expression::Boolean(a) }
}
impl<'a> FromSpecImpl<Cow<'a, str>> for Expression<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: Cow<'a, str>) -> Expression<'a> { Expression::String(a) }
}
impl<'a> FromSpecImpl<Vec<Expression<'a>>> for Expression<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: Vec<Expression<'a>>) -> Expression<'a> { Expression::Tuple(a) }
}
impl<'a> FromSpecImpl<()> for Expression<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: ()) -> Expression<'a> { Expression::Null }
}
}
