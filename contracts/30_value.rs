// Values and pairs (value.rs, lib.rs)
use crate::value::Value;
use crate::errors::Error;
verus! {
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(std::str::Utf8Error);

pub open spec fn k_null() -> Seq<char> { "Null"@ }
pub open spec fn k_integer() -> Seq<char> { "Integer"@ }
pub open spec fn k_float() -> Seq<char> { "Float"@ }
pub open spec fn k_boolean() -> Seq<char> { "Boolean"@ }
pub open spec fn k_string() -> Seq<char> { "String"@ }
pub open spec fn k_list() -> Seq<char> { "List"@ }
pub open spec fn k_object() -> Seq<char> { "Object"@ }
pub open spec fn k_block() -> Seq<char> { "Block"@ }
/// the name of the one kind a value has
pub open spec fn kind_of<'a>(v: &Value<'a>) -> Seq<char> {
    match *v {
        Value::Null => k_null(),
        Value::Integer(_) => k_integer(),
        Value::Float(_) => k_float(),
        Value::Boolean(_) => k_boolean(),
        Value::String(_) => k_string(),
        Value::List(_) => k_list(),
        Value::Object(_) => k_object(),
        Value::Block(_) => k_block(),
    }
}
pub open spec fn scalar<'a>(v: &Value<'a>) -> bool { v is Integer || v is Float || v is Boolean || v is String }
pub open spec fn wrong_kind(e: Error, expected: Seq<char>, actual: Seq<char>) -> bool {
    e matches Error::UnexpectedVariant { enum_type, expected: x, actual: a } && enum_type@ == "Value"@ && x@ == expected && a@ == actual
}
}
verus! {
pub open spec fn expr_kind_of<'a>(v: &crate::parser::expression::Expression<'a>) -> Seq<char> {
    match *v {
        crate::parser::expression::Expression::Null => "Null"@,
        crate::parser::expression::Expression::Number(_) => "Number"@,
        crate::parser::expression::Expression::Boolean(_) => "Boolean"@,
        crate::parser::expression::Expression::String(_) => "String"@,
        crate::parser::expression::Expression::Tuple(_) => "Tuple"@,
        crate::parser::expression::Expression::Object(_) => "Object"@,
    }
}
}
use crate::parser::body::BodyElement;
use crate::parser::attribute::Attribute;
use vstd::std_specs::convert::FromSpecImpl;
verus! {
impl<'a> FromSpecImpl<Attribute<'a>> for BodyElement<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: Attribute<'a>) -> BodyElement<'a> { BodyElement::Attribute(a) }
}
impl<'a> FromSpecImpl<crate::parser::block::Block<'a>> for BodyElement<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(b: crate::parser::block::Block<'a>) -> BodyElement<'a> { BodyElement::Block(b) }
}
}
