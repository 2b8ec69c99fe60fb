// syntax tree (parser/*)
@type parser::identifier::Identifier
@type parser::string::StringLiteral
@type parser::number::Number
@type parser::number::Exponent
@type parser::expression::Expression
@type parser::tuple::Tuple
@type parser::object::ObjectElementIdentifier
@type parser::object::ObjectElement
@type parser::object::Object
@type parser::attribute::Attribute
@type parser::block::BlockLabel
@type parser::block::Block
@type parser::body::Body
@type parser::body::BodyElement

@fn parser::expression::Expression::variant_name -> r
ensures r@ == expr_kind_of($p0)

@fn parser::body::BodyElement::is_attribute -> r
ensures r == ($p0 is Attribute)
@fn parser::body::BodyElement::is_block -> r
ensures r == ($p0 is Block)
@fn parser::body::BodyElement::unwrap_attribute -> r
requires $p0 is Attribute
ensures $p0 == BodyElement::Attribute(r)
@fn parser::body::BodyElement::unwrap_block -> r
requires $p0 is Block
ensures $p0 == BodyElement::Block(r)
@fn parser::body::<BodyElement as From<Attribute>>::from -> r
ensures r == BodyElement::Attribute($p0)
@fn parser::body::<BodyElement as From<Block>>::from -> r
ensures r == BodyElement::Block($p0)
@fn parser::block::Block::new -> r
ensures r == (Block { r#type: $p0, labels: $p1, body: $p2 })
@fn parser::block::Block::new_one_line -> r
ensures r.r#type == $p0, r.labels == $p1,
  match $p2 { None => r.body@ == Seq::<crate::parser::body::BodyElement<'a>>::empty(), Some(a) => r.body@ == seq![crate::parser::body::BodyElement::Attribute(a)] }
