// Values and their accessors (value.rs)
@type errors::Error
@type KeyValuePairs verifier::reject_recursive_types(K)
@type value::Value
@type value::Body
@type value::Block
@type value::Object
@type value::MapValues
@type value::List
@type parser::literals::key::Key
@type constants::NULL
@type constants::INTEGER
@type constants::FLOAT
@type constants::NUMBER
@type constants::BOOLEAN
@type constants::STRING
@type constants::LIST
@type constants::TUPLE
@type constants::OBJECT
@type constants::BLOCK
@type constants::MERGED
@type constants::UNMERGED
@type constants::VALUE
@type constants::MAP_VALUES
@fn value::Value::is_null -> r
ensures r == ($p0 is Null)
@fn value::Value::is_integer -> r
ensures r == ($p0 is Integer)
@fn value::Value::is_float -> r
ensures r == ($p0 is Float)
@fn value::Value::is_boolean -> r
ensures r == ($p0 is Boolean)
@fn value::Value::is_string -> r
ensures r == ($p0 is String)
@fn value::Value::is_list -> r
ensures r == ($p0 is List)
@fn value::Value::is_map -> r
ensures r == ($p0 is Object)
@fn value::Value::is_block -> r
ensures r == ($p0 is Block)
@fn value::Value::variant_name -> r
ensures r@ == kind_of($p0)
@fn value::Value::is_scalar -> r
ensures r == scalar($p0)
@fn value::Value::is_aggregate -> r
ensures r == !scalar($p0)
@fn value::Value::integer -> r
ensures match r { Ok(x) => $p0 == Value::Integer(x), Err(e) => !($p0 is Integer) && wrong_kind(e, k_integer(), kind_of($p0)) }
@fn value::Value::unwrap_integer -> r
requires $p0 is Integer
ensures $p0 == Value::Integer(r)
@fn value::Value::float -> r
ensures match r { Ok(x) => $p0 == Value::Float(x), Err(e) => !($p0 is Float) && wrong_kind(e, k_float(), kind_of($p0)) }
@fn value::Value::unwrap_float -> r
requires $p0 is Float
ensures $p0 == Value::Float(r)
@fn value::Value::boolean -> r
ensures match r { Ok(x) => $p0 == Value::Boolean(x), Err(e) => !($p0 is Boolean) && wrong_kind(e, k_boolean(), kind_of($p0)) }
@fn value::Value::unwrap_boolean -> r
requires $p0 is Boolean
ensures $p0 == Value::Boolean(r)
@fn value::Value::borrow_str -> r
ensures match r { Ok(x) => $p0 matches Value::String(s) && s@ == x@, Err(e) => !($p0 is String) && wrong_kind(e, k_string(), kind_of($p0)) }
@fn value::Value::unwrap_borrow_str -> r
requires $p0 is String
ensures $p0 matches Value::String(s) && s@ == r@
@fn value::Value::string -> r
ensures match r { Ok(x) => $p0 == Value::String(x), Err((e, back)) => back == $p0 && !($p0 is String) && wrong_kind(e, k_string(), kind_of(&$p0)) }
@fn value::Value::unwrap_string -> r
requires $p0 is String
ensures $p0 == Value::String(r)
@fn value::Value::list -> r
ensures match r { Ok(x) => $p0 == Value::List(x), Err((e, back)) => back == $p0 && !($p0 is List) && wrong_kind(e, k_list(), kind_of(&$p0)) }
@fn value::Value::unwrap_list -> r
requires $p0 is List
ensures $p0 == Value::List(r)
@fn value::Value::borrow_list -> r
ensures match r { Ok(x) => *$p0 == Value::List(*x), Err(e) => !($p0 is List) && wrong_kind(e, k_list(), kind_of($p0)) }
@fn value::Value::unwrap_borrow_list -> r
requires $p0 is List
ensures *$p0 == Value::List(*r)
@fn value::Value::map -> r
ensures match r { Ok(x) => $p0 == Value::Object(x), Err((e, back)) => back == $p0 && !($p0 is Object) && wrong_kind(e, k_object(), kind_of(&$p0)) }
@fn value::Value::unwrap_map -> r
requires $p0 is Object
ensures $p0 == Value::Object(r)
@fn value::Value::borrow_map -> r
ensures match r { Ok(x) => *$p0 == Value::Object(*x), Err(e) => !($p0 is Object) && wrong_kind(e, k_object(), kind_of($p0)) }
@fn value::Value::unwrap_borrow_map -> r
requires $p0 is Object
ensures *$p0 == Value::Object(*r)
@fn value::Value::block -> r
ensures match r { Ok(x) => $p0 == Value::Block(x), Err((e, back)) => back == $p0 && !($p0 is Block) && wrong_kind(e, k_block(), kind_of(&$p0)) }
@fn value::Value::unwrap_block -> r
requires $p0 is Block
ensures $p0 == Value::Block(r)
@fn value::Value::borrow_block -> r
ensures match r { Ok(x) => *$p0 == Value::Block(*x), Err(e) => !($p0 is Block) && wrong_kind(e, k_block(), kind_of($p0)) }
@fn value::Value::unwrap_borrow_block -> r
requires $p0 is Block
ensures *$p0 == Value::Block(*r)
@fn value::Value::is_body -> r
ensures r == ($p0 is Object)
@fn value::Value::borrow_string_mut -> r
ensures match r { Ok(x) => *old($p0) == Value::String(*x) && *final($p0) == Value::String(*final(x)), Err(e) => !(*old($p0) is String) && *final($p0) == *old($p0) && wrong_kind(e, k_string(), kind_of(old($p0))) }
@fn value::Value::unwrap_borrow_string_mut -> r
requires *old($p0) is String
ensures *old($p0) == Value::String(*r) && *final($p0) == Value::String(*final(r))
@fn value::Value::borrow_list_mut -> r
ensures match r { Ok(x) => *old($p0) == Value::List(*x) && *final($p0) == Value::List(*final(x)), Err(e) => !(*old($p0) is List) && *final($p0) == *old($p0) && wrong_kind(e, k_list(), kind_of(old($p0))) }
@fn value::Value::unwrap_borrow_list_mut -> r
requires *old($p0) is List
ensures *old($p0) == Value::List(*r) && *final($p0) == Value::List(*final(r))
@fn value::Value::borrow_map_mut -> r
ensures match r { Ok(x) => *old($p0) == Value::Object(*x) && *final($p0) == Value::Object(*final(x)), Err(e) => !(*old($p0) is Object) && *final($p0) == *old($p0) && wrong_kind(e, k_object(), kind_of(old($p0))) }
@fn value::Value::unwrap_borrow_map_mut -> r
requires *old($p0) is Object
ensures *old($p0) == Value::Object(*r) && *final($p0) == Value::Object(*final(r))
@fn value::Value::borrow_block_mut -> r
ensures match r { Ok(x) => *old($p0) == Value::Block(*x) && *final($p0) == Value::Block(*final(x)), Err(e) => !(*old($p0) is Block) && *final($p0) == *old($p0) && wrong_kind(e, k_block(), kind_of(old($p0))) }
@fn value::Value::unwrap_borrow_block_mut -> r
requires *old($p0) is Block
ensures *old($p0) == Value::Block(*r) && *final($p0) == Value::Block(*final(r))
