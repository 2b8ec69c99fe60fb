// Counts and merge flags
verus! {
pub open spec fn nsum(s: Seq<nat>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { nsum(s.drop_last()) + s.last() } }
pub proof fn nsum_take(s: Seq<nat>, n: int)
    requires 0 <= n < s.len()
    ensures nsum(s.take(n + 1)) == nsum(s.take(n)) + s[n]
{ assert(s.take(n + 1).drop_last() =~= s.take(n)); }
pub proof fn nsum_mono(s: Seq<nat>, n: int)
    requires 0 <= n <= s.len()
    ensures nsum(s.take(n)) <= nsum(s)
    decreases s.len() - n
{
    if n == s.len() { assert(s.take(n) =~= s); } else { nsum_take(s, n); nsum_mono(s, n + 1); }
}
/// the number of integers, floats, booleans and strings in a value, at any depth
pub open spec fn nscal<'a>(v: Value<'a>) -> nat
    decreases v, 0nat via nscal_dec
{
    match v {
        Value::Null => 0,
        Value::List(x) => nsum(nscal_list_parts(x)),
        Value::Object(x) => nsum(nscal_object_parts(x)),
        Value::Block(x) => nscal_block(x),
        _ => 1,
    }
}
pub open spec fn nscal_map<'a>(m: KeyValuePairs<Key<'a>, Value<'a>>) -> nat
    decreases m, 0nat via nscal_map_dec
{ match m { KeyValuePairs::Merged(h) => nsum(nscal_map_m_parts(h)), KeyValuePairs::Unmerged(x) => nsum(nscal_map_u_parts(x)) } }
pub open spec fn nscal_block<'a>(m: KeyValuePairs<Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>>) -> nat
    decreases m, 0nat via nscal_block_dec
{ match m { KeyValuePairs::Merged(h) => nsum(nscal_block_m_parts(h)), KeyValuePairs::Unmerged(x) => nsum(nscal_block_u_parts(x)) } }
pub open spec fn nscal_list_parts<'a>(x: Vec<Value<'a>>) -> Seq<nat>
    decreases x, 0nat via nscal_list_parts_dec
{ Seq::new(x@.len(), |i: int| if 0 <= i < x@.len() { nscal(x@[i]) } else { 0 }) }
pub open spec fn nscal_object_parts<'a>(x: Vec<KeyValuePairs<Key<'a>, Value<'a>>>) -> Seq<nat>
    decreases x, 0nat via nscal_object_parts_dec
{ Seq::new(x@.len(), |i: int| if 0 <= i < x@.len() { nscal_map(x@[i]) } else { 0 }) }
pub open spec fn nscal_map_u_parts<'a>(x: Vec<(Key<'a>, Value<'a>)>) -> Seq<nat>
    decreases x, 0nat via nscal_map_u_parts_dec
{ Seq::new(x@.len(), |i: int| if 0 <= i < x@.len() { nscal(x@[i].1) } else { 0 }) }
pub open spec fn nscal_map_m_parts<'a>(x: HashMap<Key<'a>, Value<'a>>) -> Seq<nat>
    decreases x, 0nat via nscal_map_m_parts_dec
{ Seq::new(hm_pairs(x).len(), |i: int| if 0 <= i < hm_pairs(x).len() { nscal(hm_pairs(x)[i].1) } else { 0 }) }
pub open spec fn nscal_block_u_parts<'a>(x: Vec<(Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>)>) -> Seq<nat>
    decreases x, 0nat via nscal_block_u_parts_dec
{ Seq::new(x@.len(), |i: int| if 0 <= i < x@.len() { nscal_map(x@[i].1) } else { 0 }) }
pub open spec fn nscal_block_m_parts<'a>(x: HashMap<Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>>) -> Seq<nat>
    decreases x, 0nat via nscal_block_m_parts_dec
{ Seq::new(hm_pairs(x).len(), |i: int| if 0 <= i < hm_pairs(x).len() { nscal_map(hm_pairs(x)[i].1) } else { 0 }) }
#[via_fn]
proof fn nscal_dec<'a>(v: Value<'a>) { broadcast use hm_height_at; }
#[via_fn]
proof fn nscal_map_dec<'a>(m: KeyValuePairs<Key<'a>, Value<'a>>) { broadcast use hm_height_at; }
#[via_fn]
proof fn nscal_block_dec<'a>(m: KeyValuePairs<Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>>) { broadcast use hm_height_at; }
#[via_fn]
proof fn nscal_list_parts_dec<'a>(x: Vec<Value<'a>>) { broadcast use hm_height_at; }
#[via_fn]
proof fn nscal_object_parts_dec<'a>(x: Vec<KeyValuePairs<Key<'a>, Value<'a>>>) { broadcast use hm_height_at; }
#[via_fn]
proof fn nscal_map_u_parts_dec<'a>(x: Vec<(Key<'a>, Value<'a>)>) { broadcast use hm_height_at; }
#[via_fn]
proof fn nscal_map_m_parts_dec<'a>(x: HashMap<Key<'a>, Value<'a>>) { broadcast use hm_height_at; }
#[via_fn]
proof fn nscal_block_u_parts_dec<'a>(x: Vec<(Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>)>) { broadcast use hm_height_at; }
#[via_fn]
proof fn nscal_block_m_parts_dec<'a>(x: HashMap<Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>>) { broadcast use hm_height_at; }
pub open spec fn cval<'a>() -> spec_fn(Value<'a>) -> nat { |v: Value<'a>| nscal(v) }
pub open spec fn cmap<'a>() -> spec_fn(KeyValuePairs<Key<'a>, Value<'a>>) -> nat { |v: KeyValuePairs<Key<'a>, Value<'a>>| nscal_map(v) }
pub open spec fn csnd<K, V>(f: spec_fn(V) -> nat) -> spec_fn((K, V)) -> nat { |p: (K, V)| f(p.1) }
pub broadcast proof fn nscal_list<'a>(x: Vec<Value<'a>>)
    ensures #[trigger] nscal(Value::List(x)) == nsum(x@.map_values(cval()))
{ assert(nscal_list_parts(x) =~= x@.map_values(cval())); }
pub broadcast proof fn nscal_object<'a>(x: Vec<KeyValuePairs<Key<'a>, Value<'a>>>)
    ensures #[trigger] nscal(Value::Object(x)) == nsum(x@.map_values(cmap()))
{ assert(nscal_object_parts(x) =~= x@.map_values(cmap())); }
pub broadcast proof fn nscal_map_u<'a>(x: Vec<(Key<'a>, Value<'a>)>)
    ensures #[trigger] nscal_map(KeyValuePairs::Unmerged(x)) == nsum(x@.map_values(csnd(cval())))
{ assert(nscal_map_u_parts(x) =~= x@.map_values(csnd(cval()))); }
pub broadcast proof fn nscal_map_m<'a>(x: HashMap<Key<'a>, Value<'a>>)
    ensures #[trigger] nscal_map(KeyValuePairs::Merged(x)) == nsum(hm_pairs(x).map_values(csnd(cval())))
{ assert(nscal_map_m_parts(x) =~= hm_pairs(x).map_values(csnd(cval()))); }
pub broadcast proof fn nscal_block_u<'a>(x: Vec<(Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>)>)
    ensures #[trigger] nscal_block(KeyValuePairs::Unmerged(x)) == nsum(x@.map_values(csnd(cmap())))
{ assert(nscal_block_u_parts(x) =~= x@.map_values(csnd(cmap()))); }
pub broadcast proof fn nscal_block_m<'a>(x: HashMap<Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>>)
    ensures #[trigger] nscal_block(KeyValuePairs::Merged(x)) == nsum(hm_pairs(x).map_values(csnd(cmap())))
{ assert(nscal_block_m_parts(x) =~= hm_pairs(x).map_values(csnd(cmap()))); }
pub broadcast group group_nscal { nscal_list, nscal_object, nscal_map_u, nscal_map_m, nscal_block_u, nscal_block_m }

/// every collection of pairs in the value, at any depth, is merged
pub open spec fn all_m<'a>(v: Value<'a>) -> bool
    decreases v via all_m_dec
{
    match v {
        Value::List(x) => forall|i: int| 0 <= i < x@.len() ==> all_m(#[trigger] x@[i]),
        Value::Object(x) => forall|i: int| 0 <= i < x@.len() ==> all_m_map(#[trigger] x@[i]),
        Value::Block(x) => all_m_block(x),
        _ => true,
    }
}
pub open spec fn all_m_map<'a>(m: KeyValuePairs<Key<'a>, Value<'a>>) -> bool
    decreases m via all_m_map_dec
{ match m { KeyValuePairs::Merged(h) => forall|i: int| 0 <= i < hm_pairs(h).len() ==> all_m((#[trigger] hm_pairs(h)[i]).1), KeyValuePairs::Unmerged(x) => false } }
pub open spec fn all_m_block<'a>(m: KeyValuePairs<Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>>) -> bool
    decreases m via all_m_block_dec
{ match m { KeyValuePairs::Merged(h) => forall|i: int| 0 <= i < hm_pairs(h).len() ==> all_m_map((#[trigger] hm_pairs(h)[i]).1), KeyValuePairs::Unmerged(x) => false } }
#[via_fn]
proof fn all_m_dec<'a>(v: Value<'a>) { broadcast use hm_height_at; }
#[via_fn]
proof fn all_m_map_dec<'a>(m: KeyValuePairs<Key<'a>, Value<'a>>) { broadcast use hm_height_at; }
#[via_fn]
proof fn all_m_block_dec<'a>(m: KeyValuePairs<Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>>) { broadcast use hm_height_at; }
/// every collection of pairs in the value, at any depth, is unmerged
pub open spec fn all_u<'a>(v: Value<'a>) -> bool
    decreases v
{
    match v {
        Value::List(x) => forall|i: int| 0 <= i < x@.len() ==> all_u(#[trigger] x@[i]),
        Value::Object(x) => forall|i: int| 0 <= i < x@.len() ==> all_u_map(#[trigger] x@[i]),
        Value::Block(x) => all_u_block(x),
        _ => true,
    }
}
pub open spec fn all_u_map<'a>(m: KeyValuePairs<Key<'a>, Value<'a>>) -> bool
    decreases m
{ match m { KeyValuePairs::Merged(h) => false, KeyValuePairs::Unmerged(x) => forall|i: int| 0 <= i < x@.len() ==> all_u((#[trigger] x@[i]).1) } }
pub open spec fn all_u_block<'a>(m: KeyValuePairs<Vec<String>, KeyValuePairs<Key<'a>, Value<'a>>>) -> bool
    decreases m
{ match m { KeyValuePairs::Merged(h) => false, KeyValuePairs::Unmerged(x) => forall|i: int| 0 <= i < x@.len() ==> all_u_map((#[trigger] x@[i]).1) } }
}
