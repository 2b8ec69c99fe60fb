// Whitespace and comments (parser/whitespace.rs)
verus! {
pub open spec fn is_eol_char(c: char) -> bool { c == '\r' || c == '\n' }
pub open spec fn p_eol() -> spec_fn(char) -> bool { |c: char| is_eol_char(c) }
pub open spec fn p_not_sp() -> spec_fn(char) -> bool { |c: char| !(c == ' ' || c == '\t') }
pub open spec fn p_not_spnl() -> spec_fn(char) -> bool { |c: char| !(c == ' ' || c == '\t' || c == '\r' || c == '\n') }

pub open spec fn seq2<A, B>(p: PR<A>, q: spec_fn(Seq<char>) -> PR<B>) -> PR<(A, B)> {
    match p {
        PR::Ok(r, a) => match q(r) { PR::Ok(r2, b) => PR::Ok(r2, (a, b)), PR::Err => PR::Err, PR::Fail => PR::Fail },
        PR::Err => PR::Err,
        PR::Fail => PR::Fail,
    }
}
pub open spec fn s_inline_comment(s: Seq<char>) -> PR<Seq<char>> {
    match s_tag("/*"@, s) {
        PR::Ok(r, _) => match s_until("*/"@, r) {
            PR::Ok(r2, v) => match s_tag("*/"@, r2) { PR::Ok(r3, _) => PR::Ok(r3, v), x => x },
            x => x,
        },
        x => x,
    }
}
pub open spec fn s_line_comment_body(r: Seq<char>) -> PR<Seq<char>> {
    match s_till(p_eol(), r) {
        PR::Ok(r2, v) => match s_eol(r2) { PR::Ok(r3, _) => PR::Ok(r3, v), x => x },
        x => x,
    }
}
pub open spec fn s_hash_comment(s: Seq<char>) -> PR<Seq<char>> {
    match s_tag("#"@, s) { PR::Ok(r, _) => s_line_comment_body(r), x => x }
}
pub open spec fn s_slash_comment(s: Seq<char>) -> PR<Seq<char>> {
    match s_tag("//"@, s) { PR::Ok(r, _) => s_line_comment_body(r), x => x }
}

/// a line comment starts with `#` or `//` and runs to the end of the line
pub open spec fn s_line_comment(s: Seq<char>) -> PR<Seq<char>> { s_alt(s_hash_comment(s), s_slash_comment(s)) }
pub open spec fn s_iws_item(s: Seq<char>) -> PR<Seq<char>> {
    s_alt(s_inline_comment(s), s_till(p_not_sp(), s))
}
pub open spec fn s_ws_item(s: Seq<char>) -> PR<Seq<char>> {
    s_alt(s_hash_comment(s), s_alt(s_slash_comment(s), s_alt(s_inline_comment(s), s_till(p_not_spnl(), s))))
}
pub open spec fn s_inline_comment_eol(s: Seq<char>) -> PR<Seq<char>> {
    match s_inline_comment(s) {
        PR::Ok(r, v) => match s_eol(r) { PR::Ok(r2, _) => PR::Ok(r2, v), x => x },
        x => x,
    }
}
pub open spec fn s_nl_item(s: Seq<char>) -> PR<Seq<char>> {
    s_alt(s_hash_comment(s), s_alt(s_slash_comment(s), s_alt(s_inline_comment_eol(s), s_eol(s))))
}
pub open spec fn p_iws_item() -> spec_fn(Seq<char>) -> PR<Seq<char>> { |s: Seq<char>| s_iws_item(s) }
pub open spec fn p_ws_item() -> spec_fn(Seq<char>) -> PR<Seq<char>> { |s: Seq<char>| s_ws_item(s) }
pub open spec fn p_nl_item() -> spec_fn(Seq<char>) -> PR<Seq<char>> { |s: Seq<char>| s_nl_item(s) }
/// horizontal whitespace and inline comments
pub open spec fn s_iws(s: Seq<char>) -> PR<Seq<Seq<char>>> { s_many0(p_iws_item(), s, Seq::empty()) }
/// all whitespace, newlines and every comment form
pub open spec fn s_ws(s: Seq<char>) -> PR<Seq<Seq<char>>> { s_many0(p_ws_item(), s, Seq::empty()) }
/// at least one newline-equivalent
pub open spec fn s_newline(s: Seq<char>) -> PR<Seq<Seq<char>>> { s_many1(p_nl_item(), s) }

pub broadcast proof fn suf_eol(s: Seq<char>) ensures (#[trigger] s_eol(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
{ broadcast use {group_suffix, group_peg}; }
pub broadcast proof fn suf_inline_comment(s: Seq<char>) ensures (#[trigger] s_inline_comment(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
{ broadcast use {group_suffix, group_peg}; reveal_strlit("/*"); reveal_strlit("*/"); }
pub broadcast proof fn suf_hash_comment(s: Seq<char>) ensures (#[trigger] s_hash_comment(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
{ broadcast use {group_suffix, group_peg, suf_eol}; reveal_strlit("#"); }
pub broadcast proof fn suf_slash_comment(s: Seq<char>) ensures (#[trigger] s_slash_comment(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
{ broadcast use {group_suffix, group_peg, suf_eol}; reveal_strlit("//"); }
pub broadcast proof fn suf_iws_item(s: Seq<char>) ensures (#[trigger] s_iws_item(s)) matches PR::Ok(r, _) ==> is_suffix(r, s)
{ broadcast use {group_suffix, group_peg, suf_inline_comment}; }
pub broadcast proof fn suf_ws_item(s: Seq<char>) ensures (#[trigger] s_ws_item(s)) matches PR::Ok(r, _) ==> is_suffix(r, s)
{ broadcast use {group_suffix, group_peg, suf_inline_comment, suf_hash_comment, suf_slash_comment}; }
pub broadcast proof fn suf_nl_item(s: Seq<char>) ensures (#[trigger] s_nl_item(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
{ broadcast use {group_suffix, group_peg, suf_inline_comment, suf_hash_comment, suf_slash_comment, suf_eol}; }
pub broadcast proof fn suf_iws(s: Seq<char>) ensures (#[trigger] s_iws(s)) matches PR::Ok(r, _) && is_suffix(r, s)
{ broadcast use {suf_iws_item}; assert(suffixy(p_iws_item())); many0_suffix(p_iws_item(), s, Seq::empty()); many0_nofail(p_iws_item(), s, Seq::empty()); }
pub broadcast proof fn suf_ws(s: Seq<char>) ensures (#[trigger] s_ws(s)) matches PR::Ok(r, _) && is_suffix(r, s)
{ broadcast use {suf_ws_item}; assert(suffixy(p_ws_item())); many0_suffix(p_ws_item(), s, Seq::empty()); many0_nofail(p_ws_item(), s, Seq::empty()); }
pub broadcast proof fn suf_newline(s: Seq<char>) ensures (#[trigger] s_newline(s)) matches PR::Ok(r, _) ==> is_suffix(r, s) && r.len() < s.len()
{ broadcast use {suf_nl_item, group_suffix}; assert(suffixy(p_nl_item())); match s_nl_item(s) { PR::Ok(r, v) => { many0_suffix(p_nl_item(), r, seq![v]); }, _ => {} } }
pub proof fn many0_nofail<V>(p: spec_fn(Seq<char>) -> PR<V>, s: Seq<char>, acc: Seq<V>)
    requires forall|s: Seq<char>| !((#[trigger] p(s)) is Fail)
    ensures s_many0(p, s, acc) is Ok
    decreases s.len()
{
    match p(s) { PR::Ok(r, v) => if r.len() < s.len() { many0_nofail(p, r, acc.push(v)); }, _ => {} }
}
pub broadcast group group_ws { suf_eol, suf_inline_comment, suf_hash_comment, suf_slash_comment, suf_iws_item, suf_ws_item, suf_nl_item, suf_iws, suf_ws, suf_newline }
pub broadcast group group_x { group_str, converted_same, group_peg, complete_cs0, inp_cs, inp_end_cs, push_map, contains_small, prefix_small }
}
