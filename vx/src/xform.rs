//! Mechanical, always-on source transformations (all re-type-checked by rustc
//! when Verus compiles the result).
use proc_macro2::{Ident, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

pub fn strip(s: &str) -> &str {
    match s.find("__hy") {
        Some(p) => &s[..p],
        None => s,
    }
}
fn hy(i: &Ident) -> bool {
    i.to_string().contains("__hy")
}
fn id(s: &str) -> Ident {
    if let Some(r) = s.strip_prefix("r#") {
        Ident::new_raw(r, Span::call_site())
    } else {
        Ident::new(s, Span::call_site())
    }
}

/// does the expression contain `return` / `?` / `break` / `continue` outside nested closures
pub struct Escapes(pub bool);
impl<'a> Visit<'a> for Escapes {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
pub fn escapes(e: &Expr) -> bool {
    let mut v = Escapes(false);
    v.visit_expr(e);
    v.0
}

fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        e => e,
    }
}

/// Token-level normalisation applied to the whole file before anything else:
/// drop derive helper attributes and builtin-only attributes.
pub struct AttrClean;
impl VisitMut for AttrClean {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.retain(|x| {
            let p = x.path().segments.last().map(|s| strip(&s.ident.to_string()).to_string()).unwrap_or_default();
            !matches!(
                p.as_str(),
                "fail" | "cause" | "doc" | "automatically_derived" | "inline" | "coverage" | "rustc_copy_clone_marker" | "allow" | "deny" | "warn"
                    | "macro_use" | "macro_export" | "must_use"
            )
        });
    }
}

pub struct Beta {
    pub count: BTreeMap<&'static str, usize>,
}
impl Beta {
    fn hit(&mut self, k: &'static str) {
        *self.count.entry(k).or_default() += 1;
    }
}

struct CountIdent<'a>(&'a Ident, usize);
impl<'a, 'b> Visit<'b> for CountIdent<'a> {
    fn visit_ident(&mut self, i: &'b Ident) {
        if i == self.0 {
            self.1 += 1;
        }
    }
}
struct SubstCall<'a>(&'a Ident, Expr, usize);
impl<'a> VisitMut for SubstCall<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if p.path.is_ident(self.0) && c.args.is_empty() {
                    *e = self.1.clone();
                    self.2 += 1;
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn is_unify_call(e: &Expr) -> bool {
    if let Expr::Call(c) = unparen(e) {
        if let Expr::Path(p) = unparen(&c.func) {
            return p.path.segments.last().map(|s| strip(&s.ident.to_string()) == "unify_types").unwrap_or(false);
        }
    }
    false
}
fn is_unify_stmt(s: &Stmt) -> bool {
    match s {
        Stmt::Item(Item::Fn(f)) => {
            let n = f.sig.ident.to_string();
            let n = strip(&n);
            (n == "unify_types" && f.block.stmts.is_empty()) || n == "_unify"
        }
        Stmt::Expr(Expr::If(i), _) => {
            i.else_branch.is_none()
                && matches!(&*i.cond, Expr::Let(_))
                && !i.then_branch.stmts.is_empty()
                && i.then_branch.stmts.iter().all(|s| match s {
                    Stmt::Expr(e, _) => is_unify_call(e),
                    s => is_unify_stmt(s),
                })
        }
        Stmt::Expr(e, Some(_)) => is_unify_call(e),
        _ => false,
    }
}

/// expansion of the `log` macros and of `println!`: no effect on results, dropped
fn is_log_stmt(s: &Stmt) -> bool {
    match s {
        Stmt::Expr(Expr::Block(b), _) if b.label.is_none() => match b.block.stmts.first() {
            Some(Stmt::Local(l)) => match &l.init {
                Some(i) => match &*i.expr {
                    Expr::Path(p) => {
                        let v: Vec<String> = p.path.segments.iter().map(|s| strip(&s.ident.to_string()).to_string()).collect();
                        v.len() == 3 && v[0] == "log" && v[1] == "Level"
                    }
                    _ => false,
                },
                None => false,
            },
            Some(Stmt::Expr(e, _)) if b.block.stmts.len() == 1 => is_print(e),
            _ => false,
        },
        Stmt::Expr(e, Some(_)) => is_print(e),
        _ => false,
    }
}
fn is_print(e: &Expr) -> bool {
    if let Expr::Call(c) = unparen(e) {
        if let Expr::Path(p) = unparen(&c.func) {
            let v: Vec<String> = p.path.segments.iter().map(|s| strip(&s.ident.to_string()).to_string()).collect();
            return v.len() >= 2 && v[v.len() - 2] == "io" && (v[v.len() - 1] == "_print" || v[v.len() - 1] == "_eprint");
        }
    }
    false
}
impl VisitMut for Beta {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let n = b.stmts.len();
        b.stmts.retain(|s| !is_log_stmt(s));
        if b.stmts.len() != n {
            self.hit("drop-log");
            b.stmts.retain(|s| !matches!(s, Stmt::Expr(Expr::Verbatim(t), _) if t.is_empty()));
        }
        let n = b.stmts.len();
        b.stmts.retain(|s| !is_unify_stmt(s));
        if b.stmts.len() != n {
            self.hit("drop-unify-types");
        }
        visit_mut::visit_block_mut(self, b);
        // let cl = || BODY;  next-stmt uses cl() exactly once
        let mut k = 0;
        while k + 1 < b.stmts.len() {
            let mut repl: Option<(Ident, Expr)> = None;
            if let Stmt::Local(l) = &b.stmts[k] {
                if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::Closure(c) = unparen(&init.expr) {
                        if c.inputs.is_empty() && !escapes(&c.body) {
                            let mut ci = CountIdent(&pi.ident, 0);
                            for s in &b.stmts[k + 1..] {
                                ci.visit_stmt(s);
                            }
                            if ci.1 == 1 {
                                repl = Some((pi.ident.clone(), (*c.body).clone()));
                            }
                        }
                    }
                }
            }
            if let Some((name, body)) = repl {
                let mut sc = SubstCall(&name, body, 0);
                let mut next = b.stmts[k + 1].clone();
                sc.visit_stmt_mut(&mut next);
                if sc.2 == 1 {
                    b.stmts[k + 1] = next;
                    b.stmts.remove(k);
                    self.hit("inline-thunk");
                    continue;
                }
            }
            k += 1;
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new: Option<(&'static str, Expr)> = match e {
            Expr::MethodCall(m) if m.args.len() == 1 => {
                let name = m.method.to_string();
                let name = strip(&name).to_string();
                match unparen(&m.args[0]) {
                    Expr::Closure(c) if c.inputs.len() == 1 && !escapes(&c.body) => {
                        let recv = &m.receiver;
                        let pat = &c.inputs[0];
                        let body = &c.body;
                        let tuple_io = match pat {
                            Pat::Tuple(t) => t.elems.len() == 2 && t.elems.iter().all(|p| matches!(p, Pat::Ident(i) if hy(&i.ident))),
                            _ => false,
                        };
                        let single_hy = matches!(pat, Pat::Ident(i) if hy(&i.ident));
                        let recv_next = matches!(unparen(recv), Expr::MethodCall(r) if strip(&r.method.to_string()) == "next" && r.args.is_empty());
                        if tuple_io && name == "and_then" {
                            Some(("result-and_then", parse_quote!(match #recv { ::core::result::Result::Ok(#pat) => #body, ::core::result::Result::Err(vx_e) => ::core::result::Result::Err(vx_e) })))
                        } else if tuple_io && name == "map" {
                            Some(("result-map", parse_quote!(match #recv { ::core::result::Result::Ok(#pat) => ::core::result::Result::Ok(#body), ::core::result::Result::Err(vx_e) => ::core::result::Result::Err(vx_e) })))
                        } else if single_hy && recv_next && name == "map" {
                            Some(("option-map-next", parse_quote!(match #recv { ::core::option::Option::Some(#pat) => ::core::option::Option::Some(#body), ::core::option::Option::None => ::core::option::Option::None })))
                        } else {
                            None
                        }
                    }
                    _ => None,
                }
            }
            Expr::Call(c) => match unparen(&c.func) {
                Expr::Closure(cl) if cl.inputs.len() == c.args.len() && cl.inputs.len() == 1 && !escapes(&cl.body) => {
                    let a = &c.args[0];
                    let p = &cl.inputs[0];
                    let b = &cl.body;
                    Some(("beta", match p {
                        Pat::Type(pt) => {
                            let (pp, ty) = (&pt.pat, &pt.ty);
                            parse_quote!({ let #pp: #ty = #a; #b })
                        }
                        p => parse_quote!({ let #p = #a; #b }),
                    }))
                }
                Expr::Path(p) if p.path.segments.len() == 1 && strip(&p.path.segments[0].ident.to_string()) == "_unify" && c.args.len() == 2 => {
                    let (f, t) = (&c.args[0], &c.args[1]);
                    Some(("_unify", parse_quote!(#f(#t))))
                }
                _ => None,
            },
            _ => None,
        };
        if let Some((k, n)) = new {
            self.hit(k);
            *e = n;
            // the produced call may itself be a redex
            if k == "_unify" {
                self.visit_expr_mut(e);
            }
        }
    }
}

/// Hygiene: collect binders, then rename.
#[derive(Default)]
pub struct Binders {
    pub order: Vec<String>,
    seen: BTreeSet<String>,
}
impl Binders {
    fn add(&mut self, i: &Ident) {
        let s = i.to_string();
        let b = strip(&s);
        if b.chars().next().map(|c| c.is_uppercase()).unwrap_or(true) {
            return;
        }
        if self.seen.insert(s.clone()) {
            self.order.push(s);
        }
    }
}
impl<'a> Visit<'a> for Binders {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.add(&p.ident);
        visit::visit_pat_ident(self, p);
    }
    fn visit_field_pat(&mut self, p: &'a FieldPat) {
        visit::visit_field_pat(self, p);
    }
}

pub struct Rename {
    pub map: BTreeMap<String, String>,
    pub unresolved: BTreeSet<String>,
}
impl Rename {
    pub fn from(b: &Binders) -> Rename {
        let mut used: BTreeSet<String> = b.order.iter().filter(|s| !s.contains("__hy")).cloned().collect();
        let mut map = BTreeMap::new();
        for s in &b.order {
            if !s.contains("__hy") {
                map.insert(s.clone(), s.clone());
                continue;
            }
            let base = strip(s).to_string();
            let mut n = base.clone();
            let mut k = 2;
            while used.contains(&n) {
                n = format!("{}_{}", base, k);
                k += 1;
            }
            used.insert(n.clone());
            map.insert(s.clone(), n);
        }
        Rename { map, unresolved: BTreeSet::new() }
    }
    fn var(&mut self, i: &mut Ident) {
        let s = i.to_string();
        if let Some(n) = self.map.get(&s) {
            if *n != s {
                *i = id(n);
            }
        } else if s.contains("__hy") {
            let b = strip(&s).to_string();
            if b.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) && self.map.values().any(|v| *v == b) {
                self.unresolved.insert(s.clone());
            }
            *i = id(&b);
        }
    }
    fn tokens(&mut self, ts: TokenStream) -> TokenStream {
        let mut out = TokenStream::new();
        let mut prev_dot = false;
        for t in ts {
            match t {
                TokenTree::Ident(mut i) => {
                    if prev_dot {
                        let s = i.to_string();
                        i = id(strip(&s));
                    } else {
                        self.var(&mut i);
                    }
                    prev_dot = false;
                    out.extend([TokenTree::Ident(i)]);
                }
                TokenTree::Group(g) => {
                    prev_dot = false;
                    let mut n = proc_macro2::Group::new(g.delimiter(), self.tokens(g.stream()));
                    n.set_span(g.span());
                    out.extend([TokenTree::Group(n)]);
                }
                TokenTree::Punct(p) => {
                    prev_dot = p.as_char() == '.' && p.spacing() == proc_macro2::Spacing::Alone;
                    out.extend([TokenTree::Punct(p)]);
                }
                t => {
                    prev_dot = false;
                    out.extend([t]);
                }
            }
        }
        out
    }
}
impl VisitMut for Rename {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() && p.path.leading_colon.is_none() && p.path.segments.len() == 1 && p.path.segments[0].arguments.is_none() {
            self.var(&mut p.path.segments[0].ident);
        } else {
            visit_mut::visit_expr_path_mut(self, p);
        }
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        self.var(&mut p.ident);
        if let Some((_, s)) = &mut p.subpat {
            self.visit_pat_mut(s);
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        self.visit_path_mut(&mut m.path);
        let t = std::mem::take(&mut m.tokens);
        m.tokens = self.tokens(t);
    }
    fn visit_attribute_mut(&mut self, a: &mut Attribute) {
        if let Meta::List(l) = &mut a.meta {
            let t = std::mem::take(&mut l.tokens);
            l.tokens = self.tokens(t);
        }
        visit_mut::visit_attribute_mut(self, a);
    }
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        let s = i.to_string();
        if s.contains("__hy") {
            *i = id(strip(&s));
        }
    }
}

/// expand struct shorthand *before* binder collection (so `P { x }` patterns keep the field name)
pub struct Shorthand;
impl VisitMut for Shorthand {
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        f.colon_token = Some(Default::default());
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        f.colon_token = Some(Default::default());
        visit_mut::visit_field_pat_mut(self, f);
    }
}

/// `panic_fmt(format_args!(..))` and `panicking::panic("..")` become `crate::vxp::vx_panic()`
/// inside functions under contract (vx_panic has `requires false`).
pub struct Panics(pub usize);
impl VisitMut for Panics {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let hit = if let Expr::Call(c) = e {
            if let Expr::Path(p) = unparen(&c.func) {
                let segs: Vec<String> = p.path.segments.iter().map(|s| strip(&s.ident.to_string()).to_string()).collect();
                let l = segs.last().cloned().unwrap_or_default();
                (segs.iter().any(|s| s == "panicking" || s == "rt") && (l == "panic" || l == "panic_fmt" || l == "begin_panic" || l == "unreachable_display" || l == "panic_display" || l == "panic_explicit"))
                    || false
            } else {
                false
            }
        } else {
            false
        };
        if hit {
            self.0 += 1;
            *e = parse_quote!(crate::vxp::vx_panic());
        }
        // `format!(..)`: the text of the message is left unconstrained
        let fmt = match e {
            Expr::Call(c) => match unparen(&c.func) {
                Expr::Path(p) => {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| strip(&s.ident.to_string()).to_string()).collect();
                    segs == ["alloc", "__export", "must_use"] && tstr(&c.args).contains("format_args")
                }
                _ => false,
            },
            _ => false,
        };
        if fmt {
            *e = parse_quote!(crate::vxp::vx_format());
        }
    }
}

/// collect string literals in expression position
#[derive(Default)]
pub struct StrLits(pub BTreeSet<String>, pub Vec<LitStr>);
impl<'a> Visit<'a> for StrLits {
    fn visit_lit_str(&mut self, l: &'a LitStr) {
        if self.0.insert(l.value()) {
            self.1.push(l.clone());
        }
    }
    fn visit_attribute(&mut self, _: &'a Attribute) {}
    fn visit_macro(&mut self, _: &'a Macro) {}
    fn visit_item(&mut self, _: &'a Item) {}
}

#[derive(Default)]
pub struct Shape {
    pub loops: usize,
    pub closures: usize,
    pub calls: BTreeSet<String>,
    pub lits: BTreeSet<String>,
}
impl<'a> Visit<'a> for Shape {
    fn visit_expr_loop(&mut self, e: &'a ExprLoop) {
        self.loops += 1;
        visit::visit_expr_loop(self, e);
    }
    fn visit_expr_while(&mut self, e: &'a ExprWhile) {
        self.loops += 1;
        visit::visit_expr_while(self, e);
    }
    fn visit_expr_for_loop(&mut self, e: &'a ExprForLoop) {
        self.loops += 1;
        visit::visit_expr_for_loop(self, e);
    }
    fn visit_expr_closure(&mut self, e: &'a ExprClosure) {
        self.closures += 1;
        visit::visit_expr_closure(self, e);
    }
    fn visit_expr_call(&mut self, e: &'a ExprCall) {
        if let Expr::Path(p) = unparen(&e.func) {
            self.calls.insert(p.path.segments.last().unwrap().ident.to_string());
        }
        visit::visit_expr_call(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'a ExprMethodCall) {
        self.calls.insert(format!(".{}", e.method));
        visit::visit_expr_method_call(self, e);
    }
    fn visit_item(&mut self, i: &'a Item) {
        if let Item::Fn(f) = i {
            self.calls.insert(format!("fn {}", f.sig.ident));
        }
        visit::visit_item(self, i);
    }
}

pub fn tstr<T: ToTokens>(t: &T) -> String {
    let mut s = String::new();
    for tt in t.to_token_stream() {
        push(&mut s, tt);
    }
    return s;
    fn push(s: &mut String, tt: TokenTree) {
        match tt {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    proc_macro2::Delimiter::Brace => ("{", "}"),
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    proc_macro2::Delimiter::None => ("", ""),
                };
                s.push_str(a);
                for t in g.stream() {
                    push(s, t);
                }
                s.push_str(b);
            }
            TokenTree::Ident(i) => {
                let t = i.to_string();
                if s.chars().last().map(|c| c.is_alphanumeric() || c == '_').unwrap_or(false) {
                    s.push(' ');
                }
                s.push_str(&t);
            }
            t => s.push_str(&t.to_string()),
        }
    }
}

pub fn unused() -> TokenStream {
    quote!()
}

/// Definitional unfolding of iterator consumers inside functions under contract:
/// `R.fold(I, |a, p| B)`, `R.all(|p| B)`, `R.any(|p| B)` become the `for` loops std defines them as.
fn untyped(p: &Pat) -> Pat { if let Pat::Type(t) = p { (*t.pat).clone() } else { p.clone() } }
pub struct IterLoops<'a> {
    pub count: &'a mut BTreeMap<&'static str, usize>,
}
impl<'a> VisitMut for IterLoops<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let mut new: Option<(&'static str, Expr)> = None;
        if let Expr::MethodCall(m) = e {
            let name = strip(&m.method.to_string()).to_string();
            let recv = &m.receiver;
            match (name.as_str(), m.args.len()) {
                ("fold", 2) => {
                    if let Expr::Closure(c) = unparen(&m.args[1]) {
                        if c.inputs.len() == 2 && !escapes(&c.body) {
                            if let Pat::Ident(a) = &untyped(&c.inputs[0]) {
                                let (i, p, b) = (&m.args[0], &untyped(&c.inputs[1]), &c.body);
                                let a = &a.ident;
                                new = Some(("iter-fold", parse_quote!({ let mut #a = #i; for #p in #recv { #a = #b; } #a })));
                            }
                        }
                    }
                }
                ("all", 1) | ("any", 1) => {
                    let (k, init, brk): (_, Expr, Expr) = if name == "all" { ("iter-all", parse_quote!(true), parse_quote!(false)) } else { ("iter-any", parse_quote!(false), parse_quote!(true)) };
                    let test: Option<(Pat, Expr)> = match unparen(&m.args[0]) {
                        Expr::Closure(c) if c.inputs.len() == 1 && !escapes(&c.body) => Some((untyped(&c.inputs[0]), (*c.body).clone())),
                        Expr::Path(p) => Some((parse_quote!(vx_x), parse_quote!(#p(vx_x)))),
                        _ => None,
                    };
                    if let Some((p, b)) = test {
                        let cond: Expr = if name == "all" { parse_quote!(!(#b)) } else { parse_quote!(#b) };
                        new = Some((k, parse_quote!({ let mut vx_flag = #init; for #p in #recv { if #cond { vx_flag = #brk; break; } } vx_flag })));
                    }
                }
                ("find", 1) => {
                    let f: Option<(Pat, Expr)> = match unparen(&m.args[0]) {
                        Expr::Closure(c) if c.inputs.len() == 1 && !escapes(&c.body) => Some((untyped(&c.inputs[0]), (*c.body).clone())),
                        _ => None,
                    };
                    if let Some((p, b)) = f {
                        // the predicate sees a reference to the item
                        new = Some(("iter-find", parse_quote!({ let mut vx_found = ::core::option::Option::None; for vx_i in #recv { if match &vx_i { #p => #b } { vx_found = ::core::option::Option::Some(vx_i); break; } } vx_found })));
                    }
                }
                ("find_map", 1) => {
                    let f: Option<(Pat, Expr)> = match unparen(&m.args[0]) {
                        Expr::Closure(c) if c.inputs.len() == 1 && !escapes(&c.body) => Some((untyped(&c.inputs[0]), (*c.body).clone())),
                        Expr::Path(p) => Some((parse_quote!(vx_x), parse_quote!(#p(vx_x)))),
                        _ => None,
                    };
                    if let Some((p, b)) = f {
                        new = Some(("iter-find-map", parse_quote!({ let mut vx_found = ::core::option::Option::None; for #p in #recv { let vx_r = #b; if vx_r.is_some() { vx_found = vx_r; break; } } vx_found })));
                    }
                }
                _ => {}
            }
        }
        if let Some((k, n)) = new {
            *self.count.entry(k).or_default() += 1;
            *e = n;
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// Definitional unfolding of Option/Result combinators and of `map(..).collect()` (the receiver's
/// kind comes from the contract file; a wrong kind does not type-check)
pub struct Unfold<'a> {
    pub which: &'a [(String, String)],
    pub seen: BTreeMap<String, usize>,
    pub count: &'a mut BTreeMap<&'static str, usize>,
}
impl<'a> Unfold<'a> {
    fn fun(e: &Expr, n: usize) -> Option<(Vec<Pat>, Expr)> {
        match unparen(e) {
            Expr::Closure(c) if c.inputs.len() == n && !escapes(&c.body) => Some((c.inputs.iter().map(untyped).collect(), (*c.body).clone())),
            Expr::Path(p) => match n {
                0 => Some((vec![], parse_quote!(#p()))),
                1 => Some((vec![parse_quote!(vx_x)], parse_quote!(#p(vx_x)))),
                _ => None,
            },
            _ => None,
        }
    }
}
impl<'a> Unfold<'a> {
    /// `R.filter(p).map(f).collect()` and its parts, as the `for` loop std defines it to be
    fn chain(r: &Expr, init: Expr, add: &dyn Fn(Expr) -> Expr, fallible: Option<()>, conv: Option<&Path>) -> Expr {
        let mut src = unparen(r).clone();
        let mut map: Option<(Pat, Expr)> = None;
        let mut filter: Option<(Pat, Expr)> = None;
        let part = |s: &Expr, n: &str| match s {
            Expr::MethodCall(q) if strip(&q.method.to_string()) == n && q.args.len() == 1 => match unparen(&q.args[0]) {
                // one `?` inside Ok(..) of a fallible collect
                Expr::Closure(c) if fallible.is_some() && n == "map" && c.inputs.len() == 1 && escapes(&c.body) => {
                    let mut b = (*c.body).clone();
                    if let Expr::Block(k) = &b { if let [Stmt::Expr(x, None)] = k.block.stmts.as_slice() { b = x.clone(); } }
                    match (&b, try_once(&b)) {
                        (Expr::Call(f), Some((_, rest))) if tstr(&f.func).ends_with("Ok") && !escapes(&rest) => Some(((untyped(&c.inputs[0]), b), unparen(&q.receiver).clone())),
                        _ => None,
                    }
                }
                a => Self::fun(a, 1).map(|(p, b)| ((p[0].clone(), b), unparen(&q.receiver).clone())),
            },
            _ => None,
        };
        if let Some((f, q)) = part(&src, "map") {
            map = Some(f);
            src = q;
        } else if let Expr::MethodCall(q) = &src {
            if strip(&q.method.to_string()) == "cloned" && q.args.is_empty() {
                map = Some((parse_quote!(vx_x), parse_quote!(::core::clone::Clone::clone(vx_x))));
                src = unparen(&q.receiver).clone();
            }
        }
        if let Some((f, q)) = part(&src, "filter") {
            filter = Some(f);
            src = q;
        }
        // an array written on the spot is given a name, so that it outlives the loop over it
        let mut named: Vec<Stmt> = vec![];
        if let Expr::MethodCall(q) = &mut src {
            if let Expr::Array(a) = unparen(&q.receiver).clone() {
                named.push(parse_quote!(let vx_a = #a;));
                *q.receiver = parse_quote!(vx_a);
            }
        }
        let (p, b) = map.unwrap_or_else(|| (parse_quote!(vx_x), parse_quote!(vx_x)));
        let put = match fallible {
            None => add(b),
            Some(()) => {
                let ok = add(parse_quote!(vx_o));
                // Ok(E[X?]) is X.map(|q| E[q]) when X? is the only exit
                let m: Expr = match try_once(&b) {
                    Some((x, e)) => parse_quote!(match #x { ::core::result::Result::Ok(vx_q) => #e, ::core::result::Result::Err(vx_e) => ::core::result::Result::Err(vx_e) }),
                    None => b,
                };
                parse_quote!(match #m { ::core::result::Result::Ok(vx_o) => #ok, ::core::result::Result::Err(vx_e) => { vx_f = ::core::option::Option::Some(vx_e); break; } })
            }
        };
        let l: Expr = match filter {
            None => parse_quote!(for #p in #src { #put }),
            Some((fp, fb)) => {
                // the predicate sees a reference to the item
                let t: Expr = parse_quote!(match &vx_i { #fp => #fb });
                parse_quote!(for vx_i in #src { if #t { match vx_i { #p => #put } } })
            }
        };
        let done: Expr = match conv {
            Some(p) => parse_quote!(#p(vx_c)),
            None => parse_quote!(vx_c),
        };
        match fallible {
            None => parse_quote!({ #(#named)* let mut vx_c = #init; #l #done }),
            Some(()) => parse_quote!({ #(#named)* let mut vx_c = #init; let mut vx_f = ::core::option::Option::None; #l
                match vx_f { ::core::option::Option::None => ::core::result::Result::Ok(#done), ::core::option::Option::Some(vx_e) => ::core::result::Result::Err(vx_e) } }),
        }
    }
}
/// the operand of the single `?` in `e`, and `e` with the `?` expression replaced by `vx_q`
fn try_once(e: &Expr) -> Option<(Expr, Expr)> {
    struct T(Vec<Expr>);
    impl VisitMut for T {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Try(t) = e {
                self.0.push((*t.expr).clone());
                *e = parse_quote!(vx_q);
                return;
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut t = T(vec![]);
    let mut n = e.clone();
    t.visit_expr_mut(&mut n);
    if t.0.len() == 1 { Some((t.0.pop().unwrap(), n)) } else { None }
}
impl<'a> VisitMut for Unfold<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let mut new: Option<Expr> = None;
        if let Expr::MethodCall(m) = e {
            let name = strip(&m.method.to_string()).to_string();
            let r = &m.receiver;
            let mut kinds: Vec<String> = vec![];
            if self.which.iter().any(|w| w.0.split('#').next() == Some(name.as_str())) {
                let me = self.seen.entry(name.clone()).or_default();
                let at = format!("{name}#{me}");
                *me += 1;
                kinds = self.which.iter().filter(|w| w.0 == name || w.0 == at).map(|w| w.1.clone()).collect();
            }
            for k in kinds {
                // `KIND:path` converts the collected items by `path` (the FromIterator impl of the target)
                let (k, conv): (&str, Option<Path>) = match k.split_once(':') {
                    Some((a, b)) => (a, Some(syn::parse_str(b.trim()).expect("path in @unfold"))),
                    None => (k.as_str(), None),
                };
                let conv = conv.as_ref();
                let a1 = m.args.first();
                new = match (name.as_str(), k, m.args.len()) {
                    ("map", "option", 1) => Self::fun(a1.unwrap(), 1).map(|(p, b)| { let p = &p[0]; parse_quote!(match #r { ::core::option::Option::Some(#p) => ::core::option::Option::Some(#b), ::core::option::Option::None => ::core::option::Option::None }) }),
                    ("map", "result", 1) => Self::fun(a1.unwrap(), 1).map(|(p, b)| { let p = &p[0]; parse_quote!(match #r { ::core::result::Result::Ok(#p) => ::core::result::Result::Ok(#b), ::core::result::Result::Err(vx_e) => ::core::result::Result::Err(vx_e) }) }),
                    ("map_err", "result", 1) => Self::fun(a1.unwrap(), 1).map(|(p, b)| { let p = &p[0]; parse_quote!(match #r { ::core::result::Result::Ok(vx_o) => ::core::result::Result::Ok(vx_o), ::core::result::Result::Err(#p) => ::core::result::Result::Err(#b) }) }),
                    ("and_then", "option", 1) => Self::fun(a1.unwrap(), 1).map(|(p, b)| { let p = &p[0]; parse_quote!(match #r { ::core::option::Option::Some(#p) => #b, ::core::option::Option::None => ::core::option::Option::None }) }),
                    ("and_then", "result", 1) => Self::fun(a1.unwrap(), 1).map(|(p, b)| { let p = &p[0]; parse_quote!(match #r { ::core::result::Result::Ok(#p) => #b, ::core::result::Result::Err(vx_e) => ::core::result::Result::Err(vx_e) }) }),
                    ("unwrap_or_else", "option", 1) => Self::fun(a1.unwrap(), 0).map(|(_, b)| parse_quote!(match #r { ::core::option::Option::Some(vx_o) => vx_o, ::core::option::Option::None => #b })),
                    ("ok_or_else", "option", 1) => Self::fun(a1.unwrap(), 0).map(|(_, b)| parse_quote!(match #r { ::core::option::Option::Some(vx_o) => ::core::result::Result::Ok(vx_o), ::core::option::Option::None => ::core::result::Result::Err(#b) })),
                    ("collect", "vec", 0) => Some(Self::chain(r, parse_quote!(::std::vec::Vec::new()), &|x| parse_quote!({ vx_c.push(#x); }), None, conv)),
                    // an adapter handed on to a consumer that takes every item (closures here have no effects)
                    // `cloned vec:path`: the clone of each item is `path`
                    ("cloned", "vec", 0) if conv.is_some() => { let c = conv.unwrap(); Some(Self::chain(r, parse_quote!(::std::vec::Vec::new()), &|x| parse_quote!({ vx_c.push(#c(#x)); }), None, None)) }
                    ("map", "vec", 1) | ("cloned", "vec", 0) => Some(Self::chain(&Expr::MethodCall(m.clone()), parse_quote!(::std::vec::Vec::new()), &|x| parse_quote!({ vx_c.push(#x); }), None, conv)),
                    ("collect", "hashmap", 0) => Some(Self::chain(r, parse_quote!(crate::vxp::hm_new()), &|x| parse_quote!({ crate::vxp::hm_add(&mut vx_c, #x); }), None, conv)),
                    ("collect", "result-vec", 0) => Some(Self::chain(r, parse_quote!(::std::vec::Vec::new()), &|x| parse_quote!({ vx_c.push(#x); }), Some(()), conv)),
                    ("collect", "result-hashmap", 0) => Some(Self::chain(r, parse_quote!(crate::vxp::hm_new()), &|x| parse_quote!({ crate::vxp::hm_add(&mut vx_c, #x); }), Some(()), conv)),
                    _ => None,
                };
                if new.is_some() {
                    break;
                }
            }
        }
        // `take_mut::take(PLACE, |p| B)`: the value is moved out, and what B makes of it is put there
        if let Expr::Call(c) = e {
            if let (Expr::Path(f), 2) = (unparen(&c.func), c.args.len()) {
                let f = tstr(f).replace(' ', "");
                let takes = f.trim_start_matches("::") == "take_mut::take" && self.which.iter().any(|w| w.0 == "take" && w.1 == "mut");
                if let (true, Expr::Path(t), Some((p, b))) = (takes, unparen(&c.args[0]), Self::fun(&c.args[1], 1)) {
                    let p = &p[0];
                    new = Some(parse_quote!({ let #p = crate::vxp::take_out(#t); let vx_n = #b; *#t = vx_n; }));
                }
            }
        }
        if let Some(n) = new {
            *self.count.entry("unfold").or_default() += 1;
            *e = n;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// redirect calls by name to the instantiated copy of the callee (arguments and order unchanged)
pub struct Redirect<'a> {
    pub calls: &'a [(String, Option<usize>, String)],
    pub seen: BTreeMap<String, usize>,
    pub hit: BTreeSet<usize>,
}
impl<'a> Redirect<'a> {
    fn target(&mut self, name: &str) -> Option<(u8, Expr)> {
        if !self.calls.iter().any(|c| c.0 == name) {
            return None;
        }
        let k = self.seen.entry(name.to_string()).or_default();
        let me = *k;
        *k += 1;
        for (i, (n, ix, t)) in self.calls.iter().enumerate() {
            if n == name && (ix.is_none() || *ix == Some(me)) {
                self.hit.insert(i);
                let (amp, t) = match (t.strip_prefix("&mut "), t.strip_prefix('&')) {
                    (Some(t), _) => (2u8, t),
                    (_, Some(t)) => (1, t),
                    _ => (0, t.as_str()),
                };
                return Some((amp, syn::parse_str(t).expect("path in @call")));
            }
        }
        None
    }
}
impl<'a> VisitMut for Redirect<'a> {
    /// a match arm that is just a variable (a deref coercion made explicit): calls named "arm"
    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        visit_mut::visit_arm_mut(self, a);
        if let Expr::Path(p) = unparen(&a.body) {
            if p.path.segments.len() == 1 && p.path.segments[0].ident.to_string().starts_with(char::is_lowercase) {
                if let Some((_, t)) = self.target("arm") {
                    let x = &a.body;
                    a.body = parse_quote!(#t(#x));
                }
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let mut new = None;
        match e {
            Expr::MethodCall(m) => {
                // functions passed by path
                for a in m.args.iter_mut() {
                    if let Expr::Path(p) = unparen(a) {
                        if p.path.segments.len() >= 2 {
                            let n = strip(&p.path.segments.last().unwrap().ident.to_string()).to_string();
                            if let Some((0, t)) = self.target(&n) {
                                *a = t;
                            }
                        }
                    }
                }
                let n = strip(&m.method.to_string()).to_string();
                if let Some((amp, t)) = self.target(&n) {
                    let (r, a) = (&m.receiver, &m.args);
                    new = Some(match amp { 2 => parse_quote!(#t(&mut #r, #a)), 1 => parse_quote!(#t(&#r, #a)), _ => parse_quote!(#t(#r, #a)) });
                }
            }
            Expr::Reference(r) => {
                // `&x[a..]`, `&x[..b]`: calls named "[a..]", "[..b]"
                if let Expr::Index(ix) = unparen(&r.expr) {
                    if let Expr::Range(rg) = unparen(&ix.index) {
                        let x = &ix.expr;
                        match (&rg.start, &rg.end) {
                            (Some(a), None) => {
                                if let Some((_, t)) = self.target("[a..]") {
                                    new = Some(parse_quote!(#t(#x, #a)));
                                }
                            }
                            (None, Some(b)) => {
                                if let Some((_, t)) = self.target("[..b]") {
                                    new = Some(parse_quote!(#t(#x, #b)));
                                }
                            }
                            _ => {}
                        }
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = unparen(&c.func) {
                    let n = strip(&p.path.segments.last().unwrap().ident.to_string()).to_string();
                    if let Some((_, t)) = self.target(&n) {
                        let a = &c.args;
                        new = Some(parse_quote!(#t(#a)));
                    }
                }
            }
            _ => {}
        }
        if let Some(n) = new {
            *e = n;
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// instantiate type parameters / `Self` / `self` in a lifted body
pub struct TySubst {
    pub map: Vec<(String, Type)>,
}
impl TySubst {
    fn full(&self, p: &Path) -> Option<Type> {
        if p.segments.len() < 2 {
            return None;
        }
        let k = p.segments.iter().map(|s| strip(&s.ident.to_string()).to_string()).collect::<Vec<_>>().join("::");
        self.map.iter().find(|x| x.0 == k).map(|x| x.1.clone())
    }
}
impl VisitMut for TySubst {
    /// the type a variable is declared with: named "let VARIABLE"
    fn visit_pat_type_mut(&mut self, p: &mut PatType) {
        visit_mut::visit_pat_type_mut(self, p);
        if let Pat::Ident(i) = &*p.pat {
            let k = format!("let {}", strip(&i.ident.to_string()));
            if let Some((_, t)) = self.map.iter().find(|x| x.0 == k) {
                *p.ty = t.clone();
            }
        }
    }
    fn visit_expr_struct_mut(&mut self, e: &mut ExprStruct) {
        let one = if e.path.segments.len() == 1 && e.path.segments[0].arguments.is_none() {
            let n = e.path.segments[0].ident.to_string();
            self.map.iter().find(|x| x.0 == strip(&n)).map(|x| x.1.clone())
        } else {
            None
        };
        if let Some(Type::Path(t)) = self.full(&e.path).or(one) {
            let mut t = t.path;
            for s in t.segments.iter_mut() {
                s.arguments = PathArguments::None;
            }
            e.path = t;
        }
        visit_mut::visit_expr_struct_mut(self, e);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 1 && p.path.segments[0].arguments.is_none() {
                let n = p.path.segments[0].ident.to_string();
                if let Some((_, r)) = self.map.iter().find(|x| x.0 == strip(&n)) {
                    *t = r.clone();
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 1 && p.path.segments[0].ident == "self" {
            p.path.segments[0].ident = id("vx_self");
            return;
        }
        // T::method, Self::method, Self::Variant
        if p.qself.is_none() && p.path.segments.len() >= 2 {
            let n = p.path.segments[0].ident.to_string();
            if let Some((_, r)) = self.map.iter().find(|x| x.0 == strip(&n)) {
                if let Type::Path(rp) = r {
                    let mut segs: Vec<PathSegment> = rp.path.segments.iter().cloned().collect();
                    // generic arguments in expression position need a turbofish
                    for s in segs.iter_mut() {
                        if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                            a.colon2_token = Some(Default::default());
                        }
                    }
                    segs.extend(p.path.segments.iter().skip(1).cloned());
                    p.path.segments = segs.into_iter().collect();
                    p.path.leading_colon = rp.path.leading_colon;
                }
            }
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
