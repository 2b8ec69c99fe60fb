//! vx: take the macro-expanded text of the real crate, resolve hygiene, apply
//! the listed mechanical desugarings, splice contracts in, print one file.
//!
//! usage: vx EXPANDED CONTRACT_DIR PRELUDE_DIR OUT.rs OUT.map
mod lexhy;
mod print;
mod vc;
mod xform;

use proc_macro2::{Ident, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;
use vc::*;
use xform::*;

struct FnInfo {
    path: String,
    idx: usize,
    contract: bool,
    trusted: bool,
    shape: String,
    hash: u64,
    calls: String,
    lits: String,
}

/// literals of a body, as hints for the search of failing inputs
#[derive(Default)]
struct Lits(std::collections::BTreeSet<String>);
impl<'ast> Visit<'ast> for Lits {
    fn visit_lit(&mut self, l: &'ast Lit) {
        let hex = |b: &[u8]| b.iter().map(|b| format!("{b:02x}")).collect::<String>();
        match l {
            Lit::Int(i) => {
                self.0.insert(format!("i{}", i.base10_digits()));
            }
            Lit::Float(f) => {
                self.0.insert(format!("s{}", hex(f.base10_digits().as_bytes())));
            }
            Lit::Char(c) => {
                self.0.insert(format!("s{}", hex(c.value().to_string().as_bytes())));
            }
            Lit::Byte(b) => {
                self.0.insert(format!("s{}", hex(&[b.value() & 127])));
            }
            Lit::Str(t) if t.value().len() <= 40 => {
                self.0.insert(format!("s{}", hex(t.value().as_bytes())));
            }
            _ => {}
        }
    }
    // literal arguments inside macros that survived expansion are of no interest
    fn visit_macro(&mut self, _: &'ast Macro) {}
}

struct Ctx {
    demote: Vec<String>,
    drop: Vec<String>,
    vacuity: bool,
    c: Contracts,
    fns: Vec<FnInfo>,
    lost: Vec<String>,
    beta: Beta,
    unresolved: Vec<String>,
    used_types: Vec<String>,
    used_inj: Vec<String>,
    plain_only: bool,
}

fn toks(s: &str) -> TokenStream {
    match s.parse() {
        Ok(t) => t,
        Err(e) => {
            eprintln!("vx: cannot tokenize contract text: {e}\n---\n{s}\n---");
            std::process::exit(3)
        }
    }
}

/// a boxed iterator trait object becomes an opaque iterator over the same items
struct DynIter;
impl VisitMut for DynIter {
    fn visit_type_mut(&mut self, t: &mut Type) {
        syn::visit_mut::visit_type_mut(self, t);
        let Type::Path(p) = &*t else { return };
        let Some(last) = p.path.segments.last() else { return };
        if last.ident != "Box" {
            return;
        }
        let PathArguments::AngleBracketed(a) = &last.arguments else { return };
        let Some(GenericArgument::Type(Type::TraitObject(o))) = a.args.first() else { return };
        let (mut item, mut life) = (None, None);
        for b in &o.bounds {
            match b {
                TypeParamBound::Lifetime(l) => life = Some(l.clone()),
                TypeParamBound::Trait(tb) => {
                    if let Some(s) = tb.path.segments.last() {
                        if s.ident == "Iterator" {
                            if let PathArguments::AngleBracketed(a) = &s.arguments {
                                for g in &a.args {
                                    if let GenericArgument::AssocType(x) = g {
                                        item = Some(x.ty.clone());
                                    }
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        if let (Some(i), Some(l)) = (item, life) {
            *t = parse_quote!(crate::vxp::DynIter<#l, #i>);
        }
    }
}
/// text of everything that is not a function body: types, constants, impl headers, trait declarations
fn item_text(items: &[Item], out: &mut String) {
    for i in items {
        match i {
            Item::Fn(_) | Item::Use(_) | Item::Macro(_) => {}
            Item::Mod(m) => if let Some((_, c)) = &m.content { item_text(c, out) },
            Item::Impl(m) => {
                let mut h = m.clone();
                h.attrs.clear();
                h.items.retain(|x| !matches!(x, ImplItem::Fn(_)));
                out.push_str(&tstr(&h));
            }
            Item::Trait(t) => {
                let mut h = t.clone();
                for x in &mut h.items { if let TraitItem::Fn(f) = x { f.default = None } }
                out.push_str(&tstr(&h));
            }
            Item::Static(x) if x.ident == "CALLSITE" => {}
            x => out.push_str(&tstr(x)),
        }
    }
}

fn hash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// type rendering without lifetimes
fn ty_key<T: ToTokens>(t: &T) -> String {
    fn go(ts: TokenStream) -> TokenStream {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut out = TokenStream::new();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Punct(p) if p.as_char() == '\'' => {
                    i += 2;
                    if let Some(TokenTree::Punct(q)) = v.get(i) {
                        if q.as_char() == ',' {
                            i += 1;
                        }
                    }
                    continue;
                }
                TokenTree::Group(g) => out.extend([TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream())))]),
                t => out.extend([t.clone()]),
            }
            i += 1;
        }
        out
    }
    let s = tstr(&go(t.to_token_stream()));
    s.replace("<>", "").replace("< >", "")
}

struct Splice<'a> {
    fc: &'a FnContract,
    loops: usize,
    closures: usize,
    lost: Vec<String>,
    used_loops: usize,
    used_closures: usize,
    lits: TokenStream,
}
impl<'a> Splice<'a> {
    fn ghost(&self, key: &str) -> TokenStream {
        let mut t = TokenStream::new();
        for (k, b) in &self.fc.ghost {
            if k == key {
                t.extend(toks(b));
            }
        }
        t
    }
    fn body(&mut self, k: usize, b: &Block) -> TokenStream {
        let g = self.ghost(&format!("loop {k} start"));
        let l = &self.lits;
        let s = quote!(#l #g);
        let e = self.ghost(&format!("loop {k} end"));
        let st = &b.stmts;
        quote!({ #s #(#st)* #e })
    }
    fn around(&mut self, k: usize, l: TokenStream, unit: bool) -> Expr {
        let b = self.ghost(&format!("loop {k} before"));
        let a = self.ghost(&format!("loop {k} after"));
        if b.is_empty() && a.is_empty() {
            return Expr::Verbatim(l);
        }
        if unit || a.is_empty() {
            Expr::Verbatim(quote!({ #b #l #a }))
        } else {
            Expr::Verbatim(quote!({ #b let vx_l = #l; #a vx_l }))
        }
    }
    fn loop_spec(&mut self, k: usize) -> TokenStream {
        match self.fc.loops.get(&k) {
            Some(s) => {
                self.used_loops += 1;
                toks(s)
            }
            None => TokenStream::new(),
        }
    }
}
impl<'a> VisitMut for Splice<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Loop(_) => {
                let k = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_mut(self, e);
                if let Expr::Loop(l) = e {
                    let spec = self.loop_spec(k);
                    let b = self.body(k, &l.body);
                    let lab = &l.label;
                    *e = self.around(k, quote!(#lab loop #spec #b), false);
                }
            }
            Expr::While(_) => {
                let k = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_mut(self, e);
                if let Expr::While(l) = e {
                    let spec = self.loop_spec(k);
                    let b = self.body(k, &l.body);
                    let lab = &l.label;
                    let c = &l.cond;
                    *e = self.around(k, quote!(#lab while #c #spec #b), true);
                }
            }
            Expr::ForLoop(_) => {
                let k = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_mut(self, e);
                if let Expr::ForLoop(l) = e {
                    let spec = self.loop_spec(k);
                    let b = self.body(k, &l.body);
                    let lab = &l.label;
                    let p = &l.pat;
                    let it = &l.expr;
                    let gi = Ident::new(&format!("vx_it{k}"), Span::call_site());
                    *e = self.around(k, quote!(#lab for #p in #gi: #it #spec #b), true);
                }
            }
            Expr::Closure(_) => {
                let k = self.closures;
                self.closures += 1;
                visit_mut::visit_expr_mut(self, e);
                if let Expr::Closure(c) = e {
                    if let Some((h, s)) = self.fc.closures.get(&k) {
                        self.used_closures += 1;
                        let mut h = h.clone();
                        let mut s = s.clone();
                        for (n, p) in c.inputs.iter().enumerate() {
                            let p = match p {
                                Pat::Type(t) => (*t.pat).clone(),
                                p => p.clone(),
                            };
                            h = h.replace(&format!("${n}"), &tstr(&p));
                            s = s.replace(&format!("${n}"), &tstr(&p));
                        }
                        let (h, s) = (toks(&h), toks(&s));
                        let b = &c.body;
                        let mv = &c.capture;
                        let mut own = StrLits::default();
                        own.visit_expr(b);
                        let _ = &own;
                        let lits = self.lits.clone();
                        let g = self.ghost(&format!("closure {k}"));
                        *e = Expr::Verbatim(quote!(#mv #h #s { #lits #g #b }));
                    }
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

impl Ctx {
    fn norm_fn(&mut self, sig: &mut Signature, block: &mut Block, path: &str) {
        let before = block.clone();
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.beta.visit_block_mut(block))).is_err() { *block = before }
        Shorthand.visit_block_mut(block);
        let mut b = Binders::default();
        for i in &sig.inputs {
            b.visit_fn_arg(i);
        }
        b.visit_block(block);
        let mut r = Rename::from(&b);
        r.visit_signature_mut(sig);
        r.visit_block_mut(block);
        for u in r.unresolved {
            self.unresolved.push(format!("{path}: {u}"));
        }
    }

    fn info(&mut self, path: &str, sig: &Signature, block: &Block, contract: bool, trusted: bool) -> usize {
        let mut sh = Shape::default();
        sh.visit_block(block);
        let idx = self.fns.len();
        let t = format!("{}{}", tstr(sig), tstr(block));
        self.fns.push(FnInfo {
            path: path.to_string(),
            idx,
            contract,
            trusted,
            shape: format!("{}/{}", sh.loops, sh.closures),
            hash: hash(&t),
            calls: sh.calls.into_iter().collect::<Vec<_>>().join(","),
            lits: {
                let mut l = Lits::default();
                l.visit_block(block);
                l.0.into_iter().collect::<Vec<_>>().join(",")
            },
        });
        idx
    }

    /// returns (verus tokens, true) or (plain tokens, false); `extra` gets outlined sibling fns
    fn emit_fn(&mut self, path: &str, attrs: &[Attribute], vis: &Visibility, sig: &Signature, block: &Block, def: bool, extra: &mut Vec<(String, Signature, Block)>, in_trait_impl: bool) -> (TokenStream, bool) {
        let mut sig = sig.clone();
        let mut block = block.clone();
        if !extra.iter().any(|_| false) {
            self.norm_fn(&mut sig, &mut block, path);
        }
        self.emit_norm(path, attrs, vis, sig, block, def, extra, in_trait_impl)
    }

    /// a function a rewrite cannot take is left out: first with its contract assumed, then without
    fn emit_norm(&mut self, path: &str, attrs: &[Attribute], vis: &Visibility, sig: Signature, block: Block, def: bool, extra: &mut Vec<(String, Signature, Block)>, in_trait_impl: bool) -> (TokenStream, bool) {
        for step in 0..3 {
            if step == 1 { self.demote.push(path.to_string()) }
            if step == 2 { self.drop.push(path.to_string()) }
            let (n, l, x) = (self.fns.len(), self.lost.len(), extra.len());
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.emit_once(path, attrs, vis, sig.clone(), block.clone(), def, extra, in_trait_impl)));
            match r {
                Ok(t) => return t,
                Err(_) => {
                    self.fns.truncate(n);
                    self.lost.truncate(l);
                    extra.truncate(x);
                    self.lost.push(format!("{path}: a rewrite does not apply to the current source"));
                }
            }
        }
        panic!("vx: cannot print {path}")
    }

    fn emit_once(&mut self, path: &str, attrs: &[Attribute], vis: &Visibility, mut sig: Signature, mut block: Block, def: bool, extra: &mut Vec<(String, Signature, Block)>, in_trait_impl: bool) -> (TokenStream, bool) {
        let mut fc = if self.plain_only { None } else { self.c.fns.get(path).cloned() };
        if self.drop.iter().any(|d| d == path) {
            if fc.is_some() {
                self.c.fns[path].used.set(true);
            }
            fc = None;
        }
        if self.demote.iter().any(|d| d == path) {
            if let Some(f) = fc.as_mut() {
                f.trusted = true;
                f.loops.clear();
                f.ghost.clear();
                f.closures.clear();
                f.outline.clear();
                f.attrs.retain(|a| a != "verifier::external_body");
                f.attrs.push("verifier::external_body".into());
            }
        }
        let defk = if def { quote!(default) } else { quote!() };
        let mut attrs: Vec<Attribute> = attrs.to_vec();
        {
            let mut r = Rename { map: BTreeMap::new(), unresolved: Default::default() };
            for a in attrs.iter_mut() {
                r.visit_attribute_mut(a);
            }
        }
        if fc.is_some() {
            // `_` parameters get a name: verus! wants identifiers
            let mut opens: Vec<Stmt> = vec![];
            for (n, a) in sig.inputs.iter_mut().enumerate() {
                if let FnArg::Typed(t) = a {
                    if matches!(&*t.pat, Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none()) {
                        continue;
                    }
                    let id = quote::format_ident!("vx_p{}", n);
                    let pat = std::mem::replace(&mut t.pat, Box::new(parse_quote!(#id)));
                    if !matches!(&*pat, Pat::Wild(_)) {
                        // a pattern moves into the body
                        opens.push(parse_quote!(let #pat = #id;));
                    }
                }
            }
            block.stmts.splice(0..0, opens);
        }
        let fc = match fc {
            Some(mut f) => {
                let pn: Vec<String> = sig.inputs.iter().map(|a| match a {
                    FnArg::Typed(t) => match &*t.pat {
                        Pat::Ident(i) => i.ident.to_string(),
                        p => tstr(p),
                    },
                    FnArg::Receiver(_) => "self".into(),
                }).collect();
                let sub = |s: &mut String| {
                    for (n, p) in pn.iter().enumerate() {
                        *s = s.replace(&format!("$p{n}"), p);
                    }
                };
                sub(&mut f.spec);
                f.loops.values_mut().for_each(|s| sub(s));
                f.ghost.iter_mut().for_each(|(_, s)| sub(s));
                f.closures.values_mut().for_each(|(a, s)| {
                    sub(a);
                    sub(s)
                });
                f
            }
            None => {
                let idx = self.info(path, &sig, &block, false, false);
                let (b, e) = marks(idx);
                let _ = in_trait_impl;
                return (quote!(#b #(#attrs)* #defk #vis #sig #block #e), false);
            }
        };
        self.c.fns[path].used.set(true);
        // what the source itself calls and how it branches, before any rewriting
        let mut src = Shape::default();
        src.visit_block(&block);
        // outlines
        for (var, name, header) in &fc.outline {
            match take_closure(&mut block, var) {
                Some(body) => {
                    let f: ItemFn = match parse2(toks(&format!("fn {name} {header} {{ }}"))) {
                        Ok(f) => f,
                        Err(e) => {
                            eprintln!("vx: bad @outline header in {path}: {e}");
                            std::process::exit(3)
                        }
                    };
                    let args: Vec<TokenStream> = f.sig.inputs.iter().map(|a| match a {
                        FnArg::Typed(t) => t.pat.to_token_stream(),
                        _ => quote!(self),
                    }).collect();
                    let nm = Ident::new(name, Span::call_site());
                    let call: Expr = parse_quote!(#nm(#(#args),*));
                    let nb: Block = match body {
                        Expr::Block(b) => b.block,
                        e => parse_quote!({ #e }),
                    };
                    let var_id = Ident::new(var, Span::call_site());
                    let mut sc = CallSubst { name: var_id, call, n: 0 };
                    sc.visit_block_mut(&mut block);
                    if sc.n != 1 {
                        self.lost.push(format!("{path}: outlined closure `{var}` called {} times", sc.n));
                    }
                    let parent = path.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default();
                    let np = if parent.is_empty() { name.clone() } else { format!("{parent}::{name}") };
                    extra.push((np, f.sig, nb));
                }
                None => self.lost.push(format!("{path}: closure `{var}` to outline not found")),
            }
        }
        if !fc.calls.is_empty() && !(fc.trusted && fc.lift.is_none()) {
            let mut r = Redirect { calls: &fc.calls, seen: Default::default(), hit: Default::default() };
            r.visit_block_mut(&mut block);
        }
        if !fc.trusted {
            IterLoops { count: &mut self.beta.count }.visit_block_mut(&mut block);
            if !fc.unfolds.is_empty() {
                Unfold { which: &fc.unfolds, seen: Default::default(), count: &mut self.beta.count }.visit_block_mut(&mut block);
            }
        }
        let idx = self.info(path, &sig, &block, true, fc.trusted);
        {
            let f = self.fns.last_mut().unwrap();
            f.shape = format!("{};{}/{}", f.shape, src.loops, src.closures);
            f.calls = src.calls.into_iter().collect::<Vec<_>>().join(",");
        }
        if !fc.trusted {
            Panics(0).visit_block_mut(&mut block);
        }
        let mut lits = StrLits::default();
        lits.visit_block(&block);
        let lits = if fc.trusted || !fc.strlits {
            quote!()
        } else {
            let l = lits.1.iter().filter(|l| l.value().len() <= 40);
            quote!(#( proof { ::vstd::prelude::reveal_strlit(#l); } )*)
        };
        let bc = if fc.broadcast.is_empty() { quote!() } else { let t = toks(&fc.broadcast); quote!(broadcast use {#t};) };
        let lits = quote!(#bc #lits);
        let mut sp = Splice { fc: &fc, loops: 0, closures: 0, lost: vec![], used_loops: 0, used_closures: 0, lits: lits.clone() };
        sp.visit_block_mut(&mut block);
        if sp.used_loops != fc.loops.len() {
            self.lost.push(format!("{path}: contract has {} loop specs, function has {} loops", fc.loops.len(), sp.loops));
        }
        if sp.used_closures != fc.closures.len() {
            self.lost.push(format!("{path}: contract has {} closure specs, function has {} closures", fc.closures.len(), sp.closures));
        }
        let mut start = sp.ghost("start");
        if self.vacuity && !fc.trusted {
            // the contract must not be vacuous: this assertion has to fail
            start = quote!(proof { assert(false); });
        }
        let end = sp.ghost("end");
        let spec = toks(&fc.spec);
        let a2: Vec<TokenStream> = fc.attrs.iter().map(|a| { let t = toks(a); quote!(#[#t]) }).collect();
        let (cst, uns, nm, gen, inputs, wh) = (&sig.constness, &sig.unsafety, &sig.ident, &sig.generics, &sig.inputs, &sig.generics.where_clause);
        let gen_t = match &fc.generics {
            Some(g) => toks(g),
            None => {
                let mut g = gen.clone();
                g.where_clause = None;
                g.to_token_stream()
            }
        };
        let out = match (&sig.output, &fc.ret) {
            (ReturnType::Default, _) => quote!(),
            (ReturnType::Type(_, t), Some(r)) => {
                let r = Ident::new(r, Span::call_site());
                quote!(-> (#r: #t))
            }
            (ReturnType::Type(_, t), None) => quote!(-> #t),
        };
        let stmts = &block.stmts;
        let body = if end.is_empty() {
            quote!({ #lits #start #(#stmts)* })
        } else {
            quote!({ #lits #start let vx_ret = { #(#stmts)* }; #end vx_ret })
        };
        let (b, e) = marks(idx);
        (quote!(#b #(#a2)* #vis #cst #uns fn #nm #gen_t (#inputs) #out #wh #spec #body #e), true)
    }

    /// instantiated copies of a function, as free functions of the same module
    fn lifts(&mut self, src: &str, module: &str, ssig: &Signature, block: &Block) -> TokenStream {
        let mut out = TokenStream::new();
        if self.plain_only {
            return out;
        }
        let todo: Vec<(String, FnContract)> = self.c.fns.iter().filter(|(_, f)| f.lift.as_ref().map(|l| l.0 == src).unwrap_or(false)).map(|(k, f)| (k.clone(), f.clone())).collect();
        for (path, fc) in todo {
            let name = path.rsplit("::").next().unwrap().to_string();
            let want = if module.is_empty() { name.clone() } else { format!("{module}::{name}") };
            if want != path {
                self.lost.push(format!("{path}: lifted function must be named {want}"));
                continue;
            }
            let hdr = &fc.lift.as_ref().unwrap().1;
            let f: ItemFn = match parse2(toks(&format!("pub fn {name} {hdr} {{ }}"))) {
                Ok(f) => f,
                Err(e) => {
                    eprintln!("vx: bad @lift header in {path}: {e}");
                    std::process::exit(3)
                }
            };
            let mut sig = f.sig;
            let mut blk = block.clone();
            // parameter names follow the source
            for (a, b) in sig.inputs.iter_mut().zip(ssig.inputs.iter()) {
                if let (FnArg::Typed(a), FnArg::Typed(b)) = (a, b) {
                    a.pat = b.pat.clone();
                }
            }
            let map = fc.subst.iter().map(|(a, b)| (a.clone(), syn::parse_str::<Type>(b).unwrap_or_else(|e| { eprintln!("vx: bad @subst in {path}: {e}"); std::process::exit(3) }))).collect();
            self.norm_fn(&mut sig, &mut blk, &path);
            TySubst { map }.visit_block_mut(&mut blk);
            let mut extra = vec![];
            let (t, v) = self.emit_norm(&path, &[], &parse_quote!(pub), sig, blk, false, &mut extra, false);
            out.extend(if v { self.wrap(t) } else { t });
        }
        out
    }

    fn wrap(&self, t: TokenStream) -> TokenStream {
        quote!(::vstd::prelude::verus! { #t })
    }

    fn strip_rest<T: Clone>(&self, t: &T, f: impl Fn(&mut Rename, &mut T)) -> T {
        let mut t = t.clone();
        let mut r = Rename { map: BTreeMap::new(), unresolved: Default::default() };
        f(&mut r, &mut t);
        t
    }

    fn items(&mut self, items: &[Item], path: &str) -> TokenStream {
        let mut out = TokenStream::new();
        for it in items {
            out.extend(self.item(it, path));
        }
        let inj = self.c.injects.get(path).cloned();
        if let (Some(s), false) = (inj, self.plain_only) {
            self.used_inj.push(path.to_string());
            let t = toks(&s);
            out.extend(self.wrap(t));
        }
        out
    }

    fn item(&mut self, it: &Item, path: &str) -> TokenStream {
        let join = |n: &str| if path.is_empty() { n.to_string() } else { format!("{path}::{n}") };
        match it {
            Item::Macro(m) => {
                // macro_rules definitions are already expanded: drop
                let _ = m;
                quote!()
            }
            Item::Mod(m) if m.content.is_some() => {
                let name = strip(&m.ident.to_string()).to_string();
                let p = join(&name);
                let nm = Ident::new(&name, Span::call_site());
                let vis = self.strip_rest(&m.vis, |r, v| r.visit_visibility_mut(v));
                let inner = self.items(&m.content.as_ref().unwrap().1, &p);
                let us = if self.plain_only { quote!() } else { quote!(#[allow(unused_imports)] use vstd::prelude::*; #[allow(unused_imports)] use crate::vxp::*;) };
                quote!(#vis mod #nm { #us #inner })
            }
            Item::Fn(f) => {
                let mut f = f.clone();
                let name = strip(&f.sig.ident.to_string()).to_string();
                let p = join(&name);
                let mut extra = vec![];
                self.strip_attrs(&mut f.attrs);
                let vis = self.strip_rest(&f.vis, |r, v| r.visit_visibility_mut(v));
                let (t, v) = self.emit_fn(&p, &f.attrs, &vis, &f.sig, &f.block, false, &mut extra, false);
                let mut out = if v { self.wrap(t) } else { t };
                out.extend(self.lifts(&p, path, &f.sig, &f.block));
                for (np, sig, b) in extra {
                    let mut ex2 = vec![];
                    let (t, v) = self.emit_norm(&np, &[], &Visibility::Inherited, sig, b, false, &mut ex2, false);
                    out.extend(if v { self.wrap(t) } else { t });
                }
                out
            }
            Item::Impl(im) => {
                let mut im = im.clone();
                {
                    // strip hygiene from header only
                    let items = std::mem::take(&mut im.items);
                    let mut r = Rename { map: BTreeMap::new(), unresolved: Default::default() };
                    r.visit_item_impl_mut(&mut im);
                    im.items = items;
                }
                self.strip_attrs(&mut im.attrs);
                let key = match &im.trait_ {
                    Some((_, tr, _)) => join(&format!("<{} as {}>", ty_key(&im.self_ty), ty_key(tr))),
                    None => join(&ty_key(&im.self_ty)),
                };
                let any = !self.plain_only
                    && (self.c.impls.contains_key(&key)
                        || self.c.injects.contains_key(&key)
                        || im.items.iter().any(|i| matches!(i, ImplItem::Fn(f) if self.c.fns.contains_key(&format!("{}::{}", key, strip(&f.sig.ident.to_string()))))));
                let is_trait = im.trait_.is_some();
                let mut plain = TokenStream::new();
                let mut ver = TokenStream::new();
                let mut lifted = TokenStream::new();
                for ii in &im.items {
                    match ii {
                        ImplItem::Fn(f) => {
                            let name = strip(&f.sig.ident.to_string()).to_string();
                            let p = format!("{key}::{name}");
                            let mut extra = vec![];
                            let vis = self.strip_rest(&f.vis, |r, v| r.visit_visibility_mut(v));
                            let mut at = f.attrs.clone();
                            self.strip_attrs(&mut at);
                            let (t, v) = self.emit_fn(&p, &at, &vis, &f.sig, &f.block, f.defaultness.is_some(), &mut extra, is_trait);
                            lifted.extend(self.lifts(&p, path, &f.sig, &f.block));
                            if v {
                                ver.extend(t)
                            } else if is_trait && any {
                                ver.extend(quote!(#[verifier::external_body] #t))
                            } else {
                                plain.extend(t)
                            }
                            for (np, sig, b) in extra {
                                let mut ex2 = vec![];
                                let (t, v) = self.emit_norm(&np, &[], &Visibility::Inherited, sig, b, false, &mut ex2, false);
                                if v {
                                    ver.extend(t)
                                } else {
                                    plain.extend(t)
                                }
                            }
                        }
                        other => {
                            let o = self.strip_rest(other, |r, v| r.visit_impl_item_mut(v));
                            if is_trait && any {
                                ver.extend(o.to_token_stream())
                            } else {
                                plain.extend(o.to_token_stream())
                            }
                        }
                    }
                }
                if let (Some(s), true) = (self.c.injects.get(&key), any) {
                    ver.extend(toks(s));
                    self.used_inj.push(key.clone());
                }
                if any {
                    self.c.impls.insert(key.clone(), "used".into());
                }
                let (attrs, def, uns, gen, st, wh) = (&im.attrs, &im.defaultness, &im.unsafety, &im.generics, &im.self_ty, &im.generics.where_clause);
                let mut g2 = gen.clone();
                g2.where_clause = None;
                let tr = match &im.trait_ {
                    Some((b, p, f)) => quote!(#b #p #f),
                    None => quote!(),
                };
                let hd = quote!(#(#attrs)* #def #uns impl #g2 #tr #st #wh);
                let mut out = lifted;
                if is_trait {
                    if any {
                        out.extend(self.wrap(quote!(#hd { #ver })));
                    } else {
                        out.extend(quote!(#hd { #plain }));
                    }
                } else {
                    if !plain.is_empty() || ver.is_empty() {
                        out.extend(quote!(#hd { #plain }));
                    }
                    if !ver.is_empty() {
                        out.extend(self.wrap(quote!(#hd { #ver })));
                    }
                }
                out
            }
            Item::Trait(t) => {
                let name = strip(&t.ident.to_string()).to_string();
                let p = join(&name);
                let want = !self.plain_only && self.c.types.contains_key(&p);
                let mut t2 = t.clone();
                let items = std::mem::take(&mut t2.items);
                let mut r = Rename { map: BTreeMap::new(), unresolved: Default::default() };
                r.visit_item_trait_mut(&mut t2);
                self.strip_attrs(&mut t2.attrs);
                let mut body = TokenStream::new();
                let mut lifted = TokenStream::new();
                for ti in &items {
                    match ti {
                        TraitItem::Fn(f) => {
                            let n = strip(&f.sig.ident.to_string()).to_string();
                            let fp = format!("{p}::{n}");
                            let mut f2 = f.clone();
                            self.strip_attrs(&mut f2.attrs);
                            if let Some(b) = &f.default {
                                let mut extra = vec![];
                                let (t, v) = self.emit_fn(&fp, &f2.attrs, &Visibility::Inherited, &f.sig, b, false, &mut extra, false);
                                if want && !v {
                                    body.extend(quote!(#[verifier::external_body]));
                                }
                                body.extend(t);
                                lifted.extend(self.lifts(&fp, path, &f.sig, b));
                            } else {
                                let mut sig = f.sig.clone();
                                let mut blk: Block = parse_quote!({});
                                self.norm_fn(&mut sig, &mut blk, &fp);
                                match self.c.fns.get(&fp) {
                                    Some(fc) if want => {
                                        fc.used.set(true);
                                        let mut spec = fc.spec.clone();
                                        for (n, a) in sig.inputs.iter().enumerate() {
                                            let nm = match a {
                                                FnArg::Typed(t) => tstr(&t.pat),
                                                FnArg::Receiver(_) => "self".into(),
                                            };
                                            spec = spec.replace(&format!("$p{n}"), &nm);
                                        }
                                        let spec = toks(&spec);
                                        let (nm, inputs, wh) = (&sig.ident, &sig.inputs, &sig.generics.where_clause);
                                        let mut g = sig.generics.clone();
                                        g.where_clause = None;
                                        let out = match (&sig.output, &fc.ret) {
                                            (ReturnType::Default, _) => quote!(),
                                            (ReturnType::Type(_, t), Some(r)) => {
                                                let r = Ident::new(r, Span::call_site());
                                                quote!(-> (#r: #t))
                                            }
                                            (ReturnType::Type(_, t), None) => quote!(-> #t),
                                        };
                                        let a2: Vec<TokenStream> = fc.attrs.iter().map(|a| { let t = toks(a); quote!(#[#t]) }).collect();
                                        body.extend(quote!(#(#a2)* fn #nm #g (#inputs) #out #wh #spec;));
                                    }
                                    _ => body.extend(quote!(#sig;)),
                                }
                            }
                        }
                        o => body.extend(self.strip_rest(o, |r, v| r.visit_trait_item_mut(v)).to_token_stream()),
                    }
                }
                if want {
                    self.used_types.push(p.clone());
                    if let Some(s) = self.c.injects.get(&p) {
                        self.used_inj.push(p.clone());
                        body.extend(toks(s));
                    }
                }
                let (attrs, vis, uns, nm, wh, sup) = (&t2.attrs, &t2.vis, &t2.unsafety, &t2.ident, &t2.generics.where_clause, &t2.supertraits);
                let mut g = t2.generics.clone();
                g.where_clause = None;
                let col = if sup.is_empty() { quote!() } else { quote!(: #sup) };
                let a2 = self.type_attrs(&p);
                let tt = quote!(#(#a2)* #(#attrs)* #vis #uns trait #nm #g #col #wh { #body });
                let mut tt = if want { self.wrap(tt) } else { tt };
                tt.extend(lifted);
                tt
            }
            other => {
                let mut o = self.strip_rest(other, |r, v| r.visit_item_mut(v));
                AttrClean.visit_item_mut(&mut o);
                let name = match &o {
                    Item::Struct(s) => Some(s.ident.to_string()),
                    Item::Enum(s) => Some(s.ident.to_string()),
                    Item::Const(s) => Some(s.ident.to_string()),
                    Item::Type(s) => Some(s.ident.to_string()),
                    Item::Static(s) => Some(s.ident.to_string()),
                    _ => None,
                };
                if let (Some(n), false) = (name, self.plain_only) {
                    let p = join(&n);
                    if self.c.types.contains_key(&p) {
                        self.used_types.push(p.clone());
                        let a = self.type_attrs(&p);
                        if let Item::Static(st) = &o {
                            let mut ty = (*st.ty).clone();
                            if let Type::Reference(r) = &mut ty {
                                if r.lifetime.is_none() {
                                    r.lifetime = Some(Lifetime::new("'static", Span::call_site()));
                                }
                            }
                            let (vis, nm, ex) = (&st.vis, &st.ident, &st.expr);
                            return self.wrap(quote!(#(#a)* #vis exec static #nm: #ty ensures #nm == #ex { #ex }));
                        }
                        // contracts name the fields: visibility is widened in the extracted copy
                        let mut o = o.clone();
                        if self.c.types[&p].iter().any(|a| a == "dyn") {
                            DynIter.visit_item_mut(&mut o);
                        }
                        match &mut o {
                            Item::Struct(s) => {
                                s.vis = parse_quote!(pub);
                                for f in s.fields.iter_mut() {
                                    f.vis = parse_quote!(pub);
                                }
                            }
                            Item::Enum(s) => s.vis = parse_quote!(pub),
                            _ => {}
                        }
                        return self.wrap(quote!(#(#a)* #o));
                    }
                }
                o.to_token_stream()
            }
        }
    }
    fn type_attrs(&self, p: &str) -> Vec<TokenStream> {
        if self.plain_only {
            return vec![];
        }
        self.c.types.get(p).map(|v| v.iter().filter(|a| *a != "dyn").map(|a| { let t = toks(a); quote!(#[#t]) }).collect()).unwrap_or_default()
    }
    fn strip_attrs(&self, a: &mut Vec<Attribute>) {
        AttrClean.visit_attributes_mut(a);
        let mut r = Rename { map: BTreeMap::new(), unresolved: Default::default() };
        for x in a.iter_mut() {
            r.visit_attribute_mut(x);
        }
    }
}

fn marks(i: usize) -> (Ident, Ident) {
    (Ident::new(&format!("__vx_b_{i}"), Span::call_site()), Ident::new(&format!("__vx_e_{i}"), Span::call_site()))
}

struct CallSubst {
    name: Ident,
    call: Expr,
    n: usize,
}
impl VisitMut for CallSubst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if p.path.is_ident(&self.name) && c.args.is_empty() {
                    *e = self.call.clone();
                    self.n += 1;
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// remove `let <var> = || [-> T] BODY;` and return BODY
fn take_closure(b: &mut Block, var: &str) -> Option<Expr> {
    struct T<'a>(&'a str, Option<Expr>, Vec<Vec<Stmt>>);
    impl<'a> VisitMut for T<'a> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let uses: Vec<Stmt> = b.stmts.iter().filter(|s| matches!(s, Stmt::Item(Item::Use(_)))).cloned().collect();
            self.2.push(uses);
            let mut k = 0;
            while k < b.stmts.len() {
                let mut hit = None;
                if let Stmt::Local(l) = &b.stmts[k] {
                    if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
                        if p.ident == self.0 {
                            if let Expr::Closure(c) = &*i.expr {
                                if c.inputs.is_empty() {
                                    // the imports in scope at the closure go with it
                                    let body = &c.body;
                                    let (mut seen, mut us) = (Vec::new(), Vec::new());
                                    for u in self.2.iter().flatten() {
                                        let t = quote!(#u).to_string();
                                        if !seen.contains(&t) {
                                            seen.push(t);
                                            us.push(u.clone());
                                        }
                                    }
                                    hit = Some(parse_quote!({ #(#us)* #body }));
                                }
                            }
                        }
                    }
                }
                if hit.is_some() && self.1.is_none() {
                    self.1 = hit;
                    b.stmts.remove(k);
                    continue;
                }
                k += 1;
            }
            visit_mut::visit_block_mut(self, b);
            self.2.pop();
        }
    }
    let mut t = T(var, None, vec![]);
    t.visit_block_mut(b);
    t.1
}

fn read_dir_sorted(d: &str, ext: &str) -> Vec<(String, String)> {
    let mut v: Vec<_> = std::fs::read_dir(d).map(|r| r.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_else(|_| vec![]);
    v.sort();
    v.into_iter()
        .filter(|p: &std::path::PathBuf| p.extension().map(|x| x == ext).unwrap_or(false))
        .map(|p| (p.file_name().unwrap().to_string_lossy().to_string(), std::fs::read_to_string(&p).unwrap().replace("r#type", "type_r")))
        .collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        eprintln!("usage: vx EXPANDED CONTRACT_DIR OUT.rs OUT.map [--plain]");
        std::process::exit(3);
    }
    let plain = a.iter().any(|x| x == "--plain");
    let text = std::fs::read_to_string(&a[1]).expect("read expanded");
    // raw identifiers are not accepted by the back end: alpha-renamed everywhere
    let t1 = lexhy::run(&text).replace("r#type", "type_r");
    let mut file = match parse_file(&t1) {
        Ok(f) => f,
        Err(e) => {
            let lc = e.span().start();
            eprintln!("vx: cannot parse expanded source: {e} at {}:{}", lc.line, lc.column);
            std::fs::write(format!("{}.stageA", a[3]), &t1).ok();
            std::process::exit(3)
        }
    };
    let items_hash = {
        let mut t = String::new();
        item_text(&file.items, &mut t);
        hash(&t)
    };
    AttrClean.visit_file_mut(&mut file);
    let mut c = Contracts::default();
    for (n, t) in read_dir_sorted(&a[2], "vc") {
        if let Err(e) = vc::parse(&mut c, &n, &t) {
            eprintln!("vx: {e}");
            std::process::exit(3);
        }
    }
    let prelude = read_dir_sorted(&a[2], "rs");
    let list = |k: &str| -> Vec<String> { a.iter().filter_map(|x| x.strip_prefix(k)).flat_map(|x| x.split(';').map(|s| s.to_string())).collect() };
    let mut ctx = Ctx { demote: list("--demote="), drop: list("--drop="), vacuity: a.iter().any(|x| x == "--vacuity"), c, fns: vec![], lost: vec![], beta: Beta { count: BTreeMap::new() }, unresolved: vec![], used_types: vec![], used_inj: vec![], plain_only: plain };
    let items: Vec<Item> = file
        .items
        .iter()
        .filter(|i| match i {
            // the prelude import of std is re-added in the header
            Item::ExternCrate(e) => strip(&e.ident.to_string()) != "std",
            Item::Use(u) => !tstr(u).contains("prelude__hy") && !u.attrs.iter().any(|a| strip(&tstr(a.path())).starts_with("prelude_import")),
            _ => true,
        })
        .cloned()
        .collect();
    let body = ctx.items(&items, "");
    let mut p = print::Printer::new();
    p.raw("#![feature(panic_internals, liballoc_internals, fmt_helpers_for_derive, structural_match, core_intrinsics, hint_must_use, print_internals, fmt_internals, rt, coverage_attribute, derive_clone_copy_internals, derive_eq_internals, trivial_clone, libstd_sys_internals, alloc_internals, allocator_api)]\n#![allow(warnings)]\n#![verifier::allow(undeclared_external_trait)]\nextern crate alloc;\n");
    if !plain {
        p.raw("use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vxp::*;\n");
    }
    p.ts(body);
    p.raw("\n");
    let mut files = vec![];
    if !plain {
        p.raw("#[allow(unused)] pub mod vxp {\nuse vstd::prelude::*;\n");
        for (n, t) in &prelude {
            let l0 = p.cur_line();
            p.raw(t);
            p.raw("\n");
            files.push((n.clone(), l0, p.cur_line()));
        }
        p.raw("}\n");
    }
    std::fs::write(&a[3], &p.out).unwrap();
    let mut m = String::new();
    for f in &ctx.fns {
        let kind = if f.trusted { "trusted" } else if f.contract { "contract" } else { "plain" };
        writeln!(m, "fn\t{}\t{}\t{}\t{}\t{}\t{:016x}\t{}\t{}", f.path, kind, p.begin.get(&f.idx).copied().unwrap_or(0), p.end.get(&f.idx).copied().unwrap_or(0), f.shape, f.hash, f.calls, f.lits).unwrap();
    }
    writeln!(m, "items\t{:016x}", items_hash).unwrap();
    for (n, l0, l1) in files {
        writeln!(m, "prelude\t{n}\t{l0}\t{l1}").unwrap();
    }
    for l in &ctx.lost {
        writeln!(m, "lost\t{l}").unwrap();
    }
    if !plain {
        for (k, f) in &ctx.c.fns {
            if !f.used.get() {
                writeln!(m, "lost\t{k}: function under contract not found").unwrap();
            }
        }
        for k in ctx.c.types.keys() {
            if !ctx.used_types.contains(k) {
                writeln!(m, "lost\t{k}: type under contract not found").unwrap();
            }
        }
        for k in ctx.c.injects.keys() {
            if !ctx.used_inj.contains(k) {
                writeln!(m, "lost\t{k}: injection target not found").unwrap();
            }
        }
    }
    for u in &ctx.unresolved {
        writeln!(m, "unresolved\t{u}").unwrap();
    }
    for (k, n) in &ctx.beta.count {
        writeln!(m, "rewrite\t{k}\t{n}").unwrap();
    }
    std::fs::write(&a[4], &m).unwrap();
}
