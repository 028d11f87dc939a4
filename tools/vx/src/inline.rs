//! Functions of the repository that have no contract are put in place of their calls.
//!
//! A call `f(a, b)` becomes a block that binds the parameters and has the body of `f`. Where the body can
//! leave `f` early (`?`, `return`) this is done only where leaving the caller is the same thing: under a `?`
//! of the caller with the same kind of error, or where the call is the caller's result. Everything else is
//! left as it is, and the call then has no contract (the verifier's answer is not used).
use proc_macro2::{Group, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct Helper {
    pub key: String,
    pub ty: Option<String>,
    pub sig: Signature,
    pub block: Block,
}

#[derive(Clone, Default)]
pub struct Helpers {
    /// by key: `Type::name` or `name`
    pub map: BTreeMap<String, Helper>,
    pub used: std::cell::RefCell<BTreeSet<String>>,
}

/// Names that the standard library's types have too: such a method is recognised on `self` only.
const COMMON: &[&str] = &[
    "len", "is_empty", "iter", "push", "pop", "get", "insert", "clone", "from", "into", "fmt", "next", "first", "last", "contains", "extend", "to_string",
    "as_str", "as_ref", "map", "unwrap", "expect", "iter_mut", "into_iter", "eq", "cmp", "default", "take", "replace", "remove", "as_mut", "ok", "err",
    "is_some", "is_none", "is_ok", "is_err", "and_then", "or_else", "parse", "chars", "bytes", "trim", "split", "find", "position", "any", "all", "filter",
    "collect", "peek", "nth", "to_owned", "to_vec", "starts_with", "ends_with", "strip_prefix", "count", "rev", "skip", "zip", "chain", "deref", "visit", "emit",
];

impl Helpers {
    pub fn add(&mut self, items: &[Item], known: &dyn Fn(&str, &str) -> bool) {
        for i in items {
            match i {
                Item::Fn(f) => self.put(None, &f.sig, &f.block, known),
                Item::Impl(im) if im.trait_.is_none() => {
                    let Type::Path(p) = &*im.self_ty else { continue };
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    for x in &im.items {
                        if let ImplItem::Fn(f) = x {
                            self.put(Some(n.clone()), &f.sig, &f.block, known);
                        }
                    }
                }
                _ => {}
            }
        }
    }
    fn put(&mut self, ty: Option<String>, sig: &Signature, block: &Block, known: &dyn Fn(&str, &str) -> bool) {
        let name = sig.ident.to_string();
        let key = match &ty {
            Some(t) => format!("{}::{}", t, name),
            None => name.clone(),
        };
        if known(&key, &name) || sig.asyncness.is_some() || sig.unsafety.is_some() {
            return;
        }
        let mut block = block.clone();
        local_closures(&mut block);
        normal_tail(&mut block);
        if let Some(t) = &ty {
            let t = format_ident!("{}", t);
            block = syn::parse2(rename(block.to_token_stream(), &|i| if i == "Self" { Some(quote! { #t }) } else { None })).unwrap_or(block);
        }
        self.map.insert(key.clone(), Helper { key, ty, sig: sig.clone(), block });
    }
    pub fn is_empty(&self) -> bool {
        self.map.is_empty()
    }
    pub fn inline_fn(&self, ty: &str, sig: &Signature, block: &mut Block) {
        if self.is_empty() {
            return;
        }
        let ret = match &sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => t.to_token_stream().to_string().replace(' ', ""),
        };
        let mut v = V { h: self, ty: ty.to_string(), ret, depth: 0, closure: 0 };
        v.tail_block(block);
    }
    pub fn inline_expr(&self, e: &mut Expr, ret: &str) {
        if self.is_empty() {
            return;
        }
        let mut v = V { h: self, ty: String::new(), ret: ret.replace(' ', ""), depth: 0, closure: 0 };
        v.tail(e);
    }
}

/// `let f = |a| body;` whose every use is a call: the body takes the place of the calls. Only where no name
/// that the body speaks of gets another meaning before the call.
pub fn local_closures(b: &mut Block) {
    struct L;
    impl VisitMut for L {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let mut i = 0;
            while i < b.stmts.len() {
                match one_closure(&b.stmts[i], &b.stmts[i + 1..]) {
                    Some(rest) => {
                        b.stmts.truncate(i);
                        b.stmts.extend(rest);
                    }
                    None => i += 1,
                }
            }
            visit_mut::visit_block_mut(self, b);
        }
    }
    L.visit_block_mut(b);
}
fn one_closure(s: &Stmt, rest: &[Stmt]) -> Option<Vec<Stmt>> {
    let Stmt::Local(l) = s else { return None };
    let Pat::Ident(name) = &l.pat else { return None };
    let init = l.init.as_ref()?;
    let Expr::Closure(c) = &*init.expr else { return None };
    if init.diverge.is_some() || name.by_ref.is_some() || c.capture.is_some() || c.asyncness.is_some() {
        return None;
    }
    let name = name.ident.to_string();
    let mut params = vec![];
    for p in &c.inputs {
        let (p, t) = match p {
            Pat::Type(t) => (&*t.pat, Some(&*t.ty)),
            p => (p, None),
        };
        match p {
            Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => params.push((p.clone(), i.ident.to_string(), t)),
            Pat::Wild(_) => params.push((p.clone(), String::new(), t)),
            _ => return None,
        }
    }
    let body: Block = match &*c.body {
        Expr::Block(b) => b.block.clone(),
        e => syn::parse_quote! { { #e } },
    };
    let l = leaves(&body);
    if l.q || l.ret {
        return None;
    }
    let whole: Block = syn::parse_quote! { { #(#rest)* } };
    let bound = binds(&whole);
    if bound.contains(&name) || idents(body.to_token_stream()).iter().any(|i| *i != "self" && !params.iter().any(|p| p.1 == *i) && bound.contains(i)) {
        return None;
    }
    struct C<'a> {
        name: &'a str,
        params: &'a [(Pat, String, Option<&'a Type>)],
        body: &'a Block,
        n: usize,
        bad: bool,
    }
    impl<'a> VisitMut for C<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            let Expr::Call(k) = &*e else { return };
            if !matches!(&*k.func, Expr::Path(p) if p.path.is_ident(self.name)) {
                return;
            }
            self.n += 1;
            if k.args.len() != self.params.len() {
                self.bad = true;
                return;
            }
            let mut lets = TokenStream::new();
            for (i, (a, (p, n, t))) in k.args.iter().zip(self.params).enumerate() {
                // an argument must not see the parameters bound before it
                let words = idents(a.to_token_stream());
                if self.params[..i].iter().any(|q| words.contains(&q.1)) {
                    self.bad = true;
                }
                let is_it = matches!(a, Expr::Path(q) if q.path.is_ident(n)) && !matches!(p, Pat::Ident(i) if i.mutability.is_some());
                if is_it {
                    continue;
                }
                lets.extend(match t {
                    Some(t) => quote! { let #p : #t = #a; },
                    None => quote! { let #p = #a; },
                });
            }
            let body = &self.body.stmts;
            *e = syn::parse_quote! { { #lets #(#body)* } };
        }
    }
    let all = idents_count(whole.to_token_stream(), &name);
    let mut whole = whole;
    let mut v = C { name: &name, params: &params, body: &body, n: 0, bad: false };
    v.visit_block_mut(&mut whole);
    if v.bad || v.n != all || v.n == 0 {
        return None;
    }
    Some(whole.stmts)
}
/// The words of a text, without fields and methods.
fn idents(ts: TokenStream) -> BTreeSet<String> {
    let out = std::cell::RefCell::new(BTreeSet::new());
    rename(ts, &|i| {
        out.borrow_mut().insert(i.to_string());
        None
    });
    out.into_inner()
}
fn idents_count(ts: TokenStream, name: &str) -> usize {
    let n = std::cell::Cell::new(0);
    rename(ts, &|i| {
        if i == name {
            n.set(n.get() + 1);
        }
        None
    });
    n.get()
}

fn rename(ts: TokenStream, f: &dyn Fn(&Ident) -> Option<TokenStream>) -> TokenStream {
    let mut out = TokenStream::new();
    let mut dot = false;
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                match if dot { None } else { f(&i) } {
                    Some(r) => out.extend(r),
                    None => out.extend([TokenTree::Ident(i)]),
                }
                dot = false;
            }
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), rename(g.stream(), f));
                n.set_span(g.span());
                out.extend([TokenTree::Group(n)]);
                dot = false;
            }
            TokenTree::Punct(p) => {
                // `..` is no field access
                dot = p.as_char() == '.' && !dot;
                out.extend([TokenTree::Punct(p)]);
            }
            t => {
                dot = false;
                out.extend([t]);
            }
        }
    }
    out
}

/// The names a block binds, and the words it has in string literals' braces.
fn binds(b: &Block) -> BTreeSet<String> {
    struct B(BTreeSet<String>);
    impl<'a> Visit<'a> for B {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.insert(p.ident.to_string());
            syn::visit::visit_pat_ident(self, p);
        }
        fn visit_macro(&mut self, m: &'a Macro) {
            let s = m.tokens.to_string();
            let mut rest = &s[..];
            while let Some(i) = rest.find('{') {
                rest = &rest[i + 1..];
                let w: String = rest.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                if !w.is_empty() {
                    self.0.insert(w);
                }
            }
            syn::visit::visit_macro(self, m);
        }
    }
    let mut v = B(BTreeSet::new());
    v.visit_block(b);
    v.0
}

#[derive(Default)]
struct Leaves {
    q: bool,
    ret: bool,
    /// a `return` of something else than `Err(..)` or `None`
    ret_value: bool,
}
fn leaves(b: &Block) -> Leaves {
    impl<'a> Visit<'a> for Leaves {
        fn visit_expr_try(&mut self, t: &'a ExprTry) {
            self.q = true;
            syn::visit::visit_expr_try(self, t);
        }
        fn visit_expr_return(&mut self, r: &'a ExprReturn) {
            self.ret = true;
            let fail = match r.expr.as_deref() {
                Some(Expr::Call(c)) => matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err")),
                Some(Expr::Path(p)) => p.path.is_ident("None"),
                _ => false,
            };
            if !fail {
                self.ret_value = true;
            }
            syn::visit::visit_expr_return(self, r);
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_macro(&mut self, m: &'a Macro) {
            fn has(ts: TokenStream, f: &dyn Fn(&TokenTree) -> bool) -> bool {
                ts.into_iter().any(|t| f(&t) || matches!(&t, TokenTree::Group(g) if has(g.stream(), f)))
            }
            if has(m.tokens.clone(), &|t| matches!(t, TokenTree::Punct(p) if p.as_char() == '?')) {
                self.q = true;
            }
            if has(m.tokens.clone(), &|t| matches!(t, TokenTree::Ident(i) if i == "return")) {
                self.ret = true;
                self.ret_value = true;
            }
        }
    }
    let mut l = Leaves::default();
    l.visit_block(b);
    l
}

/// The part of a result type that a `?` hands on.
fn failure(ret: &str) -> Option<String> {
    if let Some(r) = ret.strip_prefix("Option<") {
        let _ = r;
        return Some("Option".into());
    }
    let r = ret.strip_prefix("Result<").or_else(|| ret.strip_prefix("std::result::Result<"))?;
    let r = r.strip_suffix('>')?;
    let mut depth = 0;
    for (i, c) in r.char_indices() {
        match c {
            '<' | '(' | '[' => depth += 1,
            '>' | ')' | ']' => depth -= 1,
            ',' if depth == 0 => return Some(r[i + 1..].trim_end_matches(',').to_string()),
            _ => {}
        }
    }
    None
}

fn place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => place(&f.base),
        Expr::Paren(p) => place(&p.expr),
        _ => false,
    }
}

struct V<'a> {
    h: &'a Helpers,
    ty: String,
    ret: String,
    depth: usize,
    closure: usize,
}

enum Ctx {
    Plain,
    Try,
    Tail,
}

impl<'a> V<'a> {
    fn find(&self, e: &Expr) -> Option<(&'a Helper, Option<Expr>, Vec<Expr>)> {
        match e {
            Expr::Paren(p) => self.find(&p.expr),
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                if p.qself.is_some() {
                    return None;
                }
                let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let n = s.last()?;
                let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                let owner = if s.len() >= 2 { Some(s[s.len() - 2].clone()) } else { None };
                let h = match owner {
                    Some(o) if o.chars().next()?.is_uppercase() => {
                        let o = if o == "Self" { self.ty.clone() } else { o };
                        self.h.map.get(&format!("{}::{}", o, n))?
                    }
                    _ => self.h.map.get(n)?,
                };
                let recv = matches!(h.sig.inputs.first(), Some(FnArg::Receiver(_)));
                if args.len() != h.sig.inputs.len() {
                    return None;
                }
                let r = if recv { Some(args.remove(0)) } else { None };
                // `T::f(&x)`: the receiver is a reference already
                let r = r.map(|r| match r {
                    Expr::Reference(r) => *r.expr,
                    r => r,
                });
                Some((h, r, args))
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let is_self = matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self"));
                let h = match self.h.map.get(&format!("{}::{}", self.ty, n)) {
                    Some(h) if is_self => h,
                    _ => {
                        let mut c = self.h.map.values().filter(|h| h.ty.is_some() && h.sig.ident == n.as_str());
                        let h = c.next()?;
                        if c.next().is_some() || COMMON.contains(&n.as_str()) {
                            return None;
                        }
                        if is_self && !self.ty.is_empty() {
                            return None;
                        }
                        h
                    }
                };
                if !matches!(h.sig.inputs.first(), Some(FnArg::Receiver(_))) || h.sig.inputs.len() != m.args.len() + 1 {
                    return None;
                }
                Some((h, Some((*m.receiver).clone()), m.args.iter().cloned().collect()))
            }
            _ => None,
        }
    }
    /// The block to put in place of the call; its parts are not yet looked at.
    fn expand(&mut self, e: &Expr, ctx: Ctx) -> Option<Expr> {
        if self.depth > 6 {
            return None;
        }
        let (h, recv, args) = self.find(e)?;
        let l = leaves(&h.block);
        let hret = match &h.sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => t.to_token_stream().to_string().replace(' ', ""),
        };
        match ctx {
            Ctx::Plain if l.q || l.ret => return None,
            Ctx::Try if l.ret_value => return None,
            Ctx::Try if l.q || l.ret => {
                if self.closure == 0 && failure(&hret)? != failure(&self.ret)? {
                    return None;
                }
                failure(&hret)?;
            }
            Ctx::Tail if (l.q || l.ret) && hret != self.ret => return None,
            _ => {}
        }
        let mut block = h.block.clone();
        let bound = binds(&block);
        let mut lets = TokenStream::new();
        let mut lets2 = TokenStream::new();
        let mut subst: Vec<(String, TokenStream)> = vec![];
        let mut k = 0usize;
        if let Some(r) = recv {
            let Some(FnArg::Receiver(rc)) = h.sig.inputs.first() else { return None };
            if matches!(&r, Expr::Path(p) if p.path.is_ident("self")) {
            } else if place(&r) && rc.mutability.is_none() {
                let first = r.to_token_stream().into_iter().next()?.to_string();
                if bound.contains(&first) {
                    return None;
                }
                subst.push(("self".into(), quote! { (#r) }));
            } else {
                let amp = match (&rc.reference, &rc.mutability) {
                    (None, _) => quote! {},
                    (Some(_), None) => quote! { & },
                    (Some(_), Some(_)) => quote! { &mut },
                };
                let m = if rc.reference.is_none() { rc.mutability.to_token_stream() } else { quote! {} };
                let id = format_ident!("__recv{}", self.depth);
                lets.extend(quote! { let #m #id = #amp #r; });
                subst.push(("self".into(), quote! { #id }));
            }
        }
        let params: Vec<&PatType> = h.sig.inputs.iter().filter_map(|a| match a { FnArg::Typed(t) => Some(t), _ => None }).collect();
        for (p, a) in params.iter().zip(args) {
            k += 1;
            match &*p.pat {
                Pat::Ident(id) if id.mutability.is_none() && id.by_ref.is_none() => {
                    let n = id.ident.to_string();
                    let simple = match &a {
                        Expr::Path(x) => x.path.get_ident().map(|i| i == &n || !bound.contains(&i.to_string())).unwrap_or(false),
                        Expr::Lit(_) => true,
                        _ => false,
                    };
                    if simple && !bound.contains(&n) {
                        if a.to_token_stream().to_string() != n {
                            subst.push((n, a.to_token_stream()));
                        }
                        continue;
                    }
                }
                _ => {}
            }
            let t = format_ident!("__h{}_{}", self.depth, k);
            let is_mut_ref = matches!(&*p.ty, Type::Reference(r) if r.mutability.is_some());
            if is_mut_ref && matches!(&a, Expr::Path(_)) {
                lets.extend(quote! { let #t = &mut *#a; });
            } else {
                lets.extend(quote! { let #t = #a; });
            }
            let pat = &p.pat;
            if let Pat::Ident(id) = &**pat {
                let n = id.ident.to_string();
                if id.mutability.is_none() && id.by_ref.is_none() && !bound.contains(&n) {
                    subst.push((n, quote! { #t }));
                    continue;
                }
            }
            lets2.extend(quote! { let #pat = #t; });
        }
        if !subst.is_empty() {
            // field shorthands are written out first
            struct Short<'b>(&'b [(String, TokenStream)]);
            impl<'b> VisitMut for Short<'b> {
                fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
                    if f.colon_token.is_none() {
                        if let Member::Named(n) = &f.member {
                            if let Some((_, t)) = self.0.iter().find(|(p, _)| n == p) {
                                let t = t.clone();
                                f.colon_token = Some(Default::default());
                                f.expr = syn::parse_quote! { #t };
                                return;
                            }
                        }
                    }
                    // the name of the field is no use of the parameter
                    visit_mut::visit_expr_mut(self, &mut f.expr);
                }
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    if let Expr::Path(p) = e {
                        if let Some((_, t)) = p.path.get_ident().and_then(|i| self.0.iter().find(|(p, _)| i == p)) {
                            let t = t.clone();
                            *e = syn::parse_quote! { #t };
                            return;
                        }
                    }
                    visit_mut::visit_expr_mut(self, e);
                }
                fn visit_macro_mut(&mut self, m: &mut Macro) {
                    let s = self.0;
                    m.tokens = rename(m.tokens.clone(), &|i| s.iter().find(|(p, _)| i == p).map(|(_, t)| t.clone()));
                }
            }
            // a field value `p` under a colon
            let mut s = Short(&subst);
            s.visit_block_mut(&mut block);
        }
        if let Ctx::Try = ctx {
            unwrap_block(&mut block);
        }
        let stmts = &block.stmts;
        self.h.used.borrow_mut().insert(h.key.clone());
        let b: Expr = syn::parse2(quote! { { #lets #lets2 #(#stmts)* } }).ok()?;
        Some(b)
    }
    /// Does one of the values this can have come from a helper?
    fn tail_calls(&self, e: &Expr) -> bool {
        fn last(b: &Block) -> Option<&Expr> {
            match b.stmts.last() {
                Some(Stmt::Expr(e, None)) => Some(e),
                _ => None,
            }
        }
        match e {
            Expr::Paren(p) => self.tail_calls(&p.expr),
            Expr::Block(b) => b.label.is_none() && last(&b.block).map(|e| self.tail_calls(e)).unwrap_or(false),
            Expr::If(i) => last(&i.then_branch).map(|e| self.tail_calls(e)).unwrap_or(false) || i.else_branch.as_ref().map(|(_, e)| self.tail_calls(e)).unwrap_or(false),
            Expr::Match(m) => m.arms.iter().any(|a| self.tail_calls(&a.body)),
            Expr::Call(_) | Expr::MethodCall(_) => self.find(e).is_some(),
            _ => false,
        }
    }
    fn again(&mut self, e: &mut Expr, tail: bool) {
        self.depth += 1;
        if tail {
            self.tail(e);
        } else {
            self.visit_expr_mut(e);
        }
        self.depth -= 1;
    }
    fn tail_block(&mut self, b: &mut Block) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            match s {
                Stmt::Expr(e, None) if i + 1 == n => self.tail(e),
                s => self.visit_stmt_mut(s),
            }
        }
    }
    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) => self.tail_block(&mut b.block),
            Expr::Paren(p) => self.tail(&mut p.expr),
            Expr::If(i) => {
                self.visit_expr_mut(&mut i.cond);
                self.tail_block(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    self.tail(x);
                }
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    if let Some((_, g)) = &mut a.guard {
                        self.visit_expr_mut(g);
                    }
                    self.tail(&mut a.body);
                }
            }
            Expr::Return(r) if self.closure == 0 => {
                if let Some(x) = &mut r.expr {
                    self.tail(x);
                }
            }
            Expr::Call(_) | Expr::MethodCall(_) => {
                if let Some(mut n) = self.expand(e, Ctx::Tail) {
                    self.again(&mut n, true);
                    *e = n;
                } else {
                    visit_mut::visit_expr_mut(self, e);
                }
            }
            e => self.visit_expr_mut(e),
        }
    }
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        e => e,
    }
}

/// A function's result `I.collect::<Result<..>>()` as `Ok(I.collect()?)`, and `I.try_for_each(f)` as
/// `{ I.try_for_each(f)?; Ok(()) }`.
pub fn normal_tail(b: &mut Block) {
    let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() else { return };
    let e = match e {
        Expr::Return(r) => match &mut r.expr {
            Some(x) => &mut **x,
            None => return,
        },
        e => e,
    };
    if let Expr::MethodCall(m) = &*e {
        let c = e.clone();
        if m.method == "collect" && m.turbofish.as_ref().map(|t| t.to_token_stream().to_string().replace(' ', "").starts_with("::<Result<Vec<")).unwrap_or(false) {
            *e = syn::parse_quote! { Ok(#c?) };
        } else if m.method == "try_for_each" {
            *e = syn::parse_quote! { { #c?; Ok(()) } };
        }
    }
}

/// The value under a `?`: `Ok(v)` is v, `Err(e)` leaves, anything else is asked.
pub fn unwrap_block(b: &mut Block) {
    match b.stmts.last_mut() {
        Some(Stmt::Expr(e, None)) => unwrap_expr(e),
        _ => {}
    }
}
fn unwrap_expr(e: &mut Expr) {
    match e {
        Expr::Block(b) => unwrap_block(&mut b.block),
        Expr::Paren(p) => unwrap_expr(&mut p.expr),
        Expr::If(i) if i.else_branch.is_some() => {
            unwrap_block(&mut i.then_branch);
            unwrap_expr(&mut i.else_branch.as_mut().unwrap().1);
        }
        Expr::Match(m) => {
            for a in m.arms.iter_mut() {
                unwrap_expr(&mut a.body);
            }
        }
        Expr::Return(_) | Expr::Continue(_) | Expr::Break(_) => {}
        Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Ok") || p.path.is_ident("Some")) => {
            *e = c.args[0].clone();
        }
        Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err")) => {
            let c = c.clone();
            *e = syn::parse_quote! { return #c };
        }
        Expr::Path(p) if p.path.is_ident("None") => {
            *e = syn::parse_quote! { return None };
        }
        Expr::Macro(m) if ["panic", "unreachable", "unimplemented", "todo"].iter().any(|x| m.mac.path.is_ident(x)) => {}
        // `r.map(|_| ())`
        Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 && matches!(&m.args[0], Expr::Closure(c) if matches!(&*c.body, Expr::Tuple(t) if t.elems.is_empty()) && matches!(c.inputs.first(), Some(Pat::Wild(_)))) => {
            let r = m.receiver.clone();
            *e = syn::parse_quote! { { (#r)?; } };
        }
        o => {
            let c = o.clone();
            *o = syn::parse_quote! { (#c)? };
        }
    }
}

impl<'a> VisitMut for V<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            // `(if c { f() } else { g() })?`: the `?` goes to the branches
            if matches!(strip(&t.expr), Expr::If(_) | Expr::Match(_) | Expr::Block(_)) && self.tail_calls(&t.expr) {
                let mut n = (*t.expr).clone();
                unwrap_expr(&mut n);
                self.visit_expr_mut(&mut n);
                *e = n;
                return;
            }
            if let Some(mut n) = self.expand(&t.expr, Ctx::Try) {
                self.again(&mut n, false);
                *e = n;
                return;
            }
        }
        if let Expr::Return(_) = e {
            if self.closure == 0 {
                self.tail(e);
                return;
            }
        }
        if matches!(e, Expr::Call(_) | Expr::MethodCall(_)) {
            if let Some(mut n) = self.expand(e, Ctx::Plain) {
                self.again(&mut n, false);
                *e = n;
                return;
            }
        }
        if let Expr::Closure(_) = e {
            self.closure += 1;
            visit_mut::visit_expr_mut(self, e);
            self.closure -= 1;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
