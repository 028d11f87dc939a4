//! Mechanical rewritings of function bodies into the subset Verus accepts.
//! Each of them is a plain desugaring; they are listed in DESIGN.md.
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Default)]
pub struct Opts {
    /// identifiers of methods to rename, `.starts_with(` -> `.vx_starts_with(`
    pub rename_methods: Vec<(String, String)>,
    /// fields whose type is a newtype with `Deref` to its field 0, and the newtype's own methods
    pub newtype_fields: Vec<(String, Vec<String>)>,
    /// a whole identifier to replace in types and paths
    pub rename_idents: Vec<(String, String)>,
    /// `const NAME: &str = "..."`, replaced by the literal
    pub str_consts: Vec<(String, String)>,
    /// slices `s[a..b]` are of strings
    pub str_slices: bool,
    /// for loops over iterators by value, as calls of `next`
    pub iter_loops: bool,
    /// modules left out of paths
    pub strip_modules: Vec<String>,
    /// `?` converts the error
    pub convert_errors: bool,
    /// loops that append a vector to another
    pub append_loops: bool,
}

pub struct Xf<'a> {
    pub o: &'a Opts,
    pub loops: usize,
    /// things met that the tool does not translate
    pub unsupported: Vec<String>,
    pub tmp: usize,
}

fn tokens_to_expr(ts: TokenStream) -> Expr {
    syn::parse2::<Expr>(ts.clone()).unwrap_or_else(|e| panic!("internal: {} in {}", e, ts))
}

/// The parts of a format string.
pub enum Piece {
    Lit(String),
    /// `{}`, `{0}` or `{name}`: argument expression, and true if it is a plain display
    Arg(Expr, bool),
}

pub fn parse_format(mac: &Macro, skip: usize) -> std::result::Result<(Vec<Expr>, Vec<Piece>), String> {
    use syn::parse::Parser;
    struct A(Expr, Option<Ident>);
    let parser = |input: syn::parse::ParseStream| -> Result<Vec<A>> {
        let mut v = vec![];
        while !input.is_empty() {
            let name = if input.peek(Ident) && input.peek2(Token![=]) && !input.peek2(Token![==]) {
                let id: Ident = input.parse()?;
                input.parse::<Token![=]>()?;
                Some(id)
            } else {
                None
            };
            v.push(A(input.parse()?, name));
            if !input.is_empty() {
                input.parse::<Token![,]>()?;
            }
        }
        Ok(v)
    };
    let args = parser.parse2(mac.tokens.clone()).map_err(|e| e.to_string())?;
    let lead: Vec<Expr> = args.iter().take(skip).map(|a| a.0.clone()).collect();
    let Some(A(Expr::Lit(ExprLit { lit: Lit::Str(f), .. }), _)) = args.get(skip) else {
        return Err("format string is not a literal".into());
    };
    let rest = &args[skip + 1..];
    let f = f.value();
    let mut out = vec![];
    let mut lit = String::new();
    let mut next = 0;
    let cs: Vec<char> = f.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '{' if cs.get(i + 1) == Some(&'{') => {
                lit.push('{');
                i += 2;
            }
            '}' if cs.get(i + 1) == Some(&'}') => {
                lit.push('}');
                i += 2;
            }
            '{' => {
                let mut j = i + 1;
                let mut s = String::new();
                while j < cs.len() && cs[j] != '}' {
                    s.push(cs[j]);
                    j += 1;
                }
                i = j + 1;
                if !lit.is_empty() {
                    out.push(Piece::Lit(std::mem::take(&mut lit)));
                }
                let (arg, spec) = match s.split_once(':') {
                    Some((a, b)) => (a.trim().to_string(), b.to_string()),
                    None => (s.trim().to_string(), String::new()),
                };
                let e = if arg.is_empty() {
                    next += 1;
                    rest.get(next - 1).map(|a| a.0.clone())
                } else if let Ok(n) = arg.parse::<usize>() {
                    rest.get(n).map(|a| a.0.clone())
                } else {
                    match rest.iter().find(|a| a.1.as_ref().map(|x| x == &arg).unwrap_or(false)) {
                        Some(a) => Some(a.0.clone()),
                        None => syn::parse_str::<Expr>(&arg).ok(),
                    }
                };
                let e = e.ok_or("format argument missing")?;
                out.push(Piece::Arg(e, spec.is_empty()));
            }
            c => {
                lit.push(c);
                i += 1;
            }
        }
    }
    if !lit.is_empty() {
        out.push(Piece::Lit(lit));
    }
    // a literal argument is text like the rest
    let mut merged: Vec<Piece> = vec![];
    for p in out {
        let p = match p {
            Piece::Arg(Expr::Lit(ExprLit { lit: Lit::Str(s), .. }), true) => Piece::Lit(s.value()),
            p => p,
        };
        match (merged.last_mut(), p) {
            (Some(Piece::Lit(a)), Piece::Lit(b)) => a.push_str(&b),
            (_, p) => merged.push(p),
        }
    }
    Ok((lead, merged))
}

/// True for a pattern-like constructor expression such as `Ok(Foo::Bar)` or `Kind::A`.
fn is_ctor(e: &Expr) -> bool {
    fn ctor_path(p: &Path) -> bool {
        let last = p.segments.last().unwrap().ident.to_string();
        last.chars().next().unwrap().is_uppercase() && !last.chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric())
            && (p.segments.len() >= 2 || matches!(last.as_str(), "Some" | "None" | "Ok" | "Err"))
    }
    match e {
        Expr::Path(p) => ctor_path(&p.path),
        Expr::Call(c) => {
            let Expr::Path(p) = &*c.func else { return false };
            ctor_path(&p.path) && c.args.iter().all(|a| is_ctor(a) || matches!(a, Expr::Lit(l) if !matches!(l.lit, Lit::Str(_))) || matches!(a, Expr::Tuple(t) if t.elems.is_empty()))
        }
        _ => false,
    }
}

fn has_escape(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}

fn has_return(b: &Block) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

fn has_call(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_call(&mut self, _: &'a ExprCall) {
            self.0 = true;
        }
        fn visit_expr_method_call(&mut self, _: &'a ExprMethodCall) {
            self.0 = true;
        }
        fn visit_macro(&mut self, _: &'a Macro) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}

fn method<'a>(e: &'a Expr, name: &str) -> Option<&'a ExprMethodCall> {
    match e {
        Expr::MethodCall(m) if m.method == name => Some(m),
        _ => None,
    }
}

fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        e => e,
    }
}

/// Does the receiver chain start an iterator?
fn is_iter_chain(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            if matches!(n.as_str(), "iter" | "into_iter" | "chars" | "char_indices" | "bytes" | "enumerate" | "rev" | "filter" | "skip" | "take" | "zip" | "lines" | "split" | "iter_mut" | "drain" | "take_while" | "skip_while" | "flat_map" | "chain") {
                true
            } else if n == "map" || n == "cloned" {
                is_iter_chain(&m.receiver)
            } else {
                false
            }
        }
        _ => false,
    }
}

impl<'a> Xf<'a> {
    pub fn new(o: &'a Opts) -> Self {
        Xf { o, loops: 0, unsupported: vec![], tmp: 0 }
    }
    fn str_const(&self, i: &Ident) -> Option<String> {
        self.o.str_consts.iter().find(|(n, _)| i == n).map(|(_, v)| v.clone())
    }
    fn loop_mark(&mut self) -> (usize, TokenStream, TokenStream) {
        self.loop_mark_kind("loop")
    }
    fn loop_mark_kind(&mut self, kind: &str) -> (usize, TokenStream, TokenStream) {
        let k = self.loops;
        self.loops += 1;
        let a = format!("{}:{}", kind, k);
        let b = format!("body:{}", k);
        (k, quote! { __vx_mark!(#a); }, quote! { __vx_mark!(#b); })
    }
    fn after_mark(&self, k: usize) -> TokenStream {
        let b = format!("after:{}", k);
        quote! { __vx_mark!(#b); }
    }
    /// `for PAT in COLL by reference { BODY }` where COLL is indexable.
    fn indexed_loop(&mut self, coll: TokenStream, pat: TokenStream, idx_pat: Option<TokenStream>, body: TokenStream, k: usize, m: TokenStream, mb: TokenStream, rev: bool) -> TokenStream {
        let it = format_ident!("__it{}", k);
        let ix = format_ident!("__i{}", k);
        let idx = idx_pat.map(|p| quote! { let #p = #ix - 1; }).unwrap_or_default();
        let am = self.after_mark(k);
        let e = format!("enter:{}", k);
        let n = format!("next:{}", k);
        let at = if rev { quote! { #it.len() - 1 - #ix } } else { quote! { #ix } };
        quote! {
            {
                let #it = #coll;
                let mut #ix: usize = 0;
                __vx_mark!(#e);
                while #ix < #it.len() {
                    #m
                    #mb
                    let #pat = &#it[#at];
                    #ix += 1;
                    #idx
                    #body
                    __vx_mark!(#n);
                }
                #am
            }
        }
    }

    fn for_loop(&mut self, f: &ExprForLoop) -> Option<Expr> {
        let (k, m, mb) = self.loop_mark_kind(if self.o.iter_loops { "loop" } else { "for" });
        let mut body = f.body.clone();
        self.visit_block_mut(&mut body);
        let stmts: TokenStream = body.stmts.iter().map(|s| s.to_token_stream()).collect();
        let pat = f.pat.to_token_stream();
        let label = &f.label;
        if label.is_some() {
            self.unsupported.push("labelled for loop".into());
        }
        if self.o.iter_loops {
            let mut src = (*f.expr).clone();
            self.visit_expr_mut(&mut src);
            let it = format_ident!("__it{}", k);
            let am = self.after_mark(k);
            let e = format!("enter:{}", k);
            let n = format!("next:{}", k);
            return Some(tokens_to_expr(quote! {
                {
                    let mut #it = #src;
                    __vx_mark!(#e);
                    loop {
                        #m
                        match #it.next() { Some(#pat) => { #mb #stmts __vx_mark!(#n); } None => { break; } }
                    }
                    #am
                }
            }));
        }
        // what is iterated over
        let mut e = strip_paren(&f.expr);
        // `for i in 0..COLL.len()`: the collection is borrowed during the loop, so its length stays
        if let (Expr::Range(r), Pat::Ident(i)) = (e, &*f.pat) {
            if let (RangeLimits::HalfOpen(_), Some(Expr::Lit(ExprLit { lit: Lit::Int(z), .. })), Some(h)) = (&r.limits, r.start.as_deref(), r.end.as_deref()) {
                if z.base10_digits() == "0" {
                    if let Some(l) = method(strip_paren(h), "len") {
                        if l.args.is_empty() && !has_call(&l.receiver) {
                            let mut c = (*l.receiver).clone();
                            self.visit_expr_mut(&mut c);
                            let c = self.newtype(&c, "len");
                            let it = format_ident!("__it{}", k);
                            let ix = format_ident!("__i{}", k);
                            let am = self.after_mark(k);
                            let en = format!("enter:{}", k);
                            let nx = format!("next:{}", k);
                            return Some(tokens_to_expr(quote! {
                                {
                                    let #it = &(#c);
                                    let mut #ix: usize = 0;
                                    __vx_mark!(#en);
                                    while #ix < #it.len() {
                                        #m
                                        #mb
                                        let #i = #ix;
                                        #ix += 1;
                                        #stmts
                                        __vx_mark!(#nx);
                                    }
                                    #am
                                }
                            }));
                        }
                    }
                }
            }
        }
        let mut rev = false;
        while let Some(r) = method(e, "rev") {
            rev = !rev;
            e = strip_paren(&r.receiver);
        }
        let (coll, p, idx) = if let Some(en) = method(e, "enumerate") {
            let Pat::Tuple(t) = &*f.pat else {
                self.unsupported.push("enumerate pattern".into());
                return None;
            };
            let coll = self.by_ref(&en.receiver)?;
            (coll, t.elems[1].to_token_stream(), Some(t.elems[0].to_token_stream()))
        } else {
            (self.by_ref(e)?, pat, None)
        };
        let ts = self.indexed_loop(coll, p, idx, stmts, k, m, mb, rev);
        Some(tokens_to_expr(ts))
    }
    /// The collection behind an iteration by reference: `&c`, `c.iter()`, or a path bound to a reference.
    fn by_ref(&mut self, e: &Expr) -> Option<TokenStream> {
        let mut e = strip_paren(e).clone();
        match &mut e {
            Expr::Reference(r) if r.mutability.is_none() => {
                self.visit_expr_mut(&mut r.expr);
                Some(e.to_token_stream())
            }
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => {
                self.visit_expr_mut(&mut m.receiver);
                let r = self.newtype(&m.receiver, "iter");
                Some(quote! { &(#r) })
            }
            Expr::Path(p) => Some(p.to_token_stream()),
            _ => {
                self.unsupported.push(format!("iteration over {}", e.to_token_stream()));
                None
            }
        }
    }
    fn newtype(&self, recv: &Expr, method: &str) -> Expr {
        if let Expr::Field(f) = recv {
            if let Member::Named(n) = &f.member {
                for (name, own) in &self.o.newtype_fields {
                    if n == name && !own.iter().any(|x| x == method) {
                        return tokens_to_expr(quote! { #recv.0 });
                    }
                }
            }
        }
        if let Expr::Path(p) = recv {
            if let Some(id) = p.path.get_ident() {
                for (name, own) in &self.o.newtype_fields {
                    if id == name.trim_start_matches('$') && name.starts_with('$') && !own.iter().any(|x| x == method) {
                        return tokens_to_expr(quote! { #recv.0 });
                    }
                }
            }
        }
        recv.clone()
    }

    /// `write!` as a chain of calls; returns an expression of type `Result<(), VxFmtError>`.
    fn write_chain(&mut self, f: TokenStream, pieces: Vec<Piece>) -> TokenStream {
        let mut acc: Option<TokenStream> = None;
        for p in pieces.into_iter().rev() {
            let call = match p {
                Piece::Lit(s) => quote! { #f.write_str(#s) },
                Piece::Arg(mut e, plain) => {
                    self.visit_expr_mut(&mut e);
                    if plain {
                        quote! { (#e).fmt(#f) }
                    } else {
                        quote! { vx_fmt_opaque(&(#e), #f) }
                    }
                }
            };
            acc = Some(match acc {
                None => call,
                Some(rest) => quote! { match #call { Ok(()) => #rest, Err(__e) => Err(__e) } },
            });
        }
        acc.unwrap_or(quote! { Ok(()) })
    }
    fn macro_expr(&mut self, mac: &Macro) -> Option<Expr> {
        let name = mac.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "write" => match parse_format(mac, 1) {
                Ok((lead, pieces)) => {
                    let f = lead[0].to_token_stream();
                    let c = self.write_chain(f, pieces);
                    Some(tokens_to_expr(c))
                }
                Err(e) => {
                    self.unsupported.push(format!("write!: {}", e));
                    None
                }
            },
            "format" => match parse_format(mac, 0) {
                Ok((_, pieces)) => {
                    self.tmp += 1;
                    let f = format_ident!("__f{}", self.tmp);
                    let c = self.write_chain(quote! { (&mut #f) }, pieces);
                    Some(tokens_to_expr(quote! { { let mut #f = VxFormatter::new(); let _ = #c; #f.into_string() } }))
                }
                Err(e) => {
                    self.unsupported.push(format!("format!: {}", e));
                    None
                }
            },
            "matches" => {
                use syn::parse::Parser;
                let p = |i: syn::parse::ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
                    let e = i.parse()?;
                    i.parse::<Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(Token![if]) {
                        i.parse::<Token![if]>()?;
                        Some(i.parse()?)
                    } else {
                        None
                    };
                    let _ = i.parse::<Option<Token![,]>>()?;
                    Ok((e, p, g))
                };
                match p.parse2(mac.tokens.clone()) {
                    Ok((mut e, p, g)) => {
                        self.visit_expr_mut(&mut e);
                        let g = g.map(|mut g| { self.visit_expr_mut(&mut g); quote! { if #g } });
                        Some(tokens_to_expr(quote! { (match #e { #p #g => true, _ => false }) }))
                    }
                    Err(e) => {
                        self.unsupported.push(format!("matches!: {}", e));
                        None
                    }
                }
            }
            "vec" => {
                use syn::parse::Parser;
                let p = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
                match p.parse2(mac.tokens.clone()) {
                    Ok(mut es) => {
                        for e in es.iter_mut() {
                            self.visit_expr_mut(e);
                        }
                        Some(tokens_to_expr(quote! { vec![ #es ] }))
                    }
                    Err(e) => {
                        self.unsupported.push(format!("vec!: {}", e));
                        None
                    }
                }
            }
            "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                use syn::parse::Parser;
                let p = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
                match p.parse2(mac.tokens.clone()) {
                    Ok(es) if es.len() >= 2 => {
                        let (l, r) = (&es[0], &es[1]);
                        let mut e: Expr = if name.ends_with("eq") { syn::parse_quote! { #l == #r } } else { syn::parse_quote! { #l != #r } };
                        self.visit_expr_mut(&mut e);
                        Some(tokens_to_expr(quote! { { if !(#e) { panic!() } } }))
                    }
                    _ => {
                        self.unsupported.push("assert_eq!".into());
                        None
                    }
                }
            }
            "assert" | "debug_assert" => {
                use syn::parse::Parser;
                let p = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
                match p.parse2(mac.tokens.clone()) {
                    Ok(es) => {
                        let mut e = es[0].clone();
                        self.visit_expr_mut(&mut e);
                        Some(tokens_to_expr(quote! { { if !(#e) { panic!() } } }))
                    }
                    Err(e) => {
                        self.unsupported.push(format!("assert!: {}", e));
                        None
                    }
                }
            }
            "unimplemented" | "todo" | "panic" | "unreachable" => Some(tokens_to_expr(quote! { panic!() })),
            "__vx_mark" => None,
            other => {
                self.unsupported.push(format!("macro {}!", other));
                None
            }
        }
    }

    /// `for x in L { R.push(x); }`, `[a, b].to_vec()` and `once(a).chain(L).collect()`, where L is a vector.
    fn append(&mut self, e: &Expr) -> Option<Expr> {
        fn is_path(e: &Expr, last: &str) -> bool {
            matches!(e, Expr::Path(p) if p.path.segments.last().map(|s| s.ident == last).unwrap_or(false))
        }
        match e {
            Expr::ForLoop(f) if f.label.is_none() => {
                let src = strip_paren(&f.expr);
                let src = method(src, "into_iter").map(|m| strip_paren(&m.receiver)).unwrap_or(src);
                if let (Pat::Ident(x), Expr::Path(_), [Stmt::Expr(Expr::MethodCall(m), _)]) = (&*f.pat, src, &f.body.stmts[..]) {
                    if m.method == "push" && m.args.len() == 1 && matches!(&m.args[0], Expr::Path(p) if p.path.is_ident(&x.ident)) {
                        if let Expr::Path(r) = strip_paren(&m.receiver) {
                            if !r.path.is_ident(&x.ident) {
                                return Some(tokens_to_expr(quote! { { #r.vx_extend(#src); } }));
                            }
                        }
                    }
                }
                self.unsupported.push("for loop".into());
                None
            }
            Expr::MethodCall(m) if m.method == "to_vec" && m.args.is_empty() => match strip_paren(&m.receiver) {
                Expr::Array(a) => {
                    let mut es = a.elems.clone();
                    for x in es.iter_mut() {
                        self.visit_expr_mut(x);
                    }
                    Some(tokens_to_expr(quote! { vec![ #es ] }))
                }
                _ => None,
            },
            Expr::MethodCall(m) if m.method == "collect" && m.args.is_empty() => {
                let c = method(&m.receiver, "chain")?;
                if let (Expr::Call(o), Some(l)) = (strip_paren(&c.receiver), c.args.first()) {
                    let l = method(l, "into_iter").map(|m| &*m.receiver).unwrap_or(l);
                    if is_path(&o.func, "once") && o.args.len() == 1 && matches!(l, Expr::Path(_)) {
                        let mut a = o.args[0].clone();
                        self.visit_expr_mut(&mut a);
                        return Some(tokens_to_expr(quote! { vx_cons(#a, #l) }));
                    }
                }
                None
            }
            _ => None,
        }
    }

    fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
        if let Expr::Closure(c) = e {
            if c.inputs.len() == 1 {
                return Some((c.inputs[0].clone(), (*c.body).clone()));
            }
        }
        None
    }
}

impl<'a> VisitMut for Xf<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `ITER.try_for_each(|x| BODY)?` and `ITER.for_each(|x| BODY)`
        if !self.o.append_loops && !self.o.iter_loops {
            let (inner, tried) = if let Expr::Try(t) = &*e { (&*t.expr, true) } else { (&*e, false) };
            let name = if tried { "try_for_each" } else { "for_each" };
            if let Some(m) = method(inner, name) {
                if let (true, Some((pat, body))) = (m.args.len() == 1, m.args.first().and_then(Self::closure1)) {
                    if tried || !has_escape(&body) {
                        let src = &m.receiver;
                        // the value of the closure's body: `?` inside it leaves the closure with the failure,
                        // which the outer `?` then hands on
                        let body = if tried {
                            let mut b: Block = match body {
                                Expr::Block(b) => b.block,
                                b => syn::parse_quote! { { #b } },
                            };
                            if has_return(&b) {
                                self.unsupported.push("return in a closure".into());
                            }
                            crate::inline::unwrap_block(&mut b);
                            quote! { #b }
                        } else {
                            quote! { { #body; } }
                        };
                        *e = tokens_to_expr(quote! { for #pat in #src { #body } });
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
        }
        // `COLL.iter().map(|x| BODY).collect::<Result<Vec<_>, _>>()?` -- a loop that stops at the first error
        if let Expr::Try(t) = e {
            if let Some(col) = method(&t.expr, "collect") {
                let is_result = col.turbofish.as_ref().map(|tf| tf.to_token_stream().to_string().replace(' ', "").starts_with("::<Result<Vec<")).unwrap_or(false);
                if let (true, Some(map)) = (is_result, method(&col.receiver, "map")) {
                    if let Some((pat, body)) = map.args.first().and_then(Self::closure1) {
                        let src = map.receiver.clone();
                        if method(&src, "iter").is_some() {
                            let (k, m, mb) = self.loop_mark_kind("for");
                            let coll = self.by_ref(&src);
                            if let Some(coll) = coll {
                                let acc = format_ident!("__acc{}", k);
                                // the value of the closure's body, `?` inside it leaves the closure with the
                                // error, which the outer `?` then returns
                                let push = match body {
                                    Expr::Block(b) => {
                                        let mut b = b.block.clone();
                                        self.visit_block_mut(&mut b);
                                        quote! { #acc.push((#b)?); }
                                    }
                                    mut o => {
                                        self.visit_expr_mut(&mut o);
                                        quote! { #acc.push((#o)?); }
                                    }
                                };
                                let it = format_ident!("__it{}", k);
                                let ix = format_ident!("__i{}", k);
                                let am = self.after_mark(k);
                                let en = format!("enter:{}", k);
                                let nx = format!("next:{}", k);
                                *e = tokens_to_expr(quote! {
                                    {
                                        let #it = #coll;
                                        let mut #ix: usize = 0;
                                        let mut #acc = Vec::new();
                                        __vx_mark!(#en);
                                        while #ix < #it.len() {
                                            #m
                                            #mb
                                            let #pat = &#it[#ix];
                                            #ix += 1;
                                            #push
                                            __vx_mark!(#nx);
                                        }
                                        #am
                                        #acc
                                    }
                                });
                                return;
                            }
                        }
                    }
                }
            }
        }
        // `OPTION.ok_or_else(|| E)`
        if let Some(m) = method(e, "ok_or_else") {
            if let Some(Expr::Closure(c)) = m.args.first() {
                if c.inputs.is_empty() && !has_escape(&c.body) {
                    let (r, b) = (&m.receiver, &c.body);
                    *e = tokens_to_expr(quote! { (match #r { Some(__v) => Ok(__v), None => Err(#b) }) });
                    self.visit_expr_mut(e);
                    return;
                }
            }
        }
        // `RESULT.as_ref()?`: the error returned is `From<&E> for E`, a copy
        if let Expr::Try(t) = e {
            if let Some(m) = method(&t.expr, "as_ref") {
                let mut r = (*m.receiver).clone();
                self.visit_expr_mut(&mut r);
                *e = tokens_to_expr(quote! { (match &(#r) { Ok(__v) => __v, Err(__e) => return Err(__e.vx_clone()) }) });
                return;
            }
        }
        if self.o.convert_errors {
            if let Expr::Try(t) = e {
                let mut r = (*t.expr).clone();
                self.visit_expr_mut(&mut r);
                *e = tokens_to_expr(quote! { (match #r { Ok(__v) => __v, Err(__e) => return Err(vx_from(__e)) }) });
                return;
            }
        }
        // comparisons with a string literal
        if self.o.str_slices {
            if let Expr::Binary(b) = e {
                let is_str = |x: &Expr| match strip_paren(x) {
                    Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) => true,
                    Expr::Path(p) => p.path.get_ident().map(|i| self.str_const(i).is_some()).unwrap_or(false),
                    _ => false,
                };
                if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (is_str(&b.left) || is_str(&b.right)) {
                    let neg = matches!(b.op, BinOp::Ne(_));
                    let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                    self.visit_expr_mut(&mut l);
                    self.visit_expr_mut(&mut r);
                    let c = quote! { vx_str_eq(#l, #r) };
                    *e = tokens_to_expr(if neg { quote! { (!#c) } } else { c });
                    return;
                }
            }
        }
        // a constant string's name
        if let Expr::Path(p) = e {
            if let Some(l) = p.path.get_ident().and_then(|i| self.str_const(i)) {
                *e = tokens_to_expr(quote! { #l });
                return;
            }
        }
        // the length of a constant string
        if let Expr::MethodCall(m) = e {
            if m.method == "len" && m.args.is_empty() {
                let l = match &*m.receiver {
                    Expr::Path(p) => p.path.get_ident().and_then(|i| self.str_const(i)),
                    Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()),
                    _ => None,
                };
                if let Some(l) = l {
                    let n = l.len();
                    *e = tokens_to_expr(quote! { #n });
                    return;
                }
            }
            // `s.chars().count()`
            if m.method == "count" && m.args.is_empty() && self.o.str_slices {
                if let Some(c) = method(&m.receiver, "chars") {
                    let mut r = (*c.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    *e = tokens_to_expr(quote! { vx_char_count(#r) });
                    return;
                }
            }
        }
        // `String::from(TEXT)`
        if !self.o.append_loops && self.o.rename_methods.iter().any(|(a, _)| a == "to_string") {
            if let Expr::Call(c) = e {
                if let (Expr::Path(p), 1) = (&*c.func, c.args.len()) {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if segs.len() >= 2 && segs[segs.len() - 2..] == ["String", "from"] {
                        let mut a = c.args[0].clone();
                        self.visit_expr_mut(&mut a);
                        let a = if let Expr::Reference(_) = a { quote! { (#a) } } else { quote! { #a } };
                        *e = tokens_to_expr(quote! { #a.vx_to_string() });
                        return;
                    }
                }
            }
        }
        // `Regex::new("...")`: the pattern also as a term
        if let Expr::Call(c) = e {
            if let (Expr::Path(p), Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. }))) = (&*c.func, c.args.first()) {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs.len() >= 2 && segs[segs.len() - 2..] == ["Regex", "new"] {
                    match crate::re::parse(&s.value()) {
                        Ok((anchored, r)) => {
                            let t: TokenStream = crate::re::term(&r).parse().unwrap();
                            let s = s.value();
                            *e = tokens_to_expr(quote! { VxRegex::new(#s, Ghost(#anchored), Ghost(#t)) });
                        }
                        Err(x) => self.unsupported.push(format!("regular expression {}: {}", s.value(), x)),
                    }
                    return;
                }
            }
        }
        // a match on string literals, as a chain of comparisons
        if self.o.str_slices {
            if let Expr::Match(m) = e {
                let mut m2 = m.clone();
                for a in m2.arms.iter_mut() {
                    self.visit_pat_mut(&mut a.pat);
                }
                fn lits(p: &Pat) -> Option<Vec<LitStr>> {
                    match p {
                        Pat::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(vec![s.clone()]),
                        Pat::Or(o) => o.cases.iter().map(lits).collect::<Option<Vec<_>>>().map(|v| v.concat()),
                        Pat::Paren(p) => lits(&p.pat),
                        _ => None,
                    }
                }
                let n = m2.arms.len();
                let ok = n > 1 && m2.arms.iter().enumerate().all(|(i, a)| a.guard.is_none() && if i + 1 < n { lits(&a.pat).is_some() } else { matches!(a.pat, Pat::Wild(_)) });
                if ok {
                    let mut scr = (*m2.expr).clone();
                    self.visit_expr_mut(&mut scr);
                    self.tmp += 1;
                    let v = format_ident!("__m{}", self.tmp);
                    let mut bodies = vec![];
                    for a in m2.arms.iter_mut() {
                        self.visit_expr_mut(&mut a.body);
                        let b = &a.body;
                        bodies.push((lits(&a.pat), quote! { { #b } }));
                    }
                    let mut acc: Option<TokenStream> = None;
                    for (l, b) in bodies.into_iter().rev() {
                        acc = Some(match (l, acc) {
                            (Some(l), Some(rest)) => quote! { if #(vx_str_eq(#v, #l))||* #b else #rest },
                            _ => b,
                        });
                    }
                    let acc = acc.unwrap();
                    // `else if` wants a block or an if
                    *e = tokens_to_expr(quote! { { let #v: &str = #scr; #acc } });
                    return;
                }
            }
        }
        // string slices
        if self.o.str_slices {
            let inner = match e {
                Expr::Reference(r) if r.mutability.is_none() => match strip_paren(&r.expr) {
                    Expr::Index(i) => Some(i.clone()),
                    _ => None,
                },
                Expr::Index(i) => Some(i.clone()),
                _ => None,
            };
            if let Some(i) = inner {
                if let Expr::Range(r) = strip_paren(&i.index) {
                    if matches!(r.limits, RangeLimits::HalfOpen(_)) {
                        let mut b = (*i.expr).clone();
                        self.visit_expr_mut(&mut b);
                        let side = |x: &mut Self, s: &Option<Box<Expr>>| s.as_ref().map(|s| {
                            let mut s = (**s).clone();
                            x.visit_expr_mut(&mut s);
                            s
                        });
                        let lo = side(self, &r.start);
                        let hi = side(self, &r.end);
                        *e = tokens_to_expr(match (lo, hi) {
                            (Some(l), Some(h)) => quote! { vx_slice(#b, #l, #h) },
                            (Some(l), None) => quote! { vx_slice_from(#b, #l) },
                            (None, Some(h)) => quote! { vx_slice(#b, 0, #h) },
                            (None, None) => quote! { #b },
                        });
                        return;
                    }
                    self.unsupported.push("inclusive range of a string".into());
                }
            }
        }
        if self.o.append_loops {
            if let Some(n) = self.append(e) {
                *e = n;
                return;
            }
        }
        match e {
            Expr::ForLoop(f) => {
                let f = f.clone();
                if let Some(n) = self.for_loop(&f) {
                    *e = n;
                }
                return;
            }
            Expr::While(w) => {
                let (k, m, mb) = self.loop_mark();
                let label = &w.label.clone();
                let am = self.after_mark(k);
                if let Expr::Let(l) = &*w.cond {
                    let mut scr = (*l.expr).clone();
                    let pat = l.pat.clone();
                    self.visit_expr_mut(&mut scr);
                    self.visit_block_mut(&mut w.body);
                    let stmts = &w.body.stmts;
                    *e = tokens_to_expr(quote! {
                        { #label loop { #m match #scr { #pat => { #mb #(#stmts)* } _ => { break; } } } #am }
                    });
                } else {
                    self.visit_expr_mut(&mut w.cond);
                    self.visit_block_mut(&mut w.body);
                    let stmts = &w.body.stmts;
                    let c = &w.cond;
                    *e = tokens_to_expr(quote! { { #label while #c { #m #mb #(#stmts)* } #am } });
                }
                return;
            }
            Expr::Loop(w) => {
                let (k, m, mb) = self.loop_mark();
                let _ = k;
                self.visit_block_mut(&mut w.body);
                let label = &w.label;
                let stmts = &w.body.stmts;
                *e = tokens_to_expr(quote! { #label loop { #m #mb #(#stmts)* } });
                return;
            }
            Expr::Macro(m) => {
                if let Some(n) = self.macro_expr(&m.mac.clone()) {
                    *e = n;
                }
                return;
            }
            Expr::MethodCall(m) if m.args.len() >= 1 && !is_iter_chain(&m.receiver) => {
                let name = m.method.to_string();
                let last = m.args.last().unwrap().clone();
                if let Some((pat, body)) = Self::closure1(&last) {
                    if !has_escape(&body) {
                        let r = &m.receiver;
                        let n = match name.as_str() {
                            "and_then" => Some(quote! { (match #r { Some(#pat) => #body, None => None }) }),
                            "map" => Some(quote! { (match #r { Some(#pat) => Some(#body), None => None }) }),
                            "map_or" => {
                                let d = &m.args[0];
                                Some(quote! { (match #r { Some(#pat) => #body, None => #d }) })
                            }
                            "is_some_and" => Some(quote! { (match #r { Some(#pat) => #body, None => false }) }),
                            "map_err" => Some(quote! { (match #r { Ok(__v) => Ok(__v), Err(#pat) => Err(#body) }) }),
                            _ => None,
                        };
                        if let Some(n) = n {
                            *e = tokens_to_expr(n);
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
                if name == "map_err" {
                    if let Expr::Path(p) = &last {
                        let r = &m.receiver;
                        *e = tokens_to_expr(quote! { (match #r { Ok(__v) => Ok(__v), Err(__x) => Err(#p(__x)) }) });
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && is_ctor(&b.right) => {
                let mut l = (*b.left).clone();
                self.visit_expr_mut(&mut l);
                let r = &b.right;
                let neg = matches!(b.op, BinOp::Ne(_));
                let (t, f) = if neg { (quote!(false), quote!(true)) } else { (quote!(true), quote!(false)) };
                *e = tokens_to_expr(quote! { (match #l { #r => #t, _ => #f }) });
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Closure(_) = e {
            self.unsupported.push(format!("closure {}", e.to_token_stream()));
        }
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            for (a, b) in &self.o.rename_methods {
                if *a == name {
                    m.method = format_ident!("{}", b);
                }
            }
            *m.receiver = self.newtype(&m.receiver, &name);
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(n) = self.macro_expr(&m.mac.clone()) {
                *s = Stmt::Expr(n, m.semi_token);
            }
            return;
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        let id = match p {
            Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => Some(i.ident.clone()),
            Pat::Path(q) => q.path.get_ident().cloned(),
            _ => None,
        };
        if let Some(l) = id.and_then(|i| self.str_const(&i)) {
            *p = Pat::Lit(ExprLit { attrs: vec![], lit: Lit::Str(LitStr::new(&l, proc_macro2::Span::call_site())) });
            return;
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if !self.o.strip_modules.is_empty() {
            let n = p.segments.len();
            if n >= 2 && p.segments[n - 2].ident == "io" && p.segments[n - 1].ident == "Error" {
                *p = Path::from(format_ident!("VxIoError"));
            }
            while p.segments.len() > 1 && self.o.strip_modules.iter().any(|m| p.segments[0].ident == m) {
                p.leading_colon = None;
                p.segments = p.segments.iter().skip(1).cloned().collect();
            }
        }
        for s in p.segments.iter_mut() {
            for (a, b) in &self.o.rename_idents {
                if s.ident == a {
                    s.ident = format_ident!("{}", b);
                }
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}
