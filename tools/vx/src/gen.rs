//! Assembles a single-file Verus crate from items of the repository and contracts.
use crate::contracts::*;
use crate::inline::Helpers;
use crate::printer::*;
use crate::xf::*;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path as FsPath, PathBuf};
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Repo {
    pub root: PathBuf,
    pub files: BTreeMap<String, File>,
    pub text: BTreeMap<String, String>,
}

impl Repo {
    pub fn load(root: &FsPath) -> std::result::Result<Repo, String> {
        let mut files = BTreeMap::new();
        let mut text = BTreeMap::new();
        let mut todo = vec![root.join("src")];
        while let Some(d) = todo.pop() {
            for e in std::fs::read_dir(&d).map_err(|e| format!("{}: {}", d.display(), e))? {
                let p = e.map_err(|e| e.to_string())?.path();
                if p.is_dir() {
                    todo.push(p);
                } else {
                    let rel = p.strip_prefix(root).unwrap().to_string_lossy().to_string();
                    let s = std::fs::read_to_string(&p).map_err(|e| e.to_string())?;
                    if rel.ends_with(".rs") {
                        let f = syn::parse_file(&s).map_err(|e| format!("{}: {}", rel, e))?;
                        files.insert(rel.clone(), f);
                    }
                    text.insert(rel, s);
                }
            }
        }
        Ok(Repo { root: root.to_path_buf(), files, text })
    }
    pub fn file(&self, p: &str) -> std::result::Result<&File, String> {
        self.files.get(p).ok_or(format!("no file {}", p))
    }
    pub fn items(&self, p: &str) -> std::result::Result<Vec<Item>, String> {
        Ok(self
            .file(p)?
            .items
            .iter()
            .filter(|i| !is_test(i))
            .cloned()
            .collect())
    }
}

fn attrs_of(i: &Item) -> &[Attribute] {
    match i {
        Item::Fn(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::Const(x) => &x.attrs,
        _ => &[],
    }
}
fn is_test(i: &Item) -> bool {
    attrs_of(i).iter().any(|a| a.to_token_stream().to_string().replace(' ', "").contains("cfg(test"))
}

pub fn ty_str(t: &Type) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

/// The names of the `let mut` variables of a block, in order.
fn has_word(t: &str, w: &str) -> bool {
    t.match_indices(w).any(|(i, _)| {
        let wordy = |c: char| c.is_alphanumeric() || c == '_';
        !t[..i].chars().next_back().map(wordy).unwrap_or(false) && !t[i + w.len()..].chars().next().map(wordy).unwrap_or(false)
    })
}

/// For each marked loop: the local variables declared outside that it assigns to.
fn loop_writes(b: &Block) -> Vec<(String, Vec<String>)> {
    use syn::visit::Visit;
    struct W {
        muts: BTreeSet<String>,
        written: BTreeSet<String>,
    }
    fn root(e: &Expr) -> Option<String> {
        match e {
            Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
            Expr::Field(f) => root(&f.base),
            Expr::Index(i) => root(&i.expr),
            Expr::Paren(p) => root(&p.expr),
            _ => None,
        }
    }
    impl<'a> Visit<'a> for W {
        fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
            self.written.extend(root(&a.left));
            syn::visit::visit_expr_assign(self, a);
        }
        fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
            use BinOp::*;
            if matches!(b.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)) {
                self.written.extend(root(&b.left));
            }
            syn::visit::visit_expr_binary(self, b);
        }
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
            self.written.extend(root(&m.receiver));
            syn::visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_reference(&mut self, r: &'a ExprReference) {
            if r.mutability.is_some() {
                self.written.extend(root(&r.expr));
            }
            syn::visit::visit_expr_reference(self, r);
        }
    }
    fn mark_of(s: &Stmt) -> Option<String> {
        let m = match s {
            Stmt::Macro(m) => &m.mac,
            Stmt::Expr(Expr::Macro(m), _) => &m.mac,
            _ => return None,
        };
        if !m.path.is_ident("__vx_mark") {
            return None;
        }
        let l: LitStr = syn::parse2(m.tokens.clone()).ok()?;
        let l = l.value();
        (l.starts_with("for:") || l.starts_with("loop:")).then_some(l)
    }
    struct V {
        muts: BTreeSet<String>,
        out: Vec<(String, Vec<String>)>,
    }
    impl V {
        fn body(&mut self, b: &Block) {
            let Some(mark) = b.stmts.iter().find_map(mark_of) else { return };
            let mut w = W { muts: self.muts.clone(), written: BTreeSet::new() };
            for n in mut_locals(b) {
                w.muts.remove(&n);
            }
            w.visit_block(b);
            let vars = w.written.intersection(&w.muts).filter(|n| !n.starts_with("__")).cloned().collect();
            self.out.push((mark, vars));
        }
    }
    impl<'a> Visit<'a> for V {
        fn visit_expr_while(&mut self, e: &'a ExprWhile) {
            self.body(&e.body);
            syn::visit::visit_expr_while(self, e);
        }
        fn visit_expr_loop(&mut self, e: &'a ExprLoop) {
            self.body(&e.body);
            syn::visit::visit_expr_loop(self, e);
        }
        fn visit_expr_for_loop(&mut self, e: &'a ExprForLoop) {
            self.body(&e.body);
            syn::visit::visit_expr_for_loop(self, e);
        }
    }
    let mut v = V { muts: mut_locals(b).into_iter().collect(), out: vec![] };
    v.visit_block(b);
    v.out
}

/// The mutable locals that start as `true` or `false`.
fn mut_flags(b: &Block) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_local(&mut self, l: &'a Local) {
            if let (Pat::Ident(p), Some(LocalInit { expr, .. })) = (&l.pat, &l.init) {
                if p.mutability.is_some() && matches!(&**expr, Expr::Lit(ExprLit { lit: Lit::Bool(_), .. })) {
                    self.0.push(p.ident.to_string());
                }
            }
            syn::visit::visit_local(self, l);
        }
    }
    let mut v = V(vec![]);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

/// The mutable locals that start as an empty vector.
fn mut_vecs(b: &Block) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_local(&mut self, l: &'a Local) {
            let p = match &l.pat {
                Pat::Type(t) => &*t.pat,
                p => p,
            };
            if let (Pat::Ident(p), Some(LocalInit { expr, .. })) = (p, &l.init) {
                let t = expr.to_token_stream().to_string().replace(' ', "");
                if p.mutability.is_some() && (t.starts_with("Vec::") || t == "vec![]") {
                    self.0.push(p.ident.to_string());
                }
            }
            syn::visit::visit_local(self, l);
        }
    }
    let mut v = V(vec![]);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

fn mut_locals(b: &Block) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_local(&mut self, l: &'a Local) {
            let p = match &l.pat {
                Pat::Type(t) => &*t.pat,
                p => p,
            };
            if let Pat::Ident(p) = p {
                if p.mutability.is_some() {
                    self.0.push(p.ident.to_string());
                }
            }
            syn::visit::visit_local(self, l);
        }
    }
    let mut v = V(vec![]);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

/// Takes the body of the `_` arm of the n-th match of a block out of it, and puts `call` there.
/// Refused when control could leave the arm: then it is not a value of its own.
fn take_arm(b: &mut Block, n: usize, call: Expr) -> std::result::Result<Block, String> {
    struct V {
        n: usize,
        k: usize,
        call: Option<Expr>,
        got: Option<Expr>,
    }
    impl VisitMut for V {
        fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
            let k = self.k;
            self.k += 1;
            if k == self.n {
                for a in m.arms.iter_mut() {
                    if matches!(a.pat, Pat::Wild(_)) && a.guard.is_none() {
                        if let Some(c) = self.call.take() {
                            self.got = Some(std::mem::replace(&mut *a.body, c));
                        }
                    }
                }
                return;
            }
            visit_mut::visit_expr_match_mut(self, m);
        }
    }
    let mut v = V { n, k: 0, call: Some(call), got: None };
    v.visit_block_mut(b);
    let Some(e) = v.got else { return Err(format!("no match {} with a default arm", n)) };
    struct E(bool, usize);
    impl<'a> syn::visit::Visit<'a> for E {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
        fn visit_expr_break(&mut self, b: &'a ExprBreak) {
            self.0 |= self.1 == 0 || b.label.is_some();
        }
        fn visit_expr_continue(&mut self, b: &'a ExprContinue) {
            self.0 |= self.1 == 0 || b.label.is_some();
        }
        fn visit_expr_for_loop(&mut self, l: &'a ExprForLoop) {
            self.1 += 1;
            syn::visit::visit_expr_for_loop(self, l);
            self.1 -= 1;
        }
        fn visit_expr_while(&mut self, l: &'a ExprWhile) {
            self.1 += 1;
            syn::visit::visit_expr_while(self, l);
            self.1 -= 1;
        }
        fn visit_expr_loop(&mut self, l: &'a ExprLoop) {
            self.1 += 1;
            syn::visit::visit_expr_loop(self, l);
            self.1 -= 1;
        }
        fn visit_macro(&mut self, _: &'a Macro) {
            self.0 = true;
        }
    }
    let mut x = E(false, 0);
    syn::visit::Visit::visit_expr(&mut x, &e);
    if x.0 {
        return Err("control may leave the arm".into());
    }
    Ok(match e {
        Expr::Block(b) => b.block,
        e => syn::parse_quote! { { #e } },
    })
}

fn rename_self(ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    use proc_macro2::{Group, TokenTree};
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) if i == "self" => TokenTree::Ident(quote::format_ident!("__self")),
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), rename_self(g.stream()));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            t => t,
        })
        .collect()
}

#[derive(Clone, Debug)]
pub struct FnInfo {
    pub key: String,
    pub file: String,
    pub src_line: usize,
    pub first: usize,
    pub last: usize,
    pub contracted: bool,
    pub props: Vec<String>,
}

pub struct Out {
    pub text: String,
    pub fns: Vec<FnInfo>,
    pub problems: Vec<String>,
    pub loops: BTreeMap<String, usize>,
    /// functions without a contract that were put in place of their calls
    pub inlined: Vec<String>,
}

pub struct Gen<'a> {
    pub repo: &'a Repo,
    pub c: &'a Contracts,
    pub opts: Opts,
    pub out: Out,
    /// functions of the repository that were emitted
    pub emitted: BTreeSet<String>,
    pub helpers: Helpers,
}

struct M<'a> {
    c: Option<&'a FnContract>,
    asked: BTreeSet<String>,
    loops: BTreeMap<String, String>,
}
impl<'a> Marks for M<'a> {
    fn text(&mut self, name: &str) -> String {
        self.asked.insert(name.to_string());
        if let Some(t) = self.c.and_then(|c| c.sections.get(name)) {
            return t.clone();
        }
        match name.split_once(':') {
            Some((kind, k)) => match self.loops.get(kind) {
                Some(t) => t.replace("$it", &format!("__it{k}")).replace("$i", &format!("__i{k}")).replace("$k", k),
                None => String::new(),
            },
            None => String::new(),
        }
    }
}

impl<'a> Gen<'a> {
    pub fn new(repo: &'a Repo, c: &'a Contracts, opts: Opts) -> Self {
        let text = "// Generated by vx from /repo; do not edit.\n#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, unreachable_code, non_snake_case, non_camel_case_types)]\nuse vstd::prelude::*;\nverus! {\n".to_string();
        Gen {
            repo,
            c,
            opts,
            out: Out { text, fns: vec![], problems: vec![], loops: BTreeMap::new(), inlined: vec![] },
            emitted: BTreeSet::new(),
            helpers: Helpers::default(),
        }
    }
    /// The functions of these files that have no contract.
    pub fn helpers(&mut self, files: &[&str]) -> std::result::Result<(), String> {
        let mut text = self.c.prelude.clone();
        for t in self.c.texts.values() {
            text.push_str(t);
        }
        let c = self.c;
        let known = |key: &str, name: &str| {
            if c.fns.contains_key(key) {
                return true;
            }
            let has = |t: &str| t.contains(&format!("fn {}(", name)) || t.contains(&format!("fn {}<", name));
            match key.rsplit_once("::") {
                // a function of the contracts' text: in an impl of that type
                Some((ty, _)) => {
                    let mut here = false;
                    text.lines().any(|l| {
                        if l.starts_with("impl") || l.starts_with("trait") || l.starts_with("pub trait") {
                            here = has_word(l, ty);
                        } else if l.starts_with('}') {
                            here = false;
                        }
                        here && has(l)
                    })
                }
                None => has(&text),
            }
        };
        for f in files {
            let items = self.repo.items(f)?;
            self.helpers.add(&items, &known);
            // what the contracts take for derived: an equal value, an equal copy, nothing on dropping
            for i in &items {
                let Item::Impl(im) = i else { continue };
                if im.trait_.is_none() {
                    // a method that hides the one of a trait
                    for x in &im.items {
                        let ImplItem::Fn(f) = x else { continue };
                        let n = f.sig.ident.to_string();
                        if ["to_string", "clone", "clone_from", "eq", "ne", "cmp", "partial_cmp", "fmt", "into", "default", "to_owned", "deref", "deref_mut", "borrow"].contains(&n.as_str())
                            && !known(&format!("{}::{}", im.self_ty.to_token_stream().to_string().replace(' ', ""), n), &n)
                        {
                            self.out.problems.push(format!("no contract for {}::{}", im.self_ty.to_token_stream(), n));
                        }
                    }
                }
                let Some((_, t, _)) = &im.trait_ else { continue };
                let t = t.segments.last().unwrap().ident.to_string();
                let ty = im.self_ty.to_token_stream().to_string().replace(' ', "");
                if ["PartialEq", "Eq", "PartialOrd", "Ord", "Clone", "Copy", "Drop", "Default", "Hash"].contains(&t.as_str()) && !(t == "Default" && ty == "Field") {
                    self.out.problems.push(format!("no contract for impl {} for {}", t, ty));
                }
            }
        }
        Ok(())
    }
    pub fn push(&mut self, s: &str) {
        self.out.text.push_str(s);
        if !s.ends_with('\n') {
            self.out.text.push('\n');
        }
    }
    pub fn prelude(&mut self) {
        let p = self.c.prelude.clone();
        self.push(&p);
    }
    pub fn text(&mut self, key: &str) {
        match self.c.texts.get(key).cloned() {
            Some(t) => self.push(&t),
            None => panic!("no text {}", key),
        }
    }
    pub fn line(&self) -> usize {
        self.out.text.matches('\n').count() + 1
    }

    /// A struct or an enum, without attributes and derives.
    pub fn data(&mut self, file: &str, name: &str) -> std::result::Result<(), String> {
        for i in self.repo.items(file)? {
            match i {
                Item::Struct(mut s) if s.ident == name => {
                    self.xf_item(&mut Item::Struct(s.clone()));
                    s.attrs.clear();
                    for f in s.fields.iter_mut() {
                        f.attrs.clear();
                        f.vis = Visibility::Inherited;
                    }
                    s.vis = Visibility::Inherited;
                    let mut it = Item::Struct(s);
                    self.xf_item(&mut it);
                    let t = print(it.to_token_stream(), &mut NoMarks);
                    self.push(&t);
                    return Ok(());
                }
                Item::Enum(s) if s.ident == name && s.variants.is_empty() => {
                    // no value exists: an opaque type without constructors
                    self.push(&format!("#[verifier::external_body]\nstruct {} {{ }}", name));
                    return Ok(());
                }
                Item::Enum(mut s) if s.ident == name => {
                    s.attrs.clear();
                    for v in s.variants.iter_mut() {
                        v.attrs.clear();
                        for f in v.fields.iter_mut() {
                            f.attrs.clear();
                        }
                    }
                    s.vis = Visibility::Inherited;
                    self.push("#[allow(inconsistent_fields)]");
                    let mut it = Item::Enum(s);
                    self.xf_item(&mut it);
                    let t = print(it.to_token_stream(), &mut NoMarks);
                    self.push(&t);
                    return Ok(());
                }
                _ => {}
            }
        }
        Err(format!("no type {} in {}", name, file))
    }
    /// The contracts rely on a derive of this trait.
    pub fn derives(&mut self, file: &str, name: &str, tr: &str) -> std::result::Result<(), String> {
        for i in self.repo.items(file)? {
            let (id, attrs) = match &i {
                Item::Struct(s) => (&s.ident, &s.attrs),
                Item::Enum(s) => (&s.ident, &s.attrs),
                _ => continue,
            };
            if id == name {
                if !attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().contains(tr)) {
                    self.out.problems.push(format!("unsupported: {} does not derive {}", name, tr));
                }
                return Ok(());
            }
        }
        Err(format!("no type {} in {}", name, file))
    }
    pub fn xf_item(&mut self, i: &mut Item) {
        let o = self.opts.clone();
        let mut x = Xf::new(&o);
        x.visit_item_mut(i);
    }

    /// Prints one function under its contract.
    pub fn func(&mut self, key: &str, file: &str, sig: &Signature, block: &Block) {
        self.func_pre(key, file, sig, block, "")
    }
    pub fn func_pre(&mut self, key: &str, file: &str, sig: &Signature, block: &Block, pre: &str) {
        let o = self.opts.clone();
        if self.helpers.map.contains_key(key) {
            return;
        }
        let mut x = Xf::new(&o);
        let mut sig = sig.clone();
        let mut block = block.clone();
        let owner = key.rsplit_once("::").map(|x| x.0.split('<').next().unwrap()).unwrap_or("").to_string();
        crate::inline::local_closures(&mut block);
        crate::inline::normal_tail(&mut block);
        self.helpers.inline_fn(&owner, &sig, &mut block);
        let mut more = vec![];
        for (_, n, name, decl) in self.c.outlines.iter().filter(|x| x.0 == key) {
            let mut s2: Signature = syn::parse_str(decl.trim()).unwrap_or_else(|e| panic!("outline {}: {}", name, e));
            s2.ident = quote::format_ident!("{}", name);
            let args: Vec<&Pat> = s2.inputs.iter().filter_map(|a| match a { FnArg::Typed(t) => Some(&*t.pat), _ => None }).collect();
            let id = &s2.ident;
            let call: Expr = syn::parse_quote! { self . #id ( #(#args),* ) };
            match take_arm(&mut block, *n, call) {
                Ok(b) => more.push((format!("{}::{}", key.rsplit_once("::").map(|x| x.0).unwrap_or(""), name), s2, b)),
                Err(e) => self.out.problems.push(format!("anchor: outline {}: {}", name, e)),
            }
        }
        // `mut` parameters become locals
        let mut rebind = proc_macro2::TokenStream::new();
        for a in sig.inputs.iter_mut() {
            match a {
                FnArg::Receiver(r) => {
                    r.attrs.clear();
                    if r.mutability.is_some() && r.reference.is_none() {
                        r.mutability = None;
                        *r.ty = syn::parse_quote! { Self };
                        rebind.extend(quote! { let mut __self = self; });
                        block = syn::parse2(rename_self(block.to_token_stream())).unwrap();
                    }
                }
                FnArg::Typed(t) => {
                    t.attrs.clear();
                    if let Pat::Ident(p) = &mut *t.pat {
                        if p.mutability.is_some() {
                            let id = p.ident.clone();
                            p.mutability = None;
                            rebind.extend(quote! { let mut #id = #id; });
                        }
                    }
                }
            }
        }
        let mut pnames = vec![];
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                let n = match &*t.pat {
                    Pat::Ident(p) => p.ident.to_string().replace("r#", "raw_"),
                    _ => String::new(),
                };
                let n = if n.is_empty() {
                    let id = quote::format_ident!("__p{}", pnames.len() + 1);
                    if !matches!(&*t.pat, Pat::Wild(_)) {
                        let pat = &t.pat;
                        rebind.extend(quote! { let #pat = #id; });
                    }
                    *t.pat = syn::parse_quote! { #id };
                    id.to_string()
                } else {
                    n
                };
                pnames.push(n);
            }
        }
        let muts = mut_locals(&block);
        let flags = mut_flags(&block);
        x.visit_signature_mut(&mut sig);
        x.visit_block_mut(&mut block);
        let vecs = mut_vecs(&block);
        let subst = |t: &str| -> String {
            let mut t = t.to_string();
            for (i, n) in vecs.iter().enumerate().rev() {
                t = t.replace(&format!("$v{}", i), n);
            }
            for (i, n) in flags.iter().enumerate().rev() {
                t = t.replace(&format!("$b{}", i), n);
            }
            for (i, n) in muts.iter().enumerate().rev() {
                t = t.replace(&format!("$m{}", i), n);
            }
            for (i, n) in pnames.iter().enumerate().rev() {
                t = t.replace(&format!("${}", i + 1), n);
            }
            t
        };
        for u in &x.unsupported {
            self.out.problems.push(format!("unsupported: {}: {}", key, u));
        }
        let con = self.c.get(key).map(|c| {
            let mut c = c.clone();
            for (_, t) in c.sections.iter_mut() {
                *t = subst(t);
            }
            c
        });
        let con = con.as_ref();
        let nloops = x.loops;
        self.out.loops.insert(key.to_string(), nloops);
        let ret = con.and_then(|c| c.ret.clone()).unwrap_or("vx_r".into());
        let rid: Ident = syn::parse_str(&ret).unwrap();
        let out_ty = match &sig.output {
            ReturnType::Default => quote! {},
            ReturnType::Type(_, t) => quote! { -> (#rid : #t) },
        };
        let name = &sig.ident;
        let (ig, _, wc) = sig.generics.split_for_impl();
        let ins = &sig.inputs;
        let head = quote! { fn #name #ig ( #ins ) #out_ty #wc };
        let loops = self.c.loops.iter().filter(|(x, _)| key.ends_with(x.as_str())).flat_map(|(_, m)| m.iter().map(|(a, b)| (a.clone(), subst(b)))).collect();
        let mut marks = M { c: con, asked: BTreeSet::new(), loops };
        let head = print(head, &mut NoMarks);
        let stmts = &block.stmts;
        let body = print(quote! { { __vx_mark!("head"); broadcast use vx_facts; #rebind __vx_mark!("entry"); #(#stmts)* } }, &mut marks);
        if let Some(c) = con {
            for k in c.sections.keys() {
                if k != "spec" && k != "attr" && !marks.asked.contains(k) {
                    self.out.problems.push(format!("anchor: {}: no place for section {}", key, k));
                }
            }
        }
        // a loop of which nothing is said: no answer about this function means anything
        for a in &marks.asked {
            if let Some((kind @ ("loop" | "for"), _)) = a.split_once(':') {
                if con.is_some() && !marks.loops.contains_key(kind) && !con.map(|c| c.sections.contains_key(a)).unwrap_or(false) {
                    self.out.problems.push(format!("anchor: {}: no invariant for {}", key, a));
                }
            }
        }
        // a loop that changes a variable of which its invariant does not speak: the invariant was written for
        // another loop
        for (mark, vars) in loop_writes(&block) {
            let kind = mark.split(':').next().unwrap();
            let text = con.and_then(|c| c.sections.get(&mark)).or_else(|| marks.loops.get(kind));
            if let Some(t) = text {
                for v in vars.iter().filter(|v| !has_word(t, v)) {
                    self.out.problems.push(format!("anchor: {}: no invariant for {} of {}", key, v, mark));
                }
            }
        }
        let first = self.line();
        let mut s = String::new();
        s.push_str("#[verifier::loop_isolation(false)]\n");
        if let Some(a) = con.and_then(|c| c.sections.get("attr")) {
            s.push_str(a);
        }
        s.push_str(pre);
        s.push_str(head.trim_end());
        s.push('\n');
        if let Some(sp) = con.and_then(|c| c.sections.get("spec")) {
            for l in sp.lines() {
                s.push_str("    ");
                s.push_str(l);
                s.push('\n');
            }
        }
        s.push_str(&body);
        self.push(&s);
        self.push("");
        let last = self.line();
        let src_line = sig.ident.span().start().line;
        self.out.fns.push(FnInfo { key: key.into(), file: file.into(), src_line, first, last, contracted: con.is_some(), props: con.map(|c| c.props.clone()).unwrap_or_default() });
        self.emitted.insert(key.into());
        for (k, s, b) in more {
            self.func(&k, file, &s, &b);
        }
    }

    /// All free functions of a file.
    pub fn free_fns(&mut self, file: &str) -> std::result::Result<(), String> {
        for i in self.repo.items(file)? {
            if let Item::Fn(f) = i {
                self.func(&f.sig.ident.to_string(), file, &f.sig, &f.block);
            }
        }
        Ok(())
    }
    /// All constants of a file.
    pub fn consts(&mut self, file: &str) -> std::result::Result<(), String> {
        for i in self.repo.items(file)? {
            if let Item::Const(c) = i {
                let (n, t, e) = (&c.ident, &c.ty, &c.expr);
                let t = if ty_str(t) == "&str" { quote! { &'static str } } else { t.to_token_stream() };
                let s = print(quote! { const #n : #t = #e ; }, &mut NoMarks);
                self.push(&s);
            }
        }
        Ok(())
    }
    /// The functions of `impl TYPE` and `impl TRAIT for TYPE` as inherent functions.
    /// `filter` tells which impls: gets the trait's last segment and the type text.
    pub fn impls(&mut self, file: &str, mut filter: impl FnMut(Option<&str>, &str) -> bool) -> std::result::Result<(), String> {
        for i in self.repo.items(file)? {
            if let Item::Impl(im) = i {
                let tr = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                let ty = ty_str(&im.self_ty);
                if !filter(tr.as_deref(), &ty) {
                    continue;
                }
                self.impl_block(file, &im, None);
            }
        }
        Ok(())
    }
    pub fn impl_block(&mut self, file: &str, im: &ItemImpl, only: Option<&[&str]>) {
        let o = self.opts.clone();
        let mut self_ty = (*im.self_ty).clone();
        Xf::new(&o).visit_type_mut(&mut self_ty);
        let name = match &*im.self_ty {
            Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
            t => ty_str(t),
        };
        let g = &im.generics;
        let (ig, _, wc) = g.split_for_impl();
        let head = print(quote! { impl #ig #self_ty #wc }, &mut NoMarks);
        self.push(&format!("{} {{", head.trim_end()));
        for it in &im.items {
            if let ImplItem::Fn(f) = it {
                let fname = f.sig.ident.to_string();
                if let Some(o) = only {
                    if !o.contains(&fname.as_str()) {
                        continue;
                    }
                }
                self.func(&format!("{}::{}", name, fname), file, &f.sig, &f.block);
            }
        }
        self.push("}");
    }

    pub fn finish(mut self) -> Out {
        self.push("} // verus!\nfn main() {}");
        self.out.inlined = self.helpers.used.borrow().iter().cloned().collect();
        for (k, f) in &self.c.fns {
            if !f.used.get() {
                self.out.problems.push(format!("anchor: no function {}", k));
            }
        }
        self.out
    }
}
