//! The rules of the LALRPOP grammar: their actions as functions (unit gram), and the token sequences
//! they derive as a predicate (unit lang).
//!
//! A nonterminal without a predicate in the contracts is taken apart where it is used, if it is not
//! recursive: its alternatives take its place.
use crate::contracts::*;
use crate::gen::*;
use crate::lalr::{self, Grammar, Nt, Sym};
use crate::printer::*;
use crate::units::{data_names, opts, LEXER, NODES};
use crate::xf::*;
use proc_macro2::{Group, TokenStream, TokenTree};
use quote::{format_ident, quote};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path as FsPath;
use syn::*;

type R<T> = std::result::Result<T, String>;
const GRAMMAR: &str = "src/parser/parser.lalrpop";

/// A production whose symbols all have predicates.
#[derive(Clone)]
struct Flat {
    items: Vec<FItem>,
    /// the value, as an expression over the parameters
    value: TokenStream,
    fallible: bool,
    line: usize,
}
#[derive(Clone)]
struct FItem {
    param: Option<Ident>,
    sym: Sym,
}

fn reader<'a>(repo: &'a Repo) -> R<Grammar> {
    lalr::parse(repo.text.get(GRAMMAR).ok_or("no grammar")?)
}

struct Flattener<'a> {
    g: &'a Grammar,
    known: &'a BTreeSet<String>,
    n: usize,
    stack: Vec<String>,
}

impl<'a> Flattener<'a> {
    fn nt(&self, n: &str) -> R<&'a Nt> {
        self.g.nts.iter().find(|x| x.name == n).ok_or(format!("grammar: no rule {}", n))
    }
    fn known(&self, s: &Sym) -> bool {
        match s {
            Sym::Left | Sym::Right | Sym::Term(_) => true,
            Sym::Nt(n) => self.known.contains(n),
            Sym::Opt(x) | Sym::Star(x) | Sym::Plus(x) => matches!(&**x, Sym::Nt(n) if self.known.contains(n)),
        }
    }
    /// The ways a symbol can be put together out of known ones, each with its value.
    fn sym(&mut self, s: &Sym) -> R<Vec<(Vec<FItem>, Option<TokenStream>, bool)>> {
        if self.known(s) {
            let has = match s {
                Sym::Term(x) => self.g.terms.get(x).ok_or(format!("grammar: no token {}", x))?.1,
                _ => true,
            };
            if !has {
                return Ok(vec![(vec![FItem { param: None, sym: s.clone() }], None, false)]);
            }
            self.n += 1;
            let p = format_ident!("p{}", self.n);
            return Ok(vec![(vec![FItem { param: Some(p.clone()), sym: s.clone() }], Some(quote! { #p }), false)]);
        }
        match s {
            Sym::Nt(n) => {
                if self.stack.contains(n) {
                    return Err(format!("no contract for the rule {}", n));
                }
                let n = n.clone();
                Ok(self
                    .rule(&n)?
                    .into_iter()
                    .map(|f| {
                        let v = f.value;
                        let v = if f.fallible { quote! { match #v { Ok(v) => v, Err(_) => return Err(VxRefused) } } } else { v };
                        (f.items, Some(v), f.fallible)
                    })
                    .collect())
            }
            Sym::Opt(x) if matches!(**x, Sym::Term(_)) => {
                // with and without; the value counts only for a token with a text
                let mut v = vec![];
                for (i, e, f) in self.sym(x)? {
                    let none = e.as_ref().map(|_| quote! { Option::<&str>::None });
                    v.push((vec![], none, false));
                    v.push((i, e.map(|e| quote! { Some(#e) }), f));
                }
                Ok(v)
            }
            Sym::Opt(x) => {
                let Sym::Nt(n) = &**x else { return Err(format!("grammar: symbol {:?}", s)) };
                let ty = &self.nt(n)?.ty;
                let mut v = vec![(vec![], Some(quote! { Option::<#ty>::None }), false)];
                for (i, e, f) in self.sym(x)? {
                    let e = e.ok_or("grammar: no value")?;
                    v.push((i, Some(quote! { Some(#e) }), f));
                }
                Ok(v)
            }
            _ => Err(format!("no contract for the symbol {:?}", s)),
        }
    }
    fn rule(&mut self, n: &str) -> R<Vec<Flat>> {
        let nt = self.nt(n)?;
        self.stack.push(n.to_string());
        let mut out = vec![];
        for p in &nt.prods {
            // the product over the symbols: (items, bindings, values of the chosen ones)
            let any = p.items.iter().any(|i| i.chosen);
            let mut acc: Vec<(Vec<FItem>, TokenStream, Vec<Option<TokenStream>>, bool)> = vec![(vec![], quote! {}, vec![], p.fallible)];
            for (k, it) in p.items.iter().enumerate() {
                let ways = self.sym(&it.sym)?;
                let mut next = vec![];
                for (is, bind, vals, fal) in &acc {
                    for (wi, we, wf) in &ways {
                        let mut is = is.clone();
                        is.extend(wi.iter().cloned());
                        let mut bind = bind.clone();
                        let mut vals = vals.clone();
                        let sel = it.chosen || (!any && !matches!(it.sym, Sym::Left | Sym::Right));
                        if sel {
                            match we {
                                Some(e) => {
                                    let name = it.name.clone().unwrap_or(format_ident!("__v{}", k));
                                    let m = if it.mutable { quote! { mut } } else { quote! {} };
                                    bind.extend(quote! { let #m #name = #e; });
                                    vals.push(Some(quote! { #name }));
                                }
                                None => vals.push(None),
                            }
                        }
                        next.push((is, bind, vals, *fal || *wf));
                    }
                }
                acc = next;
            }
            for (items, bind, vals, fallible) in acc {
                let value = match &p.action {
                    Some(a) => {
                        let all: Vec<TokenStream> = vals.iter().flatten().cloned().collect();
                        let a = angle(a.clone(), &all);
                        if fallible && !p.fallible {
                            quote! { { #bind Ok(#a) } }
                        } else {
                            quote! { { #bind #a } }
                        }
                    }
                    None => match &vals[..] {
                        [Some(v)] if fallible => quote! { { #bind Ok(#v) } },
                        [Some(v)] => quote! { { #bind #v } },
                        _ => return Err(format!("grammar: a rule without an action in {}", n)),
                    },
                };
                out.push(Flat { items, value, fallible, line: p.line });
            }
        }
        self.stack.pop();
        Ok(out)
    }
}

/// `<>` in an action.
fn angle(ts: TokenStream, all: &[TokenStream]) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        match (&v[i], v.get(i + 1)) {
            (TokenTree::Punct(a), Some(TokenTree::Punct(b))) if a.as_char() == '<' && b.as_char() == '>' => {
                out.extend(quote! { #(#all),* });
                i += 2;
            }
            (TokenTree::Group(g), _) => {
                out.extend(std::iter::once(TokenTree::Group(Group::new(g.delimiter(), angle(g.stream(), all)))));
                i += 1;
            }
            (t, _) => {
                out.extend(std::iter::once(t.clone()));
                i += 1;
            }
        }
    }
    out
}

/// Names X with `spec fn PREFIX_X(` in the contracts.
fn predicates(c: &Contracts, prefix: &str) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for l in c.prelude.lines() {
        if let Some(r) = l.strip_prefix(&format!("spec fn {}", prefix)) {
            if let Some(n) = r.split('(').next() {
                s.insert(n.to_string());
            }
        }
    }
    s
}

/// The actions of the rules (C12, C13).
pub fn gram(repo: &Repo, cdir: &FsPath) -> R<Out> {
    let c = Contracts::load(&[cdir.join("common.vx"), cdir.join("gram.vx"), cdir.join("gram0.vx")]);
    let gr = reader(repo)?;
    let mut o = opts();
    o.rename_methods.push(("to_vec".into(), "vx_to_vec".into()));
    o.rename_methods.push(("extend".into(), "vx_extend".into()));
    o.rename_methods.push(("unwrap_or_default".into(), "vx_or_default".into()));
    o.rename_idents = vec![("from".into(), "vx_from".into())];
    o.append_loops = true;
    o.strip_modules = ["lexer", "crate", "ast", "nodes", "parser"].iter().map(|x| x.to_string()).collect();
    let mut g = Gen::new(repo, &c, o.clone());
    g.helpers(&[NODES, LEXER])?;
    g.prelude();
    g.data(LEXER, "SourcePosition")?;
    g.data(LEXER, "Token")?;
    for n in data_names(repo, NODES)? {
        g.data(NODES, &n)?;
        g.derives(NODES, &n, "Clone")?;
    }
    let mut known = predicates(&c, "sem_");
    let known_in = predicates(&c, "in_");
    let names: BTreeSet<String> = gr.nts.iter().map(|n| n.name.clone()).collect();
    known.retain(|n| names.contains(n));
    if !known.contains("Program") {
        return Err("no rule Program".into());
    }
    let tys: BTreeMap<String, TokenStream> = gr.nts.iter().map(|n| (n.name.clone(), n.ty.clone())).collect();
    for nt in gr.nts.iter().filter(|n| known.contains(&n.name)) {
        let mut f = Flattener { g: &gr, known: &known, n: 0, stack: vec![] };
        let flats = match f.rule(&nt.name) {
            Ok(x) => x,
            Err(e) => {
                g.out.problems.push(e);
                continue;
            }
        };
        for (k, p) in flats.iter().enumerate() {
            let key = format!("{}::{}", nt.name, k + 1);
            match one(&gr, &tys, &o, &g.helpers, &known_in, nt, k, p) {
                Ok((text, problems)) => {
                    for x in problems {
                        g.out.problems.push(format!("unsupported: {}: {}", key, x));
                    }
                    let first = g.line();
                    g.push(&text);
                    g.push("");
                    let last = g.line();
                    g.out.fns.push(FnInfo { key, file: GRAMMAR.into(), src_line: p.line, first, last, contracted: true, props: vec!["C12".into()] });
                }
                Err(e) => g.out.problems.push(format!("unsupported: {}: {}", key, e)),
            }
        }
    }
    Ok(g.finish())
}

/// The function of one production.
fn one(gr: &Grammar, tys: &BTreeMap<String, TokenStream>, o: &Opts, helpers: &crate::inline::Helpers, known_in: &BTreeSet<String>, nt: &Nt, k: usize, p: &Flat) -> R<(String, Vec<String>)> {
    let mut ghost = vec!["Ghost(t): Ghost<Toks>".to_string(), "Ghost(b0): Ghost<int>".to_string()];
    let mut params: Vec<String> = vec![];
    let mut req = vec!["ordered(t)".to_string(), "0 <= b0".to_string()];
    let mut b = 0;
    let mut problems = vec![];
    let mut x = Xf::new(o);
    let mut ty_text = |ty: &TokenStream| -> R<String> {
        let mut t: Type = syn::parse2(ty.clone()).map_err(|e| e.to_string())?;
        syn::visit_mut::VisitMut::visit_type_mut(&mut x, &mut t);
        Ok(print(quote! { #t }, &mut NoMarks).trim().to_string())
    };
    for it in &p.items {
        let y = it.param.as_ref().map(|x| x.to_string()).unwrap_or_default();
        let next = |ghost: &mut Vec<String>| {
            ghost.push(format!("Ghost(b{}): Ghost<int>", b + 1));
        };
        match &it.sym {
            Sym::Left => {
                params.push(format!("{}: SourcePosition", y));
                req.push(format!("is_left(t, b{}, {})", b, y));
            }
            Sym::Right => {
                params.push(format!("{}: SourcePosition", y));
                req.push(format!("is_right(t, b{}, {})", b, y));
            }
            Sym::Term(l) => {
                next(&mut ghost);
                let (tok, pay) = gr.terms.get(l).ok_or(format!("no token {}", l))?;
                req.push(format!("b{} == b{} + 1", b + 1, b));
                req.push(format!("mk(b{}, b{})", b, b + 1));
                if *pay {
                    params.push(format!("{}: &str", y));
                    req.push(format!("t[b{}].tok == Token::<Seq<char>>::{}({}@)", b, tok, y));
                } else {
                    req.push(format!("t[b{}].tok == Token::<Seq<char>>::{}", b, tok));
                }
                b += 1;
            }
            s => {
                next(&mut ghost);
                let (n, q) = match s {
                    Sym::Nt(n) => (n, ""),
                    Sym::Opt(x) | Sym::Star(x) | Sym::Plus(x) => {
                        let Sym::Nt(n) = &**x else { return Err("symbol".into()) };
                        (n, match s { Sym::Opt(_) => "?", Sym::Star(_) => "*", _ => "+" })
                    }
                    _ => unreachable!(),
                };
                let t = ty_text(tys.get(n).ok_or(format!("no rule {}", n))?)?;
                let (a, c) = (format!("b{}", b), format!("b{}", b + 1));
                match q {
                    "" => {
                        params.push(format!("{}: {}", y, t));
                        req.push(format!("{} < {}", a, c));
                        req.push(format!("r_{}({}, {})", n, a, c));
                        req.push(format!("sem_{}(t, {}, {}, {})", n, y, a, c));
                        req.push(format!("span_{}(t, {}, {}, {})", n, y, a, c));
                    }
                    "?" => {
                        params.push(format!("{}: Option<{}>", y, t));
                        req.push(format!("{} <= {}", a, c));
                        req.push(format!("r_{}_opt({}, {})", n, a, c));
                        req.push(format!("sem_{}_opt(t, {}, {}, {})", n, y, a, c));
                        req.push(format!("match {} {{ None => {} == {}, Some(x) => {} < {} && r_{}({}, {}) && sem_{}(t, x, {}, {}) }}", y, a, c, a, c, n, a, c, n, a, c));
                        req.push(format!("span_{}_opt(t, {}, {}, {})", n, y, a, c));
                    }
                    q => {
                        params.push(format!("{}: Vec<{}>", y, t));
                        req.push(format!("{} {} {}", a, if q == "+" { "<" } else { "<=" }, c));
                        if q == "+" {
                            req.push(format!("{}@.len() >= 1", y));
                        }
                        req.push(format!("r_{}_list({}, {})", n, a, c));
                        req.push(format!("sem_{}_list(t, {}@, {}@.len() as int, {}, {})", n, y, y, a, c));
                        req.push(format!("span_{}_list(t, {}@, {}, {})", n, y, a, c));
                    }
                }
                b += 1;
            }
        }
    }
    req.push(format!("b{} <= t.len()", b));
    let rty = ty_text(&nt.ty)?;
    let mut value: Expr = syn::parse2(p.value.clone()).map_err(|e| format!("action: {}", e))?;
    helpers.inline_expr(&mut value, "");
    let inlined = quote! { #value };
    if p.fallible {
        syn::visit_mut::VisitMut::visit_expr_mut(&mut Refuse, &mut value);
    }
    let mut x = Xf::new(o);
    syn::visit_mut::VisitMut::visit_expr_mut(&mut x, &mut value);
    problems.append(&mut x.unsupported);
    let body = print(quote! { #value }, &mut NoMarks);
    let mut s = String::new();
    s.push_str(&format!("// {} line {}\n", GRAMMAR, p.line));
    s.push_str(&format!("fn p_{}_{}({}) -> (r: {})\n", nt.name, k + 1, ghost.iter().chain(params.iter()).cloned().collect::<Vec<_>>().join(", "), if p.fallible { format!("Result<{}, VxRefused>", rty) } else { rty }));
    s.push_str("    requires\n");
    for r in &req {
        s.push_str(&format!("        {},\n", r));
    }
    s.push_str("    ensures\n");
    let (r, given) = if p.fallible { ("r->Ok_0", "r is Ok ==> ") } else { ("r", "") };
    if p.fallible {
        // what the rules derive is accepted
        s.push_str("        r is Ok, //@ C17\n");
    }
    s.push_str(&format!("        {}sem_{}(t, {}, b0, b{}), //@ C12\n", given, nt.name, r, b));
    s.push_str(&format!("        {}span_{}(t, {}, b0, b{}), //@ C13\n", given, nt.name, r, b));
    let mut made = vec![];
    nodes(inlined.clone(), known_in, &mut made);
    let facts: String = made.iter().map(|n| format!(", i_in_{}", n)).collect();
    s.push_str(&format!("{{\nbroadcast use vx_facts, i_sem_{}{};\n", nt.name, facts));
    if nt.name == "ImportDeclarations" {
        s.push_str("proof { reveal(sem_ImportDeclarations); reveal(in_NodeImportDeclarations); }\n");
    }
    let mut lits = vec![];
    literals(inlined, &mut lits);
    for l in lits {
        s.push_str(&format!("proof {{ reveal_strlit({}); }}\n", l));
    }
    s.push_str(&body);
    s.push_str("\n}\n");
    Ok((s, problems))
}

/// What the rules derive (C17).
pub fn lang(repo: &Repo, cdir: &FsPath) -> R<Out> {
    let c = Contracts::load(&[cdir.join("lang.vx")]);
    let gr = reader(repo)?;
    let mut o = opts();
    o.strip_modules = vec!["lexer".into()];
    let mut g = Gen::new(repo, &c, o.clone());
    g.prelude();
    g.data(LEXER, "Token")?;
    let doc = predicates(&c, "doc_");
    let names: BTreeSet<String> = gr.nts.iter().map(|n| n.name.clone()).collect();
    let known: BTreeSet<String> = doc.iter().filter(|n| names.contains(*n)).cloned().collect();
    if !known.contains("Program") {
        return Err("no rule Program".into());
    }
    let mut rules: BTreeMap<String, Vec<Flat>> = BTreeMap::new();
    for n in &known {
        let mut f = Flattener { g: &gr, known: &known, n: 0, stack: vec![] };
        let r = f.rule(n)?;
rules.insert(n.clone(), r);
    }
    // which symbols derive nothing
    let mut nullable: BTreeSet<String> = BTreeSet::new();
    loop {
        let mut more = false;
        for (n, ps) in &rules {
            if !nullable.contains(n) && ps.iter().any(|p| p.items.iter().all(|i| null(&i.sym, &nullable))) {
                nullable.insert(n.clone());
                more = true;
            }
        }
        if !more {
            break;
        }
    }
    if !nullable.is_empty() {
        return Err(format!("rules that derive nothing: {:?}", nullable));
    }
    // symbols that can span all of a rule's text
    let mut unit: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for (n, ps) in &rules {
        let e = unit.entry(n.clone()).or_default();
        for p in ps {
            for (i, it) in p.items.iter().enumerate() {
                if let Some(m) = base(&it.sym) {
                    if p.items.iter().enumerate().all(|(j, x)| j == i || null(&x.sym, &nullable)) {
                        e.insert(m);
                    }
                }
            }
        }
    }
    let mut rank: BTreeMap<String, usize> = BTreeMap::new();
    fn rk(n: &str, unit: &BTreeMap<String, BTreeSet<String>>, rank: &mut BTreeMap<String, usize>, depth: usize) -> R<usize> {
        if let Some(r) = rank.get(n) {
            return Ok(*r);
        }
        if depth > 200 {
            return Err("a rule that derives itself".into());
        }
        let mut r = 0;
        for m in &unit[n] {
            r = r.max(rk(m, unit, rank, depth + 1)? + 4);
        }
        rank.insert(n.to_string(), r);
        Ok(r)
    }
    for n in rules.keys() {
        rk(n, &unit, &mut rank, 0)?;
    }
    for (n, ps) in &rules {
        let r = rank[n];
        let mut alts: Vec<String> = vec![];
        for p in ps {
            for x in expand(&p.items)? {
                let f = chain(&gr, &x)?;
                if !alts.contains(&f) {
                    alts.push(f);
                }
            }
        }
        g.push(&format!("spec fn der_{}(t: Toks, lo: int, hi: int) -> bool\n    decreases hi - lo, {}nat\n{{\n    0 <= lo < hi <= t.len() && (\n        {}\n    )\n}}", n, r, alts.join("\n        || ")));
        g.push(&format!("spec fn der_{n}_plus(t: Toks, lo: int, hi: int) -> bool\n    decreases hi - lo, {}nat\n{{ lo < hi && ((r_{n}(lo, hi) && der_{n}(t, lo, hi)) || exists|m: int| #![trigger r_{n}_plus(lo, m), r_{n}(m, hi)] lo < m < hi && r_{n}_plus(lo, m) && r_{n}(m, hi) && der_{n}_plus(t, lo, m) && der_{n}(t, m, hi)) }}", r + 1));
    }
    // the rules derive what is documented
    let body_of = |n: &str| -> String {
        let head = format!("spec fn doc_{}(", n);
        let i = c.prelude.find(&head).unwrap();
        let rest = &c.prelude[i + head.len()..];
        let j = rest.find("\nspec fn ").unwrap_or(rest.len());
        rest[..j].to_string()
    };
    for (n, ps) in &rules {
        let r = rank[n];
        let mut uses: BTreeSet<(String, &str)> = BTreeSet::new();
        for p in ps {
            for it in &p.items {
                if let Some(m) = base(&it.sym) {
                    uses.insert((m, suffix(&it.sym)));
                }
            }
        }
        let b = body_of(n);
        for m in &known {
            for s in ["", "_plus"] {
                if b.contains(&format!("doc_{}{}(", m, s)) {
                    uses.insert((m.clone(), s));
                }
            }
        }
        let mut s = String::new();
        for (m, q) in &uses {
            let low = rank[m] + 4 <= r;
            let f = format!("{}{}", m, q);
            if low {
                s.push_str(&format!("    eq_{f}(t, lo, hi);\n"));
            }
            s.push_str(&format!("    assert forall|a: int, b: int| #![trigger r_{f}(a, b)] lo <= a <= b <= hi && b - a < hi - lo implies doc_{f}(t, a, b) == der_{f}(t, a, b) by {{ eq_{f}(t, a, b); }}\n"));
        }
        let first = g.line();
        let line = gr.nts.iter().find(|x| x.name == *n).and_then(|x| x.prods.first().map(|p| p.line)).unwrap_or(0);
        g.push(&format!("// what the rule {n} derives (line {line} of {GRAMMAR}) is what is documented\nproof fn eq_{n}(t: Toks, lo: int, hi: int)\n    ensures doc_{n}(t, lo, hi) == der_{n}(t, lo, hi), //@ C17\n    decreases hi - lo, {}nat,\n{{\n    if 0 <= lo < hi <= t.len() {{\n{s}    }}\n}}\n", r));
        g.push(&format!("proof fn eq_{n}_plus(t: Toks, lo: int, hi: int)\n    ensures doc_{n}_plus(t, lo, hi) == der_{n}_plus(t, lo, hi),\n    decreases hi - lo, {}nat,\n{{\n    if lo < hi {{\n        eq_{n}(t, lo, hi);\n        assert forall|a: int, b: int| #![trigger r_{n}(a, b)] lo <= a <= b <= hi && b - a < hi - lo implies doc_{n}(t, a, b) == der_{n}(t, a, b) by {{ eq_{n}(t, a, b); }}\n        assert forall|a: int, b: int| #![trigger r_{n}_plus(a, b)] lo <= a <= b <= hi && b - a < hi - lo implies doc_{n}_plus(t, a, b) == der_{n}_plus(t, a, b) by {{ eq_{n}_plus(t, a, b); }}\n    }}\n}}\n", r + 1));
        let last = g.line();
        g.out.fns.push(FnInfo { key: n.clone(), file: GRAMMAR.into(), src_line: line, first, last, contracted: true, props: vec!["C17".into()] });
    }
    Ok(g.finish())
}

fn base(s: &Sym) -> Option<String> {
    match s {
        Sym::Nt(n) => Some(n.clone()),
        Sym::Opt(x) | Sym::Star(x) | Sym::Plus(x) => base(x),
        _ => None,
    }
}
fn suffix(s: &Sym) -> &'static str {
    match s {
        Sym::Star(_) | Sym::Plus(_) => "_plus",
        _ => "",
    }
}
fn null(s: &Sym, nullable: &BTreeSet<String>) -> bool {
    match s {
        Sym::Left | Sym::Right | Sym::Opt(_) | Sym::Star(_) => true,
        Sym::Term(_) => false,
        Sym::Nt(n) => nullable.contains(n),
        Sym::Plus(x) => null(x, nullable),
    }
}

/// `?` and `*` as alternatives.
fn expand(items: &[FItem]) -> R<Vec<Vec<Sym>>> {
    let mut r: Vec<Vec<Sym>> = vec![vec![]];
    for i in items {
        let ways: Vec<Option<Sym>> = match &i.sym {
            Sym::Left | Sym::Right => continue,
            Sym::Opt(x) => vec![None, Some((**x).clone())],
            Sym::Star(x) => vec![None, Some(Sym::Plus(x.clone()))],
            s => vec![Some(s.clone())],
        };
        r = r.iter().flat_map(|x| ways.iter().map(move |w| x.iter().cloned().chain(w.iter().cloned()).collect())).collect();
        if r.len() > 64 {
            return Err("too many alternatives".into());
        }
    }
    Ok(r)
}

/// The formula: t[lo..hi] is these symbols.
fn chain(gr: &Grammar, syms: &[Sym]) -> R<String> {
    let mut vars: Vec<String> = vec![];
    let (mut rng, mut toks, mut subs, mut marks) = (vec![], vec![], vec![], vec![]);
    let (mut cur, mut off) = ("lo".to_string(), 0usize);
    let at = |b: &str, o: usize| if o == 0 { b.to_string() } else { format!("{} + {}", b, o) };
    for (i, s) in syms.iter().enumerate() {
        if let Sym::Term(l) = s {
            let (tok, _) = gr.terms.get(l).ok_or(format!("no token {}", l))?;
            toks.push(format!("t[{}].tok is {}", at(&cur, off), tok));
            off += 1;
            continue;
        }
        if off > 0 {
            let v = format!("s{}", i);
            rng.push(format!("{} == {}", v, at(&cur, off)));
            vars.push(v.clone());
            cur = v;
            off = 0;
        }
        let e = if i + 1 == syms.len() {
            "hi".to_string()
        } else {
            let e = format!("e{}", i);
            vars.push(e.clone());
            e
        };
        let n = base(s).ok_or("symbol")?;
        let x = format!("{}{}", n, suffix(s));
        rng.push(format!("{} < {}", cur, e));
        marks.push(format!("r_{}({}, {})", x, cur, e));
        subs.push(format!("der_{}(t, {}, {})", x, cur, e));
        cur = e;
    }
    if cur != "hi" || off > 0 {
        rng.push(format!("hi == {}", at(&cur, off)));
    }
    for v in &vars {
        rng.push(format!("lo <= {} <= hi", v));
    }
    let m = marks.join(", ");
    let f = rng.into_iter().chain(toks).chain(marks).chain(subs).collect::<Vec<_>>().join(" && ");
    Ok(if vars.is_empty() {
        format!("({})", f)
    } else {
        format!("(exists|{}| #![trigger {}] {})", vars.iter().map(|v| format!("{}: int", v)).collect::<Vec<_>>().join(", "), m, f)
    })
}

/// What an action refuses with does not matter.
struct Refuse;
impl syn::visit_mut::VisitMut for Refuse {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err")) {
                *e = parse_quote! { Err(VxRefused) };
                return;
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

fn literals(ts: TokenStream, out: &mut Vec<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => literals(g.stream(), out),
            proc_macro2::TokenTree::Literal(l) => {
                let l = l.to_string();
                if l.starts_with('"') && !out.contains(&l) {
                    out.push(l);
                }
            }
            _ => {}
        }
    }
}

fn nodes(ts: TokenStream, known: &BTreeSet<String>, out: &mut Vec<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => nodes(g.stream(), known, out),
            proc_macro2::TokenTree::Ident(i) => {
                let i = i.to_string();
                if known.contains(&i) && !out.contains(&i) {
                    out.push(i);
                }
            }
            _ => {}
        }
    }
}
