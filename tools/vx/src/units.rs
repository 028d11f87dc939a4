use crate::contracts::*;
use crate::gen::*;
use crate::xf::*;
use quote::quote;
use std::path::Path as FsPath;
use syn::*;

type R<T> = std::result::Result<T, String>;

pub const NODES: &str = "src/ast/nodes.rs";
const VISITOR: &str = "src/ast/visitor.rs";
const EMITTER: &str = "src/simplified_representation/emitter.rs";
const PRIM: &str = "src/simplified_representation/primitives.rs";
const TYPE: &str = "src/type.rs";
const FIELD: &str = "src/field.rs";
const TRANSITION: &str = "src/transition.rs";
const CONTRACT: &str = "src/contract.rs";
pub const LEXER: &str = "src/parser/lexer.rs";
const ERROR: &str = "src/error.rs";
const AST: &str = "src/ast/mod.rs";

pub fn run(unit: &str, repo: &FsPath, cdir: &FsPath) -> R<Out> {
    let repo = Repo::load(repo)?;
    match unit {
        "emit" => emit(&repo, cdir),
        "visit" => visit(&repo, cdir),
        "lex" => lex(&repo, cdir),
        "disp" => disp(&repo, cdir),
        "text" => text(&repo, cdir),
        "api" => api(&repo, cdir),
        "gram" => crate::gram::gram(&repo, cdir),
        "lang" => crate::gram::lang(&repo, cdir),
        _ => Err(format!("no unit {}", unit)),
    }
}

pub fn opts() -> Opts {
    let s = |x: &[(&str, &str)]| x.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>();
    Opts {
        rename_methods: s(&[("to_string", "vx_to_string"), ("into", "vx_into"), ("starts_with", "vx_starts_with"), ("strip_prefix", "vx_strip_prefix"), ("parse", "vx_parse"), ("to_owned", "vx_to_string"), ("clone", "vx_clone"),
            ("is_ascii", "vx_is_ascii"), ("is_ascii_digit", "vx_is_ascii_digit"), ("is_ascii_lowercase", "vx_is_ascii_lowercase"), ("is_ascii_uppercase", "vx_is_ascii_uppercase"), ("is_ascii_alphabetic", "vx_is_ascii_alphabetic"), ("is_ascii_alphanumeric", "vx_is_ascii_alphanumeric"), ("is_ascii_hexdigit", "vx_is_ascii_hexdigit"), ("is_ascii_whitespace", "vx_is_ascii_whitespace"), ("is_ascii_control", "vx_is_ascii_control"), ("is_ascii_graphic", "vx_is_ascii_graphic"), ("is_ascii_punctuation", "vx_is_ascii_punctuation")]),
        newtype_fields: vec![],
        ..Opts::default()
    }
}

/// Names of the data types declared in a file, in order.
pub fn data_names(repo: &Repo, file: &str) -> R<Vec<String>> {
    Ok(repo
        .items(file)?
        .iter()
        .filter_map(|i| match i {
            Item::Struct(s) => Some(s.ident.to_string()),
            Item::Enum(s) => Some(s.ident.to_string()),
            _ => None,
        })
        .collect())
}

/// `impl Display for X` as `impl VxFmt for X`.
fn display_impls(g: &mut Gen, file: &str) -> R<()> {
    for i in g.repo.items(file)? {
        let Item::Impl(im) = i else { continue };
        let Some((_, tr, _)) = &im.trait_ else { continue };
        if tr.segments.last().unwrap().ident != "Display" {
            continue;
        }
        let ty = ty_str(&im.self_ty);
        let generic = !im.generics.params.is_empty();
        let f = im
            .items
            .iter()
            .find_map(|x| match x {
                ImplItem::Fn(f) if f.sig.ident == "fmt" => Some(f.clone()),
                _ => None,
            })
            .ok_or("Display without fmt")?;
        let self_ty = &im.self_ty;
        let head = if generic { quote! { impl<T: VxFmt> VxFmt for #self_ty } } else { quote! { impl VxFmt for #self_ty } };
        let head = crate::printer::print(head, &mut crate::printer::NoMarks);
        g.push(&format!("{} {{", head.trim_end()));
        let name = ty.split('<').next().unwrap().to_string();
        g.text(&format!("text {}", name));
        // the signature is the trait's
        let sig: Signature = syn::parse_quote! { fn fmt(&self, f: &mut VxFormatter) -> Result<(), VxFmtError> };
        let fp = f.sig.inputs.iter().nth(1).cloned();
        let mut block = f.block.clone();
        if let Some(FnArg::Typed(t)) = fp {
            if let Pat::Ident(p) = &*t.pat {
                if p.ident != "f" {
                    let id = &p.ident;
                    let b = &f.block;
                    block = syn::parse_quote! { { let #id = f; #b } };
                }
            }
        }
        g.func(&format!("{}::fmt", name), file, &sig, &block);
        g.push("}");
    }
    Ok(())
}

/// Nodes the emitter never reaches: their visits are verified never to be called.
fn emit(repo: &Repo, cdir: &FsPath) -> R<Out> {
    let c = Contracts::load(&[cdir.join("common.vx"), cdir.join("types.vx"), cdir.join("nodes.vx"), cdir.join("emit.vx")]);
    let mut o = opts();
    o.newtype_fields = newtypes(repo)?;
    let mut g = Gen::new(repo, &c, o);
    g.helpers(&[EMITTER, PRIM, TYPE, FIELD, TRANSITION, CONTRACT, VISITOR, NODES, AST])?;
    g.prelude();
    g.data(LEXER, "SourcePosition")?;
    for n in data_names(repo, NODES)? {
        g.data(NODES, &n)?;
    }
    for n in ["TreeTraversalMode", "TraversalResult"] {
        g.data(AST, n)?;
    }
    for n in ["SrIdentifierKind", "SrIdentifier", "AddressType", "SrType"] {
        g.data(PRIM, n)?;
    }
    for f in [TYPE, FIELD, TRANSITION, CONTRACT] {
        for n in data_names(repo, f)? {
            g.data(f, &n)?;
        }
    }
    for n in data_names(repo, EMITTER)? {
        g.data(EMITTER, &n)?;
    }
    g.derives(NODES, "WithMetaData", "Clone")?;
    g.derives(FIELD, "FieldList", "Default")?;
    g.derives(TRANSITION, "TransitionList", "Default")?;
    g.derives(CONTRACT, "Contract", "Default")?;
    g.derives(EMITTER, "SrEmitter", "Default")?;
    display_impls(&mut g, NODES)?;
    g.impls(PRIM, |t, _| t.is_none())?;
    g.impls(FIELD, |t, y| t.is_none() && (y == "Field" || y == "FieldList"))?;
    g.impls(TRANSITION, |t, y| t.is_none() && y == "Transition")?;
    from_impls(&mut g, PRIM)?;
    from_impls(&mut g, TYPE)?;
    g.impls(EMITTER, |t, y| y == "SrEmitter" && (t.is_none() || t == Some("AstConverting")))?;
    visits(&mut g, "SrEmitter")?;
    g.free_fns(EMITTER)?;
    g.free_fns(TYPE)?;
    g.free_fns(PRIM)?;
    g.free_fns(VISITOR)?;
    Ok(g.finish())
}

/// The traversal, for a converter that answers anything.
fn visit(repo: &Repo, cdir: &FsPath) -> R<Out> {
    let c = Contracts::load(&[cdir.join("visit.vx")]);
    let mut g = Gen::new(repo, &c, opts());
    g.helpers(&[VISITOR, NODES, AST])?;
    g.prelude();
    g.data(LEXER, "SourcePosition")?;
    for n in data_names(repo, NODES)? {
        g.data(NODES, &n)?;
    }
    for n in ["TreeTraversalMode", "TraversalResult"] {
        g.data(AST, n)?;
    }
    visits(&mut g, "VxEm")?;
    g.free_fns(VISITOR)?;
    Ok(g.finish())
}

/// `impl From<A> for B` as a function `B::from` and the trait the `.into()` calls are turned into.
fn from_impls(g: &mut Gen, file: &str) -> R<()> {
    for i in g.repo.items(file)? {
        let Item::Impl(im) = i else { continue };
        let Some((_, tr, _)) = &im.trait_ else { continue };
        if tr.segments.last().unwrap().ident != "From" {
            continue;
        }
        let PathArguments::AngleBracketed(a) = &tr.segments.last().unwrap().arguments else { continue };
        let from = ty_str(match a.args.first() {
            Some(GenericArgument::Type(t)) => t,
            _ => continue,
        });
        let to = ty_str(&im.self_ty);
        g.push(&format!("impl {} {{", to));
        for it in &im.items {
            if let ImplItem::Fn(f) = it {
                let mut sig = f.sig.clone();
                let mut block = f.block.clone();
                // several From impls for one type get different names
                sig.ident = quote::format_ident!("from_{}", from);
                let _ = &mut block;
                g.func(&format!("{}::from_{}", to, from), file, &sig, &block);
            }
        }
        g.push("}");
        g.text(&format!("into {} {}", from, to));
    }
    Ok(())
}

/// Fields whose type is a newtype over Vec with Deref.
fn newtypes(repo: &Repo) -> R<Vec<(String, Vec<String>)>> {
    let mut v = vec![];
    for (file, name, fields) in [(FIELD, "FieldList", &["init_params", "$fields"][..]), (TRANSITION, "TransitionList", &["transitions"][..])] {
        let mut own = vec![];
        let mut ok = false;
        let mut ok_mut = true;
        for i in repo.items(file)? {
            let Item::Impl(im) = i else { continue };
            if ty_str(&im.self_ty) != name {
                continue;
            }
            match &im.trait_ {
                None => {
                    for it in &im.items {
                        if let ImplItem::Fn(f) = it {
                            own.push(f.sig.ident.to_string());
                        }
                    }
                }
                Some((_, t, _)) if t.segments.last().unwrap().ident == "Deref" => {
                    for it in &im.items {
                        if let ImplItem::Fn(f) = it {
                            let b = &f.block;
                            ok = quote!(#b).to_string().replace(' ', "") == "{&self.0}";
                        }
                    }
                }
                Some((_, t, _)) if t.segments.last().unwrap().ident == "DerefMut" => {
                    for it in &im.items {
                        if let ImplItem::Fn(f) = it {
                            let b = &f.block;
                            ok_mut = quote!(#b).to_string().replace(' ', "") == "{&mutself.0}";
                        }
                    }
                }
                _ => {}
            }
        }
        if !ok || !ok_mut {
            return Err(format!("Deref of {} is not its field 0", name));
        }
        for f in fields {
            v.push((f.to_string(), own.clone()));
        }
    }
    Ok(v)
}

/// The visitor's functions, for one concrete emitter.
fn visits(g: &mut Gen, emitter: &str) -> R<()> {
    let items = g.repo.items(VISITOR)?;
    let mut wrap: Option<ItemImpl> = None;
    let mut names = vec![];
    let em: Ident = syn::parse_str(emitter).unwrap();
    let conv = |f: &ImplItemFn| {
        let mut f = f.clone();
        for a in f.sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                if ty_str(&t.ty).contains("dynAstConverting") {
                    *t.ty = syn::parse_quote! { &mut #em };
                }
            }
        }
        f
    };
    for i in &items {
        let Item::Impl(im) = i else { continue };
        let Some((_, tr, _)) = &im.trait_ else { continue };
        if tr.segments.last().unwrap().ident != "AstVisitor" {
            continue;
        }
        if !im.generics.params.is_empty() {
            wrap = Some(im.clone());
            continue;
        }
        let ty = ty_str(&im.self_ty);
        names.push(ty.clone());
        g.push(&format!("impl {} {{", ty));
        for it in &im.items {
            if let ImplItem::Fn(f) = it {
                let f = conv(f);
                g.func(&format!("{}::{}", ty, f.sig.ident), VISITOR, &f.sig, &f.block);
            }
        }
        g.push("}");
    }
    let wrap = wrap.ok_or("no visitor for WithMetaData")?;
    for n in names {
        // one instance for each node that is wrapped somewhere
        let pat = format!("WithMetaData<{}>", n);
        let nodes = g.repo.text.get(NODES).cloned().unwrap_or_default();
        if !nodes.contains(&pat) {
            continue;
        }
        g.push(&format!("impl WithMetaData<{}> {{", n));
        for it in &wrap.items {
            if let ImplItem::Fn(f) = it {
                let f = conv(f);
                g.func(&format!("WithMetaData<{}>::{}", n, f.sig.ident), VISITOR, &f.sig, &f.block);
            }
        }
        g.push("}");
    }
    Ok(())
}

/// `const NAME: &str = "..."` of a file.
fn str_consts(repo: &Repo, file: &str) -> R<Vec<(String, String)>> {
    Ok(repo
        .items(file)?
        .iter()
        .filter_map(|i| match i {
            Item::Const(c) => match &*c.expr {
                Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some((c.ident.to_string(), s.value())),
                _ => None,
            },
            _ => None,
        })
        .collect())
}

/// The lexer and the spelling of tokens.
fn lex(repo: &Repo, cdir: &FsPath) -> R<Out> {
    let c = Contracts::load(&[cdir.join("common.vx"), cdir.join("lex.vx")]);
    let s = |x: &[(&str, &str)]| x.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>();
    let mut o = opts();
    o.rename_methods.retain(|(a, _)| a != "clone");
    o.rename_methods.extend(s(&[
        ("is_alphanumeric", "vx_is_alphanumeric"), ("is_numeric", "vx_is_numeric"), ("is_whitespace", "vx_is_whitespace"),
        ("is_alphabetic", "vx_is_alphabetic"), ("len_utf8", "vx_len_utf8"), ("char_indices", "vx_char_indices"), ("bytes", "vx_bytes"),
    ]));
    o.rename_idents = s(&[("Peekable", "VxPeekable"), ("CharIndices", "VxCharIndices"), ("ToString", "VxFmt")]);
    o.str_consts = str_consts(repo, LEXER)?;
    o.str_slices = true;
    o.iter_loops = true;
    let mut g = Gen::new(repo, &c, o);
    g.helpers(&[LEXER])?;
    g.prelude();
    for n in ["Token", "SourcePosition", "ParseError", "Lexer"] {
        g.data(LEXER, n)?;
    }
    g.derives(LEXER, "SourcePosition", "Copy")?;
    g.text("types");
    let mut from = false;
    let mut next = false;
    for i in repo.items(LEXER)? {
        let Item::Impl(im) = &i else { continue };
        let ty = ty_str(&im.self_ty);
        match &im.trait_ {
            None if ty == "Lexer<'input>" || ty == "SourcePosition" => g.impl_block(LEXER, im, None),
            Some((_, t, _)) if t.segments.last().unwrap().ident == "Iterator" && ty == "Lexer<'input>" => {
                let mut im = im.clone();
                let item = im.items.iter().find_map(|x| match x {
                    ImplItem::Type(t) if t.ident == "Item" => Some(t.ty.clone()),
                    _ => None,
                });
                // the type alias of the item written out
                let item = item.ok_or("no Item")?;
                let Type::Path(p) = &item else { return Err("Item is not a path".into()) };
                let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments else { return Err("Item".into()) };
                let a: Vec<&GenericArgument> = a.args.iter().collect();
                if a.len() != 3 {
                    return Err("Item".into());
                }
                let (t, l, e) = (a[0], a[1], a[2]);
                let full: Type = syn::parse_quote! { std::result::Result<(#l, #t, #l), #e> };
                for x in im.items.iter_mut() {
                    if let ImplItem::Fn(f) = x {
                        if let ReturnType::Type(_, t) = &mut f.sig.output {
                            **t = syn::parse_quote! { Option<#full> };
                        }
                    }
                }
                im.trait_ = None;
                g.impl_block(LEXER, &im, Some(&["next"]));
                next = true;
            }
            Some((_, t, _)) if t.segments.last().unwrap().ident == "From" && ty == "String" => {
                for it in &im.items {
                    if let ImplItem::Fn(f) = it {
                        let mut sig = f.sig.clone();
                        sig.ident = quote::format_ident!("string_from_token");
                        sig.generics = im.generics.clone();
                        sig.output = syn::parse_quote! { -> String };
                        g.func("String::from", LEXER, &sig, &f.block);
                        from = true;
                    }
                }
            }
            _ => {}
        }
    }
    if !from || !next {
        return Err("no Lexer::next or no conversion of tokens".into());
    }
    g.free_fns(LEXER)?;
    Ok(g.finish())
}

/// Printing types.
fn disp(repo: &Repo, cdir: &FsPath) -> R<Out> {
    let c = Contracts::load(&[cdir.join("common.vx"), cdir.join("disp.vx")]);
    let mut o = opts();
    o.newtype_fields = newtypes(repo)?;
    let mut g = Gen::new(repo, &c, o);
    g.helpers(&[TYPE, FIELD])?;
    g.prelude();
    for f in [TYPE, FIELD] {
        for n in data_names(repo, f)? {
            g.data(f, &n)?;
        }
    }
    display_impls(&mut g, TYPE)?;
    display_impls(&mut g, FIELD)?;
    g.free_fns(TYPE)?;
    g.free_fns(FIELD)?;
    Ok(g.finish())
}

/// The entry points.
fn api(repo: &Repo, cdir: &FsPath) -> R<Out> {
    let c = Contracts::load(&[cdir.join("api.vx")]);
    let mut o = opts();
    let s = |x: &[(&str, &str)]| x.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>();
    o.rename_idents = s(&[("from", "vx_from"), ("from_utf8", "vx_from_utf8"), ("from_utf8_lossy", "vx_lossy")]);
    o.rename_methods.retain(|(a, _)| a != "strip_prefix" && a != "starts_with");
    o.rename_methods.extend(s(&[
        ("trim", "vx_trim"), ("trim_start", "vx_trim_start"), ("trim_end", "vx_trim_end"), ("to_lowercase", "vx_lowercase"), ("replace", "vx_replace"),
        ("trim_matches", "vx_trim_matches"), ("trim_start_matches", "vx_trim_matches"), ("trim_end_matches", "vx_trim_matches"), ("strip_prefix", "vx_strip"),
        ("strip_suffix", "vx_strip"), ("is_empty", "vx_is_empty"), ("into_owned", "vx_into_owned"), ("as_str", "vx_as_str"), ("as_ref", "vx_as_str"),
    ]));
    o.strip_modules = ["std", "core", "fs", "io", "string", "path", "crate", "parser", "lexer", "simplified_representation", "emitter", "lalrpop_util", "fmt"].iter().map(|x| x.to_string()).collect();
    o.convert_errors = true;
    let mut g = Gen::new(repo, &c, o);
    g.helpers(&[CONTRACT, ERROR])?;
    g.prelude();
    g.data(ERROR, "Error")?;
    g.data(CONTRACT, "Contract")?;
    // `#[from]` of thiserror: the conversion wraps the value
    for i in repo.items(ERROR)? {
        let Item::Enum(e) = i else { continue };
        if e.ident != "Error" {
            continue;
        }
        for v in &e.variants {
            for f in &v.fields {
                if f.attrs.iter().any(|a| a.path().is_ident("from")) {
                    let mut t = f.ty.clone();
                    let o = g.opts.clone();
                    syn::visit_mut::VisitMut::visit_type_mut(&mut Xf::new(&o), &mut t);
                    let n = &v.ident;
                    let s = quote! { impl VxFrom<#t> for Error {
                        spec fn from_ok(v: #t, r: Error) -> bool { r == Error::#n(v) }
                        fn vx_from(value: #t) -> (r: Error) { Error::#n(value) }
                    } };
                    g.push(&s.to_string());
                }
            }
        }
    }
    let mut froms = 0;
    for i in repo.items(ERROR)? {
        let Item::Impl(im) = &i else { continue };
        let Some((_, t, _)) = &im.trait_ else { continue };
        if t.segments.last().unwrap().ident != "From" || ty_str(&im.self_ty) != "Error" {
            continue;
        }
        let PathArguments::AngleBracketed(a) = &t.segments.last().unwrap().arguments else { return Err("From".into()) };
        let mut arg = a.args.clone();
        let o = g.opts.clone();
        for x in arg.iter_mut() {
            syn::visit_mut::VisitMut::visit_generic_argument_mut(&mut Xf::new(&o), x);
        }
        let ps: Vec<Ident> = im.generics.type_params().map(|p| p.ident.clone()).collect();
        let head = quote! { impl<#(#ps),*> VxFrom<#arg> for Error };
        g.push(&format!("{} {{", head));
        if quote!(#arg).to_string().starts_with("ParseError") && ps.len() == 3 {
            g.text("from_parse_error");
        } else {
            return Err(format!("another conversion of errors: {}", quote!(#arg)));
        }
        for it in &im.items {
            if let ImplItem::Fn(f) = it {
                let mut sig = f.sig.clone();
                sig.ident = quote::format_ident!("vx_from");
                g.func("Error::from", ERROR, &sig, &f.block);
                froms += 1;
            }
        }
        g.push("}");
    }
    if froms != 1 {
        return Err("no conversion from ParseError".into());
    }
    for i in repo.items(CONTRACT)? {
        let Item::Impl(im) = &i else { continue };
        if ty_str(&im.self_ty) != "Contract" {
            continue;
        }
        match &im.trait_ {
            None => g.impl_block(CONTRACT, im, None),
            Some((_, t, _)) if t.segments.last().unwrap().ident == "FromStr" => {
                let mut im = im.clone();
                let err = im.items.iter().find_map(|x| match x {
                    ImplItem::Type(t) if t.ident == "Err" => Some(t.ty.clone()),
                    _ => None,
                });
                let err = err.ok_or("FromStr without Err")?;
                for x in im.items.iter_mut() {
                    if let ImplItem::Fn(f) = x {
                        f.sig.output = syn::parse_quote! { -> Result<Contract, #err> };
                    }
                }
                im.trait_ = None;
                g.impl_block(CONTRACT, &im, None);
                g.text("from_str");
            }
            _ => {}
        }
    }
    g.free_fns(CONTRACT)?;
    Ok(g.finish())
}

/// How the nodes that are names are written out.
fn text(repo: &Repo, cdir: &FsPath) -> R<Out> {
    let c = Contracts::load(&[cdir.join("common.vx"), cdir.join("nodes.vx"), cdir.join("text.vx")]);
    let mut o = opts();
    o.newtype_fields = newtypes(repo)?;
    let mut g = Gen::new(repo, &c, o);
    g.helpers(&[NODES])?;
    g.prelude();
    g.data(LEXER, "SourcePosition")?;
    for n in data_names(repo, NODES)? {
        g.data(NODES, &n)?;
    }
    g.derives(NODES, "WithMetaData", "Clone")?;
    display_impls(&mut g, NODES)?;
    g.free_fns(NODES)?;
    Ok(g.finish())
}
