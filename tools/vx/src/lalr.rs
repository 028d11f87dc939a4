//! Reader for LALRPOP grammars: the part of the notation that grammars without macros use.
use proc_macro2::{Delimiter, Group, Ident, Literal, TokenStream, TokenTree};
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq)]
pub enum Sym {
    /// `@L`
    Left,
    /// `@R`
    Right,
    /// a terminal, by its text in the grammar
    Term(String),
    Nt(String),
    Opt(Box<Sym>),
    Star(Box<Sym>),
    Plus(Box<Sym>),
}

#[derive(Debug, Clone)]
pub struct Item {
    /// name of the value
    pub name: Option<Ident>,
    pub mutable: bool,
    /// in angle brackets
    pub chosen: bool,
    pub sym: Sym,
}

#[derive(Debug, Clone)]
pub struct Prod {
    pub items: Vec<Item>,
    pub action: Option<TokenStream>,
    pub fallible: bool,
    pub line: usize,
}

#[derive(Debug, Clone)]
pub struct Nt {
    pub name: String,
    pub ty: TokenStream,
    pub prods: Vec<Prod>,
    pub public: bool,
}

#[derive(Debug, Default)]
pub struct Grammar {
    /// terminal -> (path of the token, has a payload)
    pub terms: BTreeMap<String, (TokenStream, bool)>,
    pub nts: Vec<Nt>,
}

type R<T> = Result<T, String>;

struct P {
    t: Vec<TokenTree>,
    i: usize,
}
impl P {
    fn new(ts: TokenStream) -> P {
        P { t: ts.into_iter().collect(), i: 0 }
    }
    fn peek(&self, k: usize) -> Option<&TokenTree> {
        self.t.get(self.i + k)
    }
    fn done(&self) -> bool {
        self.i >= self.t.len()
    }
    fn is_p(&self, k: usize, c: char) -> bool {
        matches!(self.peek(k), Some(TokenTree::Punct(p)) if p.as_char() == c)
    }
    fn is_id(&self, k: usize, s: &str) -> bool {
        matches!(self.peek(k), Some(TokenTree::Ident(p)) if p == s)
    }
    fn punct(&mut self, c: char) -> R<()> {
        if self.is_p(0, c) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("grammar: expected {} at {}", c, self.at()))
        }
    }
    fn ident(&mut self) -> R<Ident> {
        match self.peek(0) {
            Some(TokenTree::Ident(i)) => {
                let i = i.clone();
                self.i += 1;
                Ok(i)
            }
            _ => Err(format!("grammar: expected a name at {}", self.at())),
        }
    }
    fn at(&self) -> String {
        match self.peek(0) {
            Some(t) => {
                let s = t.to_string();
                format!("line {}: {}", t.span().start().line, s.chars().take(60).collect::<String>())
            }
            None => "the end".into(),
        }
    }
    fn group(&mut self, d: Delimiter) -> R<Group> {
        match self.peek(0) {
            Some(TokenTree::Group(g)) if g.delimiter() == d => {
                let g = g.clone();
                self.i += 1;
                Ok(g)
            }
            _ => Err(format!("grammar: expected a group at {}", self.at())),
        }
    }
    fn arrow(&self) -> bool {
        self.is_p(0, '=') && self.is_p(1, '>')
    }
    fn symbol(&mut self) -> R<Sym> {
        let mut s = match self.peek(0) {
            Some(TokenTree::Punct(p)) if p.as_char() == '@' => {
                self.i += 1;
                let id = self.ident()?;
                if id == "L" {
                    Sym::Left
                } else if id == "R" {
                    Sym::Right
                } else {
                    return Err(format!("grammar: @{}", id));
                }
            }
            Some(TokenTree::Literal(l)) => {
                let s = lit(l);
                self.i += 1;
                Sym::Term(s)
            }
            Some(TokenTree::Ident(_)) => {
                let id = self.ident()?;
                if self.is_p(0, '<') {
                    // a macro's arguments stand without a blank before them; a chosen symbol of the
                    // next item is never written so
                    let a = self.t[self.i - 1].span().end();
                    let b = self.t[self.i].span().start();
                    if a.line == b.line && a.column == b.column {
                        return Err(format!("grammar: macro {} at {}", id, self.at()));
                    }
                }
                Sym::Nt(id.to_string())
            }
            _ => return Err(format!("grammar: symbol at {}", self.at())),
        };
        loop {
            if self.is_p(0, '?') {
                self.i += 1;
                s = Sym::Opt(Box::new(s));
            } else if self.is_p(0, '*') {
                self.i += 1;
                s = Sym::Star(Box::new(s));
            } else if self.is_p(0, '+') {
                self.i += 1;
                s = Sym::Plus(Box::new(s));
            } else {
                return Ok(s);
            }
        }
    }
    fn alt(&mut self) -> R<Prod> {
        let line = self.peek(0).map(|t| t.span().start().line).unwrap_or(0);
        let mut items = vec![];
        while !self.done() && !self.is_p(0, ',') && !self.is_p(0, ';') && !self.arrow() {
            if self.is_p(0, '<') {
                self.i += 1;
                let mutable = self.is_id(0, "mut");
                if mutable {
                    self.i += 1;
                }
                let named = matches!(self.peek(0), Some(TokenTree::Ident(_))) && self.is_p(1, ':') && !self.is_p(2, ':');
                let name = if named {
                    let n = self.ident()?;
                    self.punct(':')?;
                    Some(n)
                } else {
                    None
                };
                let sym = self.symbol()?;
                self.punct('>')?;
                items.push(Item { name, mutable, chosen: true, sym });
            } else {
                let sym = self.symbol()?;
                items.push(Item { name: None, mutable: false, chosen: false, sym });
            }
        }
        let mut action = None;
        let mut fallible = false;
        if self.arrow() {
            self.i += 2;
            if self.is_p(0, '?') {
                self.i += 1;
                fallible = true;
            }
            let mut v = vec![];
            while !self.done() && !self.is_p(0, ',') && !self.is_p(0, ';') {
                v.push(self.t[self.i].clone());
                self.i += 1;
            }
            action = Some(v.into_iter().collect());
        }
        Ok(Prod { items, action, fallible, line })
    }
}

fn lit(l: &Literal) -> String {
    l.to_string()
}

pub fn parse(text: &str) -> R<Grammar> {
    let ts: TokenStream = text.parse().map_err(|e| format!("grammar: {}", e))?;
    let mut p = P::new(ts);
    let mut g = Grammar::default();
    while !p.done() {
        if p.is_id(0, "use") {
            while !p.done() && !p.is_p(0, ';') {
                p.i += 1;
            }
            p.punct(';')?;
        } else if p.is_id(0, "grammar") {
            while !p.done() && !p.is_p(0, ';') {
                p.i += 1;
            }
            p.punct(';')?;
        } else if p.is_id(0, "extern") {
            p.i += 1;
            let b = p.group(Delimiter::Brace)?;
            let mut q = P::new(b.stream());
            while !q.done() {
                if q.is_id(0, "enum") {
                    while !matches!(q.peek(0), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace) {
                        if q.done() {
                            return Err("grammar: tokens".into());
                        }
                        q.i += 1;
                    }
                    let b = q.group(Delimiter::Brace)?;
                    let mut r = P::new(b.stream());
                    while !r.done() {
                        let Some(TokenTree::Literal(l)) = r.peek(0).cloned() else { return Err(format!("grammar: token at {}", r.at())) };
                        r.i += 1;
                        if !r.arrow() {
                            return Err(format!("grammar: token at {}", r.at()));
                        }
                        r.i += 2;
                        let mut path: Vec<TokenTree> = vec![];
                        let mut payload = false;
                        while !r.done() && !r.is_p(0, ',') {
                            match &r.t[r.i] {
                                TokenTree::Group(g) => {
                                    if g.stream().into_iter().next().map(|t| t.to_string()) != Some("<".into()) {
                                        return Err(format!("grammar: token at {}", r.at()));
                                    }
                                    payload = true;
                                }
                                t => path.push(t.clone()),
                            }
                            r.i += 1;
                        }
                        if !r.done() {
                            r.punct(',')?;
                        }
                        // the last name of the path
                        let last = path.pop().ok_or("grammar: token")?;
                        if g.terms.insert(lit(&l), (std::iter::once(last).collect(), payload)).is_some() {
                            return Err(format!("grammar: two tokens {}", l));
                        }
                    }
                } else {
                    q.i += 1;
                }
            }
        } else {
            let mut public = false;
            while p.is_p(0, '#') {
                // `#[inline]` changes how the tables are made, not what the rule derives
                let inline = matches!(p.peek(1), Some(TokenTree::Group(g)) if g.stream().to_string() == "inline");
                if !inline {
                    return Err(format!("grammar: attribute at {}", p.at()));
                }
                p.i += 2;
            }
            if p.is_id(0, "pub") {
                p.i += 1;
                public = true;
                if matches!(p.peek(0), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis) {
                    p.i += 1;
                }
            }
            let name = p.ident()?.to_string();
            if !p.is_p(0, ':') {
                return Err(format!("grammar: no type of {} at {}", name, p.at()));
            }
            p.i += 1;
            let mut ty = vec![];
            while !p.done() && !(p.is_p(0, '=') && !p.is_p(1, '>')) {
                ty.push(p.t[p.i].clone());
                p.i += 1;
            }
            p.punct('=')?;
            let mut prods = vec![];
            if let Some(TokenTree::Group(b)) = p.peek(0).cloned() {
                if b.delimiter() != Delimiter::Brace {
                    return Err(format!("grammar: {} at {}", name, p.at()));
                }
                p.i += 1;
                let mut q = P::new(b.stream());
                while !q.done() {
                    prods.push(q.alt()?);
                    if !q.done() {
                        q.punct(',')?;
                    }
                }
                if p.is_p(0, ';') {
                    p.i += 1;
                }
            } else {
                prods.push(p.alt()?);
                p.punct(';')?;
            }
            if g.nts.iter().any(|n| n.name == name) {
                return Err(format!("grammar: two rules {}", name));
            }
            g.nts.push(Nt { name, ty: ty.into_iter().collect(), prods, public });
        }
    }
    Ok(g)
}
