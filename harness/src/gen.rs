//! Random program texts from the grammar, and mutations of texts.
use crate::rng::Rng;

/// Words and numbers that occur in the code under test: what a special case would look for.
/// Those that the code did not have when this was written count more.
#[derive(Default)]
pub struct Dict {
    words: Vec<Vec<String>>,
    pub sizes: Vec<usize>,
    pub texts: Vec<String>,
    /// whether there are new words, new numbers
    pub new_words: bool,
    pub new_sizes: bool,
}
/// What `words` printed for the code at the time of writing.
const BASE: &str = include_str!("base.txt");
static DICT: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
pub fn dict() -> &'static Dict {
    DICT.get_or_init(Dict::default)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Reg,
    Spec,
    Cus,
    Tmpl,
    Bys,
    Num,
    Hex,
    Str,
}
const KINDS: [K; 8] = [K::Reg, K::Spec, K::Cus, K::Tmpl, K::Bys, K::Num, K::Hex, K::Str];
fn kind_of(w: &str) -> Option<K> {
    use scilla_parser::parser::lexer::Token;
    let t = crate::reflex::lex(w);
    let [(a, t, b)] = &t[..] else { return None };
    if a.position != 0 || b.position != w.len() {
        return None;
    }
    Some(match t {
        Token::Identifier(_) => K::Reg,
        Token::SpecialIdentifier(_) => K::Spec,
        Token::CustomIdentifier(_) => K::Cus,
        Token::TemplateIdentifier(_) => K::Tmpl,
        Token::ByStrWithSize(_) => K::Bys,
        Token::Number(_) => K::Num,
        Token::HexNumber(_) => K::Hex,
        Token::StringLiteral(_) => K::Str,
        _ => return None,
    })
}
/// The literals of the sources, as lines: `t TEXT` and `n NUMBER`.
pub fn words(repo: &str) -> std::collections::BTreeSet<String> {
    let mut out = std::collections::BTreeSet::new();
    let mut dirs = vec![std::path::PathBuf::from(repo).join("src")];
    while let Some(dir) = dirs.pop() {
        let Ok(es) = std::fs::read_dir(&dir) else { continue };
        for p in es.flatten().map(|e| e.path()) {
            if p.is_dir() {
                dirs.push(p);
                continue;
            }
            let Ok(s) = std::fs::read_to_string(&p) else { continue };
            // the unit tests of a file come last
            let s = s.split("#[cfg(test)]").next().unwrap_or("");
            for l in s.lines() {
                let l = l.trim_start();
                if !l.starts_with("//") {
                    line_words(l, &mut out);
                }
            }
        }
    }
    out
}
fn line_words(l: &str, out: &mut std::collections::BTreeSet<String>) {
    let cs: Vec<char> = l.chars().collect();
    let mut i = 0;
    let esc = |c: char| match c {
        'n' => '\n',
        't' => '\t',
        'r' => '\r',
        '0' => '\0',
        c => c,
    };
    // the numbers of the line with the operator before each
    let mut last: Option<(usize, usize)> = None;
    while i < cs.len() {
        let word_before = i > 0 && (cs[i - 1].is_alphanumeric() || cs[i - 1] == '_');
        if cs[i] == '/' && cs.get(i + 1) == Some(&'/') {
            break;
        } else if cs[i] == '"' {
            let raw = i > 0 && cs[i - 1] == 'r' && !(i > 1 && (cs[i - 2].is_alphanumeric() || cs[i - 2] == '_'));
            let mut w = String::new();
            i += 1;
            while i < cs.len() && cs[i] != '"' {
                if cs[i] == '\\' && !raw && i + 1 < cs.len() {
                    i += 1;
                    w.push(esc(cs[i]));
                } else {
                    w.push(cs[i]);
                }
                i += 1;
            }
            i += 1;
            if w.len() <= 60 {
                out.insert(format!("t {}", w.escape_debug()));
            }
        } else if cs[i] == '\'' && cs.get(i + 2) == Some(&'\'') && cs[i + 1] != '\\' {
            out.insert(format!("t {}", cs[i + 1].escape_debug()));
            i += 3;
        } else if cs[i] == '\'' && cs.get(i + 1) == Some(&'\\') && cs.get(i + 3) == Some(&'\'') {
            out.insert(format!("t {}", esc(cs[i + 2]).escape_debug()));
            i += 4;
        } else if cs[i] == '\'' && cs.get(i + 1) == Some(&'\\') && cs.get(i + 2) == Some(&'u') {
            let h: String = cs[i + 3..].iter().skip(1).take_while(|c| c.is_ascii_hexdigit()).collect();
            if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                out.insert(format!("t {}", c.escape_debug()));
            }
            i += 4;
        } else if cs[i].is_ascii_digit() && !word_before {
            let from = i;
            let mut w = String::new();
            while i < cs.len() && (cs[i].is_ascii_alphanumeric() || cs[i] == '_') {
                w.push(cs[i]);
                i += 1;
            }
            let w = w.replace('_', "");
            let n = match w.strip_prefix("0x") {
                Some(h) => usize::from_str_radix(h, 16).ok(),
                None => w.trim_end_matches(|c: char| !c.is_ascii_digit()).parse().ok(),
            };
            if let Some(n) = n {
                let mut ns = vec![n];
                if let Some((m, end)) = last {
                    let op: String = cs[end..from].iter().filter(|c| !c.is_whitespace()).collect();
                    match op.as_str() {
                        "<<" if n < 23 => ns.push(m << n),
                        "*" => ns.push(m.saturating_mul(n)),
                        "+" => ns.push(m.saturating_add(n)),
                        "-" => ns.push(m.saturating_sub(n)),
                        _ => {}
                    }
                }
                last = Some((*ns.last().unwrap(), i));
                for n in ns {
                    if (2..=4_200_000).contains(&n) {
                        out.insert(format!("n {n}"));
                    }
                }
            }
        } else if (cs[i] == 'u' || cs[i] == 'i') && !word_before {
            let w: String = cs[i..].iter().take_while(|c| c.is_alphanumeric() || **c == '_').collect();
            let n = match w.as_str() {
                "u8" => 256,
                "i8" => 128,
                "u16" => 65536,
                "i16" => 32768,
                _ => 0,
            };
            if n > 0 {
                out.insert(format!("n {n}"));
            }
            i += w.chars().count();
        } else {
            i += 1;
        }
    }
}
/// Reads the literals of the sources.
pub fn learn(repo: &str) {
    let mut d = Dict { words: KINDS.iter().map(|_| vec![]).collect(), ..Dict::default() };
    let base: std::collections::BTreeSet<&str> = BASE.lines().collect();
    let all = words(repo);
    let mut old_words = d.words.clone();
    let (mut old_sizes, mut old_texts) = (vec![255, 256], vec![]);
    for l in &all {
        let new = !base.contains(l.as_str());
        let (kind, w) = l.split_at(2);
        if kind == "n " {
            let n: usize = w.parse().unwrap();
            if new { &mut d.sizes } else { &mut old_sizes }.push(n);
            d.new_sizes |= new;
            if new {
                // a word of this size, a number
                d.words[5].push(n.to_string());
                d.words[4].push(format!("ByStr{n}"));
            }
            continue;
        }
        let w = unescape(w);
        if w.is_empty() {
            continue;
        }
        let mut forms = vec![w.clone(), format!("x{w}"), format!("{w}x"), format!("X{w}"), format!("x{w}x"), format!("X{w}x"), format!("_{w}"), format!("\"{w}\""), format!("\"x{w}x\""), w.to_lowercase(), w.to_uppercase()];
        forms.push(w.trim_matches(|c: char| !c.is_alphanumeric()).to_string());
        forms.push(format!("{}{}", w[..w.chars().next().unwrap().len_utf8()].to_uppercase(), &w[w.chars().next().unwrap().len_utf8()..]));
        for v in forms {
            if let Some(k) = kind_of(&v) {
                let k = KINDS.iter().position(|x| *x == k).unwrap();
                let here = if new { &mut d.words[k] } else { &mut old_words[k] };
                // the word itself counts more than its variants
                for _ in 0..if v == w { 4 } else { 1 } {
                    here.push(v.clone());
                }
                d.new_words |= new;
            }
        }
        if new { &mut d.texts } else { &mut old_texts }.push(w);
    }
    // new ones as often as all the old ones
    fn mix<T: Clone>(new: &mut Vec<T>, old: Vec<T>) {
        let n = new.clone();
        while !n.is_empty() && new.len() < 2 * old.len() {
            new.extend(n.iter().cloned());
        }
        new.extend(old);
    }
    for (k, o) in old_words.into_iter().enumerate() {
        mix(&mut d.words[k], o);
    }
    mix(&mut d.sizes, old_sizes);
    mix(&mut d.texts, old_texts);
    let _ = DICT.set(d);
}
/// A literal of the code.
pub fn code_text(r: &mut Rng) -> Option<String> {
    let d = &dict().texts;
    (!d.is_empty()).then(|| r.pick(d).clone())
}
fn unescape(s: &str) -> String {
    let cs: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] != '\\' {
            o.push(cs[i]);
            i += 1;
            continue;
        }
        match cs.get(i + 1) {
            Some('n') => o.push('\n'),
            Some('t') => o.push('\t'),
            Some('r') => o.push('\r'),
            Some('0') => o.push('\0'),
            Some('u') => {
                let h: String = cs[i + 3..].iter().take_while(|c| **c != '}').collect();
                o.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
                i += h.chars().count() + 2;
            }
            Some(c) => o.push(*c),
            None => {}
        }
        i += 2;
    }
    o
}

pub struct G {
    recent_a: Vec<String>,
    recent_b: Vec<String>,
    /// how many long lists there are
    large_a: usize,
    large_b: usize,
    last_ty: Vec<String>,
    typeds: Vec<Vec<String>>,
    /// draws that decide the contract's interface
    pub a: Rng,
    /// all other draws
    pub b: Rng,
    pub out: Vec<String>,
    /// what may appear: types without a representation
    pub odd_types: bool,
    iface: bool,
    /// rough number of tokens after which things get short
    pub budget: usize,
}
const REG: &[&str] = &["a", "b", "x", "y1", "foo_bar", "lett", "inn", "fields", "endx", "val", "of_", "msgs", "contract_address", "e", "event_", "i", "asx", "t2"];
const SPEC: &[&str] = &["_sender", "_tag", "__", "_a1", "_Recipient", "_1", "_this_address", "_codehash"];
const CUS: &[&str] = &["Foo", "BNum", "Bool", "String", "Int32", "Int64", "Int128", "Int256", "Uint32", "Uint64", "Uint128", "Uint256", "Option", "List", "Pair", "Cons", "Nil", "True", "Mapp", "Emps", "Events", "ByStrX", "ByStr20a", "BLOCKNUMBER", "B", "A1_b", "ByStr_5", "ListUtils"];
const TMPL: &[&str] = &["'A", "'Tt1", "'B_", "'AB9"];
const BYS: &[&str] = &["ByStr20", "ByStr32", "ByStr33", "ByStr1", "ByStr20", "ByStr64", "ByStr020", "ByStr0", "ByStr18446744073709551616", "ByStr99", "ByStr20"];
const NUM: &[&str] = &["0", "1", "42", "-1", "-128", "340282366920938463463374607431768211455", "00", "7"];
const HEX: &[&str] = &["0x", "0xab", "0x1234567890123456789012345678901234567890", "0XFF", "0x00"];
const STR: &[&str] = &["\"\"", "\"abc\"", "\"a b (* no *)\"", "\"\\\"q\\\"\"", "\"\\\\\"", "\"é∀😀\"", "\"line\nbreak\"", "\"; end\"", "\"\\n\\t\"", "\"x\n\ny\""];

impl G {
    pub fn new(a: u64, b: u64) -> G {
        let mut b = Rng::new(b ^ 0x5555);
        let budget = *b.pick(&[10, 25, 25, 40, 80, 150]);
        G { recent_a: vec![], recent_b: vec![], large_a: 0, large_b: 0, last_ty: vec![], typeds: vec![], a: Rng::new(a), b, out: vec![], odd_types: false, iface: false, budget }
    }
    fn r(&mut self) -> &mut Rng {
        if self.iface {
            &mut self.a
        } else {
            &mut self.b
        }
    }
    fn c(&mut self, n: usize, d: usize) -> bool {
        self.r().chance(n, d)
    }
    /// Whether there may be one more long list.
    fn large(&mut self) -> bool {
        let n = if self.iface { &mut self.large_a } else { &mut self.large_b };
        *n += 1;
        *n <= 4
    }
    fn n(&mut self, k: usize) -> usize {
        let short = !self.iface && self.out.len() > self.budget;
        let v = self.r().below(k);
        if self.r().chance(1, 80) && self.large() {
            return 3 + self.size(12);
        }
        if short {
            0
        } else {
            v
        }
    }
    fn t(&mut self, s: &str) {
        self.out.push(s.to_string());
    }
    fn one(&mut self, v: &[&str]) {
        let s = self.r().pick(v).to_string();
        self.out.push(s);
    }
    /// A word of the kind: a usual one, one seen before, one of the code's, or one made up.
    fn word(&mut self, k: K) {
        let v = match k {
            K::Reg => REG,
            K::Spec => SPEC,
            K::Cus => CUS,
            K::Tmpl => TMPL,
            K::Bys => BYS,
            K::Num => NUM,
            K::Hex => HEX,
            K::Str => STR,
        };
        let how = self.r().below(24);
        let s = match how {
            0 | 1 | 2 => {
                let iface = self.iface;
                let i = self.r().below(64);
                let rec = if iface { &self.recent_a } else { &self.recent_b };
                let same: Vec<&String> = rec.iter().filter(|w| kind_of(w) == Some(k)).collect();
                same.get(i % same.len().max(1)).map(|w| w.to_string())
            }
            h if h == 3 || h == 4 || (h > 17 && dict().new_words) => dict().words.get(KINDS.iter().position(|x| *x == k).unwrap()).filter(|w| !w.is_empty()).map(|w| self.r().pick(w).clone()),
            5 => Some(made_up(self.r(), k)),
            _ => None,
        };
        let s = match s {
            Some(s) => s,
            None => self.r().pick(v).to_string(),
        };
        let rec = if self.iface { &mut self.recent_a } else { &mut self.recent_b };
        if rec.len() < 12 && how > 2 {
            rec.push(s.clone());
        }
        self.out.push(s);
    }
    /// How many of a list of the interface: below k, rarely many.
    fn many(&mut self, k: usize) -> usize {
        let n = self.r().below(k);
        if self.r().chance(1, if dict().new_sizes { 15 } else { 30 }) && self.large() {
            return 3 + self.size(12);
        }
        n
    }
    /// A number of things: one that the code names, or any.
    fn size(&mut self, k: usize) -> usize {
        let r = self.r();
        let s = if dict().sizes.is_empty() { 0 } else { *r.pick(&dict().sizes) };
        let lim = if r.chance(1, 8) { 400 } else { 40 };
        let (j, x) = (r.below(3), r.below(k));
        if s > 0 && s <= lim {
            (s + j).saturating_sub(4)
        } else {
            x
        }
    }
    fn reg(&mut self) {
        self.word(K::Reg)
    }
    fn spec(&mut self) {
        self.word(K::Spec)
    }
    fn tmpl(&mut self) {
        self.word(K::Tmpl)
    }
    fn tn(&mut self) {
        match self.r().below(8) {
            0 => self.word(K::Bys),
            1 => self.t("Event"),
            _ => self.word(K::Cus),
        }
    }
    fn meta(&mut self) {
        match self.r().below(10) {
            0 => {
                self.tn();
                self.t(".");
                self.tn();
            }
            1 => {
                self.word(K::Hex);
                self.t(".");
                self.tn();
            }
            2 => self.t("ByStr"),
            _ => self.tn(),
        }
    }
    fn var(&mut self) {
        match self.r().below(8) {
            0 | 1 => self.spec(),
            2 => {
                self.tn();
                self.t(".");
                self.reg();
            }
            _ => self.reg(),
        }
    }
    fn vars(&mut self, min: usize) {
        let k = min + self.n(4);
        for _ in 0..k {
            self.var();
        }
    }
    pub fn ty(&mut self, d: usize) {
        let lim = if d == 0 { 3 } else { 14 };
        match self.r().below(lim) {
            0 | 1 => self.tn(),
            2 => self.meta(),
            3 => {
                self.t("Map");
                self.key(d - 1);
                self.value(d - 1);
            }
            4 => {
                self.t("(");
                self.ty(d - 1);
                self.t(")");
            }
            5 => self.address(d - 1),
            6 | 7 => {
                let nm: &[(&str, usize)] = &[("Option", 1), ("List", 1), ("Pair", 2), ("Foo", 1), ("Foo", 2), ("Option", 2), ("Pair", 3), ("List", 0), ("Int32", 1), ("Pair", 1)];
                let (s, k) = *self.r().pick(nm);
                self.t(s);
                for _ in 0..k {
                    self.targ(d - 1);
                }
            }
            8 if self.odd_types => {
                self.t("forall");
                self.tmpl();
                self.t(".");
                self.rem(d - 1);
            }
            9 if self.odd_types => self.tmpl(),
            10 if self.odd_types => {
                self.rem(d - 1);
                self.t("->");
                self.ty(d - 1);
            }
            _ => {
                let two = self.c(1, 2);
                self.t(if two { "Pair" } else { "Option" });
                self.targ(d - 1);
                if two {
                    self.targ(d - 1);
                }
            }
        }
    }
    fn rem(&mut self, d: usize) {
        self.t("(");
        self.ty(d);
        self.t(")");
    }
    fn targ(&mut self, d: usize) {
        let lim = if d == 0 { 2 } else { 8 };
        match self.r().below(lim) {
            0 => self.meta(),
            1 => self.word(K::Bys),
            2 | 3 => {
                self.t("(");
                self.ty(d - 1);
                self.t(")");
            }
            4 => self.address(d - 1),
            5 => {
                self.t("Map");
                self.key(d - 1);
                self.value(d - 1);
            }
            6 if self.odd_types => self.tmpl(),
            _ => {
                self.t("(");
                self.ty(d - 1);
                self.t(")");
            }
        }
    }
    fn address(&mut self, d: usize) {
        if self.r().below(6) == 0 {
            self.tn();
        } else {
            self.t("ByStr20");
        }
        self.t("with");
        match self.r().below(6) {
            0 => {}
            1 => self.t("library"),
            2 => self.spec(),
            _ => {
                self.t("contract");
                let k = self.many(4);
                for i in 0..k {
                    if i > 0 {
                        self.t(",");
                    }
                    self.t("field");
                    self.var();
                    self.t(":");
                    self.ty(d.min(2));
                }
            }
        }
        self.t("end");
    }
    fn key(&mut self, d: usize) {
        match self.r().below(6) {
            0 => {
                self.t("(");
                self.meta();
                self.t(")");
            }
            1 => {
                self.t("(");
                self.address(d);
                self.t(")");
            }
            2 => self.address(d),
            _ => self.meta(),
        }
    }
    fn value(&mut self, d: usize) {
        let lim = if d == 0 { 2 } else { 8 };
        match self.r().below(lim) {
            0 | 1 => self.meta(),
            2 | 3 => {
                self.t("Map");
                self.key(d - 1);
                self.value(d - 1);
            }
            4 => self.address(d - 1),
            _ => {
                self.t("(");
                self.value_args(d - 1);
                self.t(")");
            }
        }
    }
    fn value_args(&mut self, d: usize) {
        if d == 0 || self.c(1, 3) {
            self.value(d);
            return;
        }
        match self.r().below(3) {
            0 => {
                self.meta();
                let k = 1 + self.r().below(2);
                for _ in 0..k {
                    self.value_arg(d - 1);
                }
            }
            1 => {
                self.t("Pair");
                self.value_arg(d - 1);
                self.value_arg(d - 1);
            }
            _ => {
                self.one(&["List", "Option"]);
                self.value_arg(d - 1);
            }
        }
    }
    fn value_arg(&mut self, d: usize) {
        match self.r().below(if d == 0 { 1 } else { 4 }) {
            0 => self.meta(),
            1 => {
                self.t("Map");
                self.key(d - 1);
                self.value(d - 1);
            }
            _ => {
                self.t("(");
                self.value_args(d - 1);
                self.t(")");
            }
        }
    }
    fn free_ty(&mut self, d: usize) {
        let o = self.odd_types;
        if !self.iface {
            self.odd_types = true;
        }
        self.ty(d);
        self.odd_types = o;
    }
    fn free_targ(&mut self, d: usize) {
        let o = self.odd_types;
        self.odd_types = true;
        self.targ(d);
        self.odd_types = o;
    }
    fn annot(&mut self) {
        if self.c(1, 2) {
            self.t(":");
            self.free_ty(2);
        }
    }
    fn literal(&mut self) {
        match self.r().below(5) {
            0 => {
                self.tn();
                self.word(K::Num);
            }
            1 => self.word(K::Hex),
            2 => {
                self.t("Emp");
                self.key(1);
                self.value(2);
            }
            _ => self.word(K::Str),
        }
    }
    fn targs(&mut self) {
        if self.c(1, 3) {
            self.t("{");
            let k = self.n(3);
            for _ in 0..k {
                self.free_targ(1);
            }
            self.t("}");
        }
    }
    pub fn expr(&mut self, d: usize) {
        let deep = d > 0 && self.out.len() < self.budget;
        match self.r().below(if deep { 14 } else { 6 }) {
            0 => self.var(),
            1 => self.literal(),
            2 => {
                self.var();
                self.vars(1);
            }
            3 => {
                self.meta();
                self.targs();
                self.vars(0);
            }
            4 => {
                self.t("builtin");
                self.reg();
                self.targs();
                match self.r().below(4) {
                    0 => {
                        self.t("(");
                        self.t(")");
                    }
                    1 => {
                        self.t("(");
                        self.t(")");
                        self.vars(1);
                    }
                    _ => self.vars(1),
                }
            }
            5 => {
                self.t("@");
                self.var();
                let k = 1 + self.n(3);
                for _ in 0..k {
                    self.free_targ(1);
                }
            }
            6 | 7 => {
                self.t("let");
                self.reg();
                self.annot();
                self.t("=");
                self.expr(d - 1);
                self.t("in");
                self.expr(d - 1);
            }
            8 => {
                self.t("fun");
                self.t("(");
                self.reg();
                self.t(":");
                self.free_ty(2);
                self.t(")");
                self.t("=>");
                self.expr(d - 1);
            }
            9 => {
                self.t("tfun");
                self.tmpl();
                self.t("=>");
                self.expr(d - 1);
            }
            10 | 11 => {
                self.t("{");
                let k = 1 + self.n(4);
                for i in 0..k {
                    if i > 0 {
                        self.t(";");
                    }
                    self.var();
                    self.t(":");
                    if self.c(1, 2) {
                        self.literal();
                    } else {
                        self.var();
                    }
                }
                self.t("}");
            }
            _ => {
                self.t("match");
                self.var();
                self.t("with");
                let k = 1 + self.n(3);
                for _ in 0..k {
                    self.t("|");
                    self.pattern(2);
                    self.t("=>");
                    self.expr(d - 1);
                }
                self.t("end");
            }
        }
    }
    fn pattern(&mut self, d: usize) {
        match self.r().below(4) {
            0 => self.t("_"),
            1 => self.reg(),
            _ => {
                self.meta();
                let k = self.n(3);
                for _ in 0..k {
                    match self.r().below(if d > 0 { 5 } else { 3 }) {
                        0 => self.t("_"),
                        1 => self.reg(),
                        2 => self.meta(),
                        _ => {
                            self.t("(");
                            self.pattern(d - 1);
                            self.t(")");
                        }
                    }
                }
            }
        }
    }
    fn accesses(&mut self) {
        let k = 1 + self.n(3);
        for _ in 0..k {
            self.t("[");
            self.var();
            self.t("]");
        }
    }
    fn cid(&mut self) {
        if self.c(1, 3) {
            self.reg();
        } else {
            self.tn();
        }
    }
    pub fn stmt(&mut self, d: usize) {
        let deep = d > 0 && self.out.len() < self.budget;
        match self.r().below(if deep { 23 } else { 20 }) {
            0 => {
                self.reg();
                self.t("<-");
                self.var();
            }
            1 => {
                self.reg();
                self.t(":=");
                self.var();
            }
            2 | 3 => {
                self.reg();
                self.t("=");
                self.expr(2);
            }
            4 => {
                self.reg();
                self.t("<-");
                self.t("&");
                self.tn();
                if self.c(1, 2) {
                    self.t("(");
                    self.vars(1);
                    self.t(")");
                }
            }
            5 => {
                self.reg();
                self.t("<-");
                self.reg();
                self.accesses();
            }
            6 => {
                self.reg();
                self.t("<-");
                self.t("exists");
                self.reg();
                self.accesses();
            }
            7 => {
                self.reg();
                self.accesses();
                self.t(":=");
                self.var();
            }
            8 => {
                self.t("delete");
                self.reg();
                self.accesses();
            }
            9 => self.t("accept"),
            10 => {
                self.t("send");
                self.var();
            }
            11 => {
                self.t("event");
                self.var();
            }
            12 => {
                self.t("throw");
                if self.c(2, 3) {
                    self.var();
                }
            }
            13 => {
                self.cid();
                self.vars(0);
            }
            14 => {
                self.t("forall");
                self.var();
                self.cid();
            }
            15 => {
                self.reg();
                self.t("<-");
                self.t("&");
                self.reg();
                self.t(".");
                self.var();
            }
            16 => {
                self.reg();
                self.t("<-");
                self.t("&");
                self.spec();
                self.t(".");
                self.spec();
            }
            17 => {
                self.reg();
                self.t("<-");
                self.t("&");
                self.reg();
                self.t(".");
                self.reg();
                self.accesses();
            }
            18 => {
                self.reg();
                self.t("<-");
                self.t("&");
                self.t("exists");
                self.reg();
                self.t(".");
                self.reg();
                self.accesses();
            }
            19 => {
                self.reg();
                self.t("<-");
                self.t("&");
                self.var();
                self.t("as");
                self.address(1);
            }
            _ => {
                self.t("match");
                self.var();
                self.t("with");
                let k = 1 + self.n(3);
                for _ in 0..k {
                    self.t("|");
                    self.pattern(1);
                    self.t("=>");
                    if self.c(3, 4) {
                        self.block(d - 1);
                    }
                }
                self.t("end");
            }
        }
    }
    fn block(&mut self, d: usize) {
        let k = 1 + self.n(4);
        for i in 0..k {
            if i > 0 {
                self.t(";");
            }
            self.stmt(d);
        }
    }
    fn typed(&mut self, d: usize) {
        // sometimes one of before, as a whole
        if self.iface && !self.typeds.is_empty() && self.r().chance(1, 12) {
            let i = self.a.below(self.typeds.len());
            let t = self.typeds[i].clone();
            self.out.extend(t);
            return;
        }
        let from = self.out.len();
        self.typed_new(d);
        if self.iface && self.typeds.len() < 8 {
            self.typeds.push(self.out[from..].to_vec());
        }
    }
    fn typed_new(&mut self, d: usize) {
        self.reg();
        self.t(":");
        let start = self.out.len();
        // sometimes deeper, sometimes the type of before
        let (deep, again) = (self.r().below(20), self.r().below(10));
        if again == 0 && !self.last_ty.is_empty() && self.iface {
            let t = self.last_ty.clone();
            self.out.extend(t);
            return;
        }
        self.ty(if deep == 0 { d + 3 } else { d });
        if self.iface {
            self.last_ty = self.out[start..].to_vec();
        }
    }
    fn params(&mut self) {
        self.t("(");
        let k = self.many(4);
        for i in 0..k {
            if i > 0 || self.r().below(40) == 0 {
                self.t(",");
            }
            self.typed(3);
        }
        self.t(")");
    }
    fn body(&mut self) {
        if self.c(4, 5) {
            self.block(2);
        }
        self.t("end");
    }
    fn procs(&mut self) {
        let k = self.n(3);
        for _ in 0..k {
            let from = self.out.len();
            self.t("procedure");
            self.cid();
            self.params();
            self.body();
            self.twice(from);
        }
    }
    pub fn program(&mut self) {
        self.t("scilla_version");
        self.word(K::Num);
        if self.c(1, 2) {
            self.t("import");
            let k = 1 + self.n(3);
            for _ in 0..k {
                self.imported();
            }
            let k = self.n(2);
            for _ in 0..k {
                self.t("import");
                self.imported();
            }
        }
        if self.c(1, 2) {
            self.t("library");
            self.tn();
            let k = self.n(4);
            for _ in 0..k {
                let from = self.out.len();
                if self.c(2, 3) {
                    self.t("let");
                    self.reg();
                    self.annot();
                    self.t("=");
                    self.expr(3);
                } else {
                    self.t("type");
                    self.tn();
                    if self.c(2, 3) {
                        self.t("=");
                        let k = 1 + self.n(3);
                        for _ in 0..k {
                            self.t("|");
                            self.tn();
                            if self.c(1, 2) {
                                self.t("of");
                                let k = 1 + self.n(3);
                                for _ in 0..k {
                                    self.free_targ(1);
                                }
                            }
                        }
                    }
                }
                self.twice(from);
            }
        }
        self.t("contract");
        self.iface = true;
        self.tn();
        self.params();
        self.iface = false;
        if self.c(1, 3) {
            self.t("with");
            self.expr(2);
            self.t("=>");
        }
        self.iface = true;
        let k = self.many(4);
        self.iface = false;
        for _ in 0..k {
            self.t("field");
            self.iface = true;
            self.typed(3);
            self.iface = false;
            self.t("=");
            self.expr(2);
        }
        self.procs();
        self.iface = true;
        let k = self.many(4);
        self.iface = false;
        let mut heads: Vec<Vec<String>> = vec![];
        for _ in 0..k {
            self.t("transition");
            self.iface = true;
            if !heads.is_empty() && self.r().chance(1, 8) {
                // one of before, mostly the last
                let n = heads.len();
                let (last, i) = (self.r().chance(2, 3), self.r().below(n));
                let h = heads[if last { n - 1 } else { i }].clone();
                self.out.extend(h);
            } else {
                let from = self.out.len();
                self.cid();
                self.params();
                heads.push(self.out[from..].to_vec());
            }
            self.iface = false;
            self.body();
            self.procs();
        }
    }
    fn imported(&mut self) {
        let from = self.out.len();
        self.tn();
        if self.c(1, 3) {
            self.t("as");
            self.tn();
        }
        self.twice(from);
    }
    /// Sometimes the same once more.
    fn twice(&mut self, from: usize) {
        if self.c(1, 16) {
            let t = self.out[from..].to_vec();
            self.out.extend(t);
        }
    }
}

/// A word of the kind that is in no list, of any length.
fn made_up(r: &mut Rng, k: K) -> String {
    const TAIL: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
    let n = match r.below(8) {
        0 => {
            let s = if dict().sizes.is_empty() { 33 } else { *r.pick(&dict().sizes) };
            s.min(400).saturating_sub(r.below(3)) + r.below(2)
        }
        1 => 8 + r.below(60),
        _ => r.below(8),
    };
    if matches!(k, K::Reg | K::Cus | K::Spec | K::Tmpl | K::Bys) && r.chance(1, 3) {
        // two words in one
        let any = |r: &mut Rng| -> String {
            let l = r.below(8);
            let d = &dict().words[KINDS.iter().position(|x| *x == k).unwrap()];
            match l {
                0 | 1 if !d.is_empty() => r.pick(d).clone(),
                2 => r.pick(&["ByStr", "Map", "Event", "Emp", "contract", "end", "with", "field", "in", "of", "library"]).to_string(),
                3 => r.pick(BYS).to_string(),
                4 => r.pick(REG).to_string(),
                5 => r.below(300).to_string(),
                _ => r.pick(CUS).to_string(),
            }
        };
        for _ in 0..6 {
            let w = format!("{}{}", any(r), any(r));
            if kind_of(&w) == Some(k) {
                return w;
            }
        }
    }
    let tail = |r: &mut Rng, n: usize| (0..n).map(|_| *r.pick(TAIL) as char).collect::<String>();
    let digits = |r: &mut Rng, n: usize| (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect::<String>();
    let s = match k {
        K::Reg => format!("{}{}", (b'a' + r.below(26) as u8) as char, tail(r, n)),
        K::Cus => format!("{}{}", (b'A' + r.below(26) as u8) as char, tail(r, n)),
        K::Spec => format!("_{}", tail(r, n + 1)),
        K::Tmpl => format!("'{}{}", (b'A' + r.below(26) as u8) as char, tail(r, n)),
        K::Bys => format!("ByStr{}", if r.chance(1, 2) { (1 + r.below(300)).to_string() } else { digits(r, 1 + n.min(22)) }),
        K::Num => format!("{}{}", r.pick(&["", "", "-"]), digits(r, n + 1)),
        K::Hex => format!("0x{}", (0..n).map(|_| *r.pick(b"0123456789abcdefABCDEF") as char).collect::<String>()),
        K::Str => {
            let mut s = String::from("\"");
            for _ in 0..n {
                if r.chance(1, 6) {
                    s.push_str(&some_text(r).replace(['"', '\\'], ""));
                    continue;
                }
                s.push_str(r.pick(&["a", " ", "\\\"", "\\\\", "é", "(*", "*)", "0", "\n", "\\n", "x", ";"]));
            }
            s.push('"');
            s
        }
    };
    if kind_of(&s) == Some(k) {
        s
    } else {
        // a keyword
        format!("{s}0").replace("\"0", "\"")
    }
}

/// A text of the code, or a little of anything.
fn some_text(r: &mut Rng) -> String {
    if !dict().texts.is_empty() && r.chance(1, 2) {
        r.pick(&dict().texts).clone()
    } else {
        r.pick(FRAG).to_string()
    }
}
/// What separates two tokens.
fn space(r: &mut Rng) -> String {
    if !r.chance(1, 24) {
        return r.pick(WS).to_string();
    }
    let mut s = String::new();
    for _ in 0..1 + r.below(3) {
        s.push_str(&some_text(r));
        if r.chance(1, 3) {
            s.push(' ');
        }
    }
    while s.contains("*)") {
        s = s.replace("*)", "");
    }
    if s.ends_with('*') {
        s.push(' ');
    }
    format!("(*{s}*)")
}

const WS: &[&str] = &[" ", " ", " ", "\n", "\n  ", "\t", "\r\n", "  ", "\n\n", " (* c *) ", " (* é\n *) ", "(**)", "\n(* a * b ) ( *)\n", "\u{a0}", " (***) ", "(*\n\n*)\n", "\u{2028}"];

/// Writes the tokens with random layout between them.
pub fn layout(r: &mut Rng, toks: &[String]) -> String {
    let mut s = String::new();
    if r.chance(1, 3) {
        s.push_str(&space(r));
    }
    let plain = r.chance(1, 3);
    // rarely a long run of white space or a long comment somewhere
    let long = if r.chance(1, if dict().new_sizes { 5 } else { 12 }) && !toks.is_empty() && !dict().sizes.is_empty() { r.below(toks.len()) } else { usize::MAX };
    for (i, t) in toks.iter().enumerate() {
        s.push_str(t);
        if i == long {
            let mut n = *r.pick(&dict().sizes);
            if n > 140_000 && r.chance(3, 4) {
                n %= 997;
            }
            if r.chance(1, 12) {
                // the sizes of buffers
                n = (1 << (10 + r.below(11))) - 2;
            }
            let n = n + r.below(3);
            let c = *r.pick(&[" ", "\n", "\r\n", "\t"]);
            match r.below(3) {
                0 => s.push_str(&format!("(*{}*)", "x ".repeat(n / 2 + 1))),
                _ => s.push_str(&c.repeat(n)),
            }
            s.push(' ');
        }
        let Some(n) = toks.get(i + 1) else { break };
        let w = |x: &str, last: bool| {
            let c = if last { x.chars().last() } else { x.chars().next() }.unwrap_or(' ');
            c.is_alphanumeric() || c == '_' || c == '-' || c == '\''
        };
        let glue_ok = !(w(t, true) && w(n, false)) && !(":=<-".contains(t.as_str()) && n.chars().next().map(|c| "=>-".contains(c)).unwrap_or(false)) && t != "(" && !t.ends_with('-');
        if glue_ok && r.chance(1, 3) {
            continue;
        }
        if plain {
            s.push(' ');
        } else {
            s.push_str(&space(r));
        }
    }
    if r.chance(1, 3) {
        s.push_str(&space(r));
    }
    s
}

const FRAG: &[&str] = &[
    "let", "in", "(", ")", "(*", "*)", "->", "=>", "<-", ":=", "-", "_", "'", "\"", "\\", "\n", "ByStr", "ByStr20", "ByStr20a", "Event", "event", "Map", "0x", "0xa", "-5", "+5", "--", "-é", "é", "é1", "a²", "²", "-²", "x_é", "_é",
    "😀", "\u{a0}", "\u{85}", "'a", "'A", "''A", "\"\\\"", "\"a\\\nb\"", "\"\\", "end", "with", "contract", "field", "transition", "@", "{", "}", "[", "]", ";", ",", ".", "&", "|", "+", "*", "=", "<", ">", "#", "$", "%", "!", "~", "^", "`", "?", "/", "Int32", "forall", "'A .", "1", "00", "9é", "0X", "0xabc", "of", "as", "Emp", "exists", "throw", "\r", "\t", "\0", "(*)", "(* (* *) *)", "(**", "ByStr٣", "Byé", "letx", "x", "Foo", "_", "__", "_x", "scilla_version", "library", "import", "type", "procedure", "accept", "send", "delete", "builtin", "match", "fun", "tfun",
];
/// Text made of fragments.
pub fn soup(r: &mut Rng) -> String {
    let k = 1 + r.below(12);
    let mut s = String::new();
    for _ in 0..k {
        match r.below(12) {
            0 if !dict().texts.is_empty() => s.push_str(r.pick(&dict().texts)),
            1 => {
                let k = *r.pick(&KINDS);
                s.push_str(&made_up(r, k))
            }
            _ => s.push_str(r.pick(FRAG)),
        }
        if r.chance(1, 2) {
            s.push_str(r.pick(&[" ", "\n", "  ", ""]));
        }
    }
    s
}
/// Changes a token list a little.
pub fn mutate(r: &mut Rng, t: &mut Vec<String>) {
    let k = 1 + r.below(3);
    for _ in 0..k {
        if t.is_empty() {
            return;
        }
        let i = r.below(t.len());
        match r.below(6) {
            0 => {
                t.remove(i);
            }
            1 => {
                let x = t[i].clone();
                t.insert(i, x);
            }
            2 => {
                let j = r.below(t.len());
                t.swap(i, j);
            }
            3 => t[i] = r.pick(FRAG).to_string(),
            4 => t.insert(i, r.pick(FRAG).to_string()),
            _ => {
                let j = r.below(t.len());
                let x = t[j].clone();
                t[i] = x;
            }
        }
    }
}
/// Changes single characters.
pub fn mutate_chars(r: &mut Rng, s: &str) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    let k = 1 + r.below(3);
    for _ in 0..k {
        if cs.is_empty() {
            break;
        }
        let i = r.below(cs.len());
        match r.below(4) {
            0 => {
                cs.remove(i);
            }
            1 => {
                let f: Vec<char> = r.pick(FRAG).chars().collect();
                for (j, c) in f.into_iter().enumerate() {
                    cs.insert(i + j, c);
                }
            }
            2 => cs.truncate(i),
            _ => cs[i] = *r.pick(&['(', '*', ')', '"', '\\', '\n', 'é', '-', '_', '\'', 'A', 'a', '0', ' ']),
        }
    }
    cs.into_iter().collect()
}
