//! Per property: the inputs and what must hold of each.
use crate::gen::{self, G};
use crate::reflex::{self, Lines};
use crate::rng::Rng;
use crate::visit::{self, Ans, Ev, Tree};
use crate::{refcon, refparse, Input};
use scilla_parser::ast::nodes::*;
use scilla_parser::ast::visitor::AstVisitor;
use scilla_parser::ast::TraversalResult;
use scilla_parser::parser::lexer::{Lexer, SourcePosition, Token};
use scilla_parser::parser::parser::ProgramParser;
use scilla_parser::simplified_representation::emitter::SrEmitter;
use scilla_parser::{Contract, Error, Type};
use std::str::FromStr;

#[derive(Default)]
pub struct Stats {
    pub inputs: usize,
    pub accepted: usize,
    pub tokens: usize,
    pub bytes: usize,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.inputs += o.inputs;
        self.accepted += o.accepted;
        self.tokens += o.tokens;
        self.bytes += o.bytes;
    }
}

pub fn corpus(repo: &str) -> Vec<String> {
    let mut v = vec![];
    let mut dirs = vec![std::path::PathBuf::from(repo).join("tests")];
    while let Some(d) = dirs.pop() {
        if let Ok(es) = std::fs::read_dir(&d) {
            let mut es: Vec<_> = es.flatten().map(|e| e.path()).collect();
            es.sort();
            for p in es {
                if p.is_dir() {
                    dirs.push(p);
                } else if p.extension().map(|e| e == "scilla" || e == "scillib").unwrap_or(false) {
                    if let Ok(s) = std::fs::read_to_string(&p) {
                        v.push(s);
                    }
                }
            }
        }
    }
    v
}

/// Whether a panic of the code under test breaks the property itself.
pub fn panic_counts(id: &str) -> bool {
    matches!(id, "C01" | "C04" | "C09" | "C10" | "C11" | "C14" | "C15" | "C17")
}
pub fn shrinkable(id: &str) -> bool {
    !matches!(id, "C09" | "C15")
}

fn program(r: &mut Rng) -> String {
    let mut g = G::new(r.next(), r.next());
    g.odd_types = r.chance(1, 3);
    g.program();
    let t = std::mem::take(&mut g.out);
    gen::layout(r, &t)
}
fn mutant(r: &mut Rng, corpus: &[String]) -> String {
    let mut toks: Vec<String> = if !corpus.is_empty() && r.chance(1, 16) {
        let s = r.pick(corpus);
        let t = reflex::lex(s);
        t.iter().map(|x| s[x.0.position..x.2.position].to_string()).collect()
    } else {
        let mut g = G::new(r.next(), r.next());
        g.odd_types = r.chance(1, 3);
        g.program();
        g.out
    };
    gen::mutate(r, &mut toks);
    gen::layout(r, &toks)
}
fn any_text(r: &mut Rng, corpus: &[String]) -> String {
    match r.below(8) {
        0 | 1 => gen::soup(r),
        2 => {
            let s = program(r);
            gen::mutate_chars(r, &s)
        }
        3 if !corpus.is_empty() && r.chance(1, 4) => {
            let s = r.pick(corpus).clone();
            gen::mutate_chars(r, &s)
        }
        4 | 5 => mutant(r, corpus),
        _ => program(r),
    }
}

/// A short text: a piece of some text (compiling the patterns for every token makes the lexer slow).
fn piece(r: &mut Rng, corpus: &[String]) -> String {
    if r.chance(1, 40) {
        return any_text(r, corpus);
    }
    let s = match r.below(6) {
        0 if !corpus.is_empty() => r.pick(corpus).clone(),
        1 => program(r),
        2 => mutant(r, corpus),
        _ => return gen::soup(r),
    };
    let c: Vec<char> = s.chars().collect();
    let a = r.below(c.len() + 1);
    let n = r.below(60);
    let mut s: String = c[a..c.len().min(a + n)].iter().collect();
    if r.chance(1, 3) {
        s = gen::mutate_chars(r, &s);
    }
    s
}

/// The first inputs of every run.
pub fn fixed(id: &str, i: usize, corpus: &[String]) -> Option<Input> {
    const T: &[&str] = &["", " ", "(*", "(* *)", "\"", "\"a", "'", "-", "_", "é", "²", "-²", "'é", "_é", "aé b", "\"é\" ByStr20x \"\\\"é\"", "(*)", "(*\n*)\n x", "let\n\nx"];
    let texty = !matches!(id, "C09" | "C15" | "C16" | "C10" | "C11");
    if texty {
        if i < T.len() {
            return Some(vec![T[i].into()]);
        }
        let i = i - T.len();
        if i < corpus.len() {
            return Some(vec![corpus[i].clone().into_bytes()]);
        }
    }
    None
}

/// The text with a few letters and digits replaced: as long as before, and mostly as well-formed.
fn variation(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    let at: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_ascii_alphanumeric() && (*i == 0 || v[*i - 1].is_ascii_alphanumeric())).collect();
    if !at.is_empty() {
        for _ in 0..1 + r.below(4) {
            let i = *r.pick(&at);
            v[i] = match v[i] {
                b'0'..=b'9' => b'0' + r.below(10) as u8,
                b'a'..=b'z' => b'a' + r.below(26) as u8,
                _ => b'A' + r.below(26) as u8,
            };
        }
    }
    v
}
const BEFORE: &[u8] = b"before:";
/// What was parsed just before the input proper, if anything (a later result must not depend on it).
fn before(inp: &Input) -> Option<&[u8]> {
    inp.last().and_then(|b| b.strip_prefix(BEFORE))
}

pub fn input(id: &str, r: &mut Rng, corpus: &[String]) -> Input {
    let mut v = fresh(id, r, corpus);
    if matches!(id, "C05" | "C06" | "C07" | "C08" | "C12" | "C13" | "C15" | "C16" | "C17") && r.chance(1, 6) {
        let b = match r.below(4) {
            0 => v[0].clone(),
            1 => program(r).into_bytes(),
            _ => variation(r, &v[0]),
        };
        v.push([BEFORE, &b].concat());
    }
    v
}

fn fresh(id: &str, r: &mut Rng, corpus: &[String]) -> Input {
    match id {
        "C01" | "C02" | "C03" | "C14" => vec![piece(r, corpus).into_bytes()],
        "C04" => vec![any_text(r, corpus).into_bytes()],
        "C05" | "C06" | "C07" | "C08" | "C12" | "C13" => vec![if r.chance(1, 6) { mutant(r, corpus) } else { program(r) }.into_bytes()],
        "C17" => vec![if r.chance(2, 3) { mutant(r, corpus) } else { program(r) }.into_bytes()],
        "C09" => vec![format!("{}", r.next()).into_bytes()],
        "C10" | "C11" => {
            let s = if !corpus.is_empty() && r.chance(1, 20) { r.pick(corpus).clone() } else { program(r) };
            let fail = if id == "C11" && r.chance(3, 4) { 1 } else { 0 };
            let at = if r.chance(1, 3) { 1 + r.below(5) } else { 0 };
            vec![s.into_bytes(), format!("{} {} {} {}", r.next() >> 1, fail, r.below(4), at).into_bytes()]
        }
        "C15" => {
            let mut b = match r.below(3) {
                0 => program(r),
                1 => any_text(r, corpus),
                _ => mutant(r, corpus),
            }
            .into_bytes();
            let kind = match r.below(10) {
                8 => {
                    // line ends of other systems, and a literal that holds one
                    b = String::from_utf8_lossy(&b).replace('\n', "\r\n").into_bytes();
                    if r.chance(1, 3) {
                        b.push(b"\r\x1a\0 "[r.below(4)]);
                    }
                    "file"
                }
                9 => *r.pick(&["name:contract", "name:a b.txt", "name:C.SCILLA", "name:\u{e9}.scilla", "name:lib.scillib", "name:.scilla", "name:sub/../x.scilla"]),
                0 => *r.pick(&["unreadable:missing", "unreadable:missing directory", "unreadable:directory", "unreadable:below a file", "unreadable:empty", "unreadable:nul", "unreadable:long", "unreadable:slash", "unreadable:not utf8", "unreadable:loop", "unreadable:dangling"]),
                1 => *r.pick(&["name:link.scilla", "form:dots", "form:slashes", "form:relative", "mode:444", "mode:755", "mode:600", "old"]),
                2 => {
                    let i = r.below(b.len() + 1);
                    b.insert(i, *r.pick(&[0xff, 0xc0, 0x80, 0xfe]));
                    "file"
                }
                3 => {
                    let mut c = vec![0xef, 0xbb, 0xbf];
                    c.append(&mut b);
                    b = c;
                    "file"
                }
                _ => "file",
            };
            let mut kind = kind.to_string();
            if kind == "file" && r.chance(1, 6) {
                // a name made of a word of the code
                if let Some(w) = gen::code_text(r) {
                    let w: String = w.chars().filter(|c| !matches!(c, '/' | '\0')).take(100).collect();
                    if !w.is_empty() && w != "." && w != ".." && w != "sub" {
                        kind = match r.below(5) {
                            0 => format!("name:{w}"),
                            1 => format!("name:c.{w}"),
                            2 => format!("name:in{w}/c.scilla"),
                            3 => format!("name:{w}.scilla"),
                            _ => format!("name:c{w}"),
                        };
                    }
                }
            }
            vec![b, kind.into_bytes()]
        }
        "C16" => {
            let a = r.next();
            let odd = r.chance(1, 5);
            let one = |r: &mut Rng| {
                let mut g = G::new(a, r.next());
                g.odd_types = odd;
                g.program();
                let t = std::mem::take(&mut g.out);
                gen::layout(r, &t).into_bytes()
            };
            vec![one(r), one(r)]
        }
        _ => panic!("unknown property"),
    }
}

pub fn note(id: &str, inp: &Input, st: &mut Stats) {
    st.bytes += inp[0].len();
    if matches!(id, "C09") {
        return;
    }
    if let Ok(s) = std::str::from_utf8(&inp[0]) {
        let t = reflex::lex(s);
        st.tokens += t.len();
        if refparse::parse(&t).is_ok() {
            st.accepted += 1;
        }
    }
}

fn tokens(s: &str) -> Result<Vec<(SourcePosition, Token<&str>, SourcePosition)>, String> {
    let mut v = vec![];
    let mut last = 0;
    for it in Lexer::new(s) {
        let t = it.map_err(|_| "the lexer yields an error item".to_string())?;
        last += 1;
        if last > s.len() + 2 {
            return Err("the lexer yields more tokens than the text has bytes".into());
        }
        v.push(t);
    }
    Ok(v)
}

thread_local! {
    /// Take the tokens from the reference lexer? (The lexer compiles its patterns for every token, which
    /// takes most of the time. What fails this way is checked again with the real lexer.)
    static FAST: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static PARSER: ProgramParser = ProgramParser::new();
}
/// Always take the real lexer and entry point (they are not those that were examined at length).
pub static REAL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Properties of what comes after the lexer.
fn fast_ok(id: &str) -> bool {
    matches!(id, "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C11" | "C12" | "C13" | "C16" | "C17")
}
fn tree(s: &str) -> Result<NodeProgram, String> {
    let mut e = vec![];
    if FAST.get() {
        let t = reflex::lex(s).into_iter().map(Ok);
        return PARSER.with(|p| p.parse(&mut e, t).map_err(|e| format!("{e:?}")));
    }
    ProgramParser::new().parse(&mut e, Lexer::new(s)).map_err(|e| format!("{e:?}"))
}
/// A tree with other positions than those of the text: the traversal works on any tree.
fn tree_at(s: &str, how: u64) -> Result<NodeProgram, String> {
    let same = |p: usize| SourcePosition { position: p, line: p / 7, column: p % 7 };
    let at = |p: SourcePosition| match how {
        1 => SourcePosition::start_position(),
        2 => SourcePosition::invalid_position(),
        3 => same(41),
        4 => same(p.position / 16),
        _ => same(p.position + (1 << 33)),
    };
    let t = reflex::lex(s).into_iter().map(|(a, t, b)| Ok((at(a), t, at(b))));
    let mut e = vec![];
    PARSER.with(|p| p.parse(&mut e, t).map_err(|e| format!("{e:?}")))
}
fn contract(s: &str) -> Result<Contract, String> {
    if FAST.get() {
        return SrEmitter::default().emit(&tree(s)?).map_err(|e| e.to_string());
    }
    Contract::from_str(s).map_err(|e| format!("{e:?}"))
}
/// As `check_real`, most of the time with the reference lexer; a failure is one of the real code.
pub fn check(id: &str, inp: &Input, scratch: &str) -> Option<String> {
    let h = inp[0].iter().fold(0u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3));
    if !REAL.load(std::sync::atomic::Ordering::Relaxed) && fast_ok(id) && (h >> 20) % 8 != 0 {
        struct Back;
        impl Drop for Back {
            fn drop(&mut self) {
                FAST.set(false);
            }
        }
        FAST.set(true);
        let r = {
            let _back = Back;
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check_real(id, inp, scratch)))
        };
        if let Ok(None) = r {
            return None;
        }
    }
    check_real(id, inp, scratch)
}

fn strip_positions(s: &str) -> String {
    let mut o = String::new();
    let mut r = s;
    while let Some(i) = r.find("SourcePosition {") {
        o.push_str(&r[..i]);
        o.push('P');
        let e = r[i..].find('}').unwrap();
        r = &r[i + e + 1..];
    }
    o.push_str(r);
    o
}

fn diff(a: &str, b: &str) -> String {
    let mut i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    while !a.is_char_boundary(i) || !b.is_char_boundary(i) {
        i -= 1;
    }
    let cut = |s: &str| {
        let mut a = i.saturating_sub(60);
        while !s.is_char_boundary(a) {
            a += 1;
        }
        s[a..].chars().take(300).collect::<String>()
    };
    format!("got …{}… instead of …{}…", cut(a), cut(b))
}

fn check_real(id: &str, inp: &Input, scratch: &str) -> Option<String> {
    let text = std::str::from_utf8(&inp[0]).ok();
    if id != "C15" {
        if let Some(Ok(b)) = before(inp).map(std::str::from_utf8) {
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| contract(b).is_ok()));
        }
    }
    match id {
        "C01" => lex_total(text?),
        "C02" => {
            let s = text?;
            let Ok(got) = tokens(s) else { return None };
            let want = reflex::lex(s);
            let a: Vec<_> = got.iter().map(|t| (t.0.position, format!("{:?}", t.1))).collect();
            let b: Vec<_> = want.iter().map(|t| (t.0.position, format!("{:?}", t.1))).collect();
            (a != b).then(|| diff(&format!("{a:?}"), &format!("{b:?}")))
        }
        "C03" => {
            let s = text?;
            let Ok(got) = tokens(s) else { return None };
            let l = Lines::new(s);
            for (a, t, b) in &got {
                for p in [a, b] {
                    if p.position <= s.len() && *p != l.at(p.position) {
                        return Some(format!("{t:?} is reported at {p:?} instead of {:?}", l.at(p.position)));
                    }
                }
            }
            None
        }
        "C04" => {
            let _ = contract(text?);
            None
        }
        "C05" | "C06" | "C07" | "C08" => interface(id, text?),
        "C09" => show_type(inp),
        "C10" => traverse(text?, &inp[1], false),
        "C11" => traverse(text?, &inp[1], true),
        "C12" | "C13" => {
            let s = text?;
            let want = refparse::parse(&reflex::lex(s)).ok()?;
            let got = tree(s).ok()?;
            let (a, b) = (format!("{got:?}"), format!("{want:?}"));
            let (sa, sb) = (strip_positions(&a), strip_positions(&b));
            if id == "C12" {
                if sa != sb {
                    return Some(diff(&sa, &sb));
                }
                visit::names(&got)
            } else {
                (sa == sb && a != b).then(|| diff(&a, &b))
            }
        }
        "C14" => token_text(text?),
        "C15" => file(inp, scratch),
        "C16" => {
            let a = text?;
            let b = std::str::from_utf8(&inp[1]).ok()?;
            let x = contract(a);
            let y = contract(b);
            let z = contract(a);
            if format!("{x:?}") != format!("{z:?}") {
                return Some("parsing the same text twice gives different results".into());
            }
            match (x, y) {
                (Ok(x), Ok(y)) if x != y => Some(diff(&format!("{y:?}"), &format!("{x:?}"))),
                _ => None,
            }
        }
        "C17" => {
            let s = text?;
            let want = refparse::parse(&reflex::lex(s));
            let got = tree(s);
            match (&want, contract(s)) {
                (Ok(p), Err(e)) if refcon::contract(p).is_ok() => return Some(format!("a program of the grammar is rejected: {e}")),
                (Err(_), Ok(_)) => return Some("a text that is no program of the grammar is accepted".into()),
                _ => {}
            }
            match (want, got) {
                (Ok(_), Err(e)) => Some(format!("a program of the grammar is rejected: {e}")),
                (Err(_), Ok(_)) => Some("a text that is no program of the grammar is accepted".into()),
                _ => None,
            }
        }
        _ => panic!("unknown property"),
    }
}

fn lex_total(s: &str) -> Option<String> {
    let got = match tokens(s) {
        Ok(g) => g,
        Err(e) => return Some(e),
    };
    let mut p = 0;
    let mut unknown: Vec<usize> = vec![];
    let mut gaps: Vec<(usize, usize)> = vec![];
    for (a, t, b) in &got {
        let (a, b) = (a.position, b.position);
        if !(p <= a && a <= b && b <= s.len() && s.is_char_boundary(a) && s.is_char_boundary(b)) {
            return Some(format!("{t:?} has span {a}..{b} after {p}"));
        }
        if *t == Token::Unknown {
            if a != b {
                return Some(format!("an unknown token has span {a}..{b}"));
            }
            unknown.push(a);
        } else {
            if a == b || s[a..b] != reflex::spelling(t) {
                return Some(format!("{t:?} has span {a}..{b} which is {:?}", &s[a..b]));
            }
            gaps.push((p, a));
            p = b;
        }
    }
    gaps.push((p, s.len()));
    for (a, b) in gaps {
        let mut i = a;
        while i < b {
            let c = s[i..].chars().next().unwrap();
            if c.is_whitespace() {
                i += c.len_utf8();
            } else if let Some(u) = unknown.iter().position(|u| *u == i) {
                unknown.remove(u);
                if s[i..].starts_with("(*") {
                    if s[i + 2..].contains("*)") {
                        return Some(format!("a complete comment at {i} is reported as unknown"));
                    }
                    i = s.len();
                } else {
                    i += c.len_utf8();
                }
            } else if s[i..].starts_with("(*") && s[i + 2..].contains("*)") {
                i += 4 + s[i + 2..].find("*)").unwrap();
            } else {
                return Some(format!("the text {:?} at {i} is lost", &s[i..b]));
            }
        }
        if i > b && !(b == s.len() || i == s.len()) {
            return Some(format!("a token lies inside the comment before {i}"));
        }
        if i != b {
            return Some(format!("a token lies inside the comment that ends at {i}"));
        }
    }
    if !unknown.is_empty() {
        return Some(format!("an unknown token at {} reports nothing", unknown[0]));
    }
    None
}

fn token_text(s: &str) -> Option<String> {
    let Ok(got) = tokens(s) else { return None };
    for (a, t, b) in got {
        if t == Token::Unknown || a.position > b.position || b.position > s.len() || !s.is_char_boundary(a.position) || !s.is_char_boundary(b.position) {
            continue;
        }
        let w = reflex::spelling(&t);
        let x = String::from(t.clone());
        if x != w {
            return Some(format!("{t:?} converts to {x:?} instead of {w:?}"));
        }
        let again = tokens(&x).ok().map(|v| v.into_iter().map(|t| t.1).collect::<Vec<_>>());
        if again != Some(vec![t.clone()]) && reflex::lex(&w).into_iter().map(|t| t.1).collect::<Vec<_>>() == vec![t.clone()] {
            return Some(format!("{t:?} converts to {x:?}, which lexes as {again:?}"));
        }
    }
    let w: String = Token::<&str>::Whitespace.into();
    if w != " " {
        return Some(format!("white space converts to {w:?}"));
    }
    for (w, t) in reflex::KEYWORDS.iter().chain(reflex::OPS1).chain(reflex::OPS2) {
        let x = String::from(t.clone());
        if x != *w {
            return Some(format!("{t:?} converts to {x:?} instead of {w:?}"));
        }
    }
    None
}

fn fields(f: &scilla_parser::FieldList) -> Vec<(String, String)> {
    f.0.iter().map(|f| (f.name.clone(), format!("{:?}", f.r#type))).collect()
}

fn interface(id: &str, s: &str) -> Option<String> {
    let p = refparse::parse(&reflex::lex(s)).ok()?;
    let want = refcon::contract(&p);
    let got = contract(s);
    if id == "C08" {
        return match (&want, &got) {
            (Err(()), Ok(g)) => Some(format!("a type without a representation is accepted: {g:?}")),
            (Ok(_), Err(e)) if tree(s).is_ok() => Some(format!("a contract whose types all have a representation is rejected: {e}")),
            (Ok(w), Ok(g)) => {
                let types = |c: &Contract| {
                    let mut v: Vec<Vec<String>> = vec![];
                    let t = |f: &scilla_parser::FieldList| f.0.iter().map(|f| format!("{:?}", f.r#type)).collect::<Vec<_>>();
                    v.push(t(&c.init_params));
                    v.push(t(&c.fields));
                    for x in &c.transitions.0 {
                        v.push(t(&x.params));
                    }
                    v
                };
                let (a, b) = (types(g), types(w));
                let shape = |v: &Vec<Vec<String>>| v.iter().map(|x| x.len()).collect::<Vec<_>>();
                (shape(&a) == shape(&b) && a != b).then(|| diff(&format!("{a:?}"), &format!("{b:?}")))
            }
            _ => None,
        };
    }
    let (w, g) = (want.ok()?, got.ok()?);
    let (a, b) = match id {
        "C05" => (format!("{:?} {:?}", g.name, fields(&g.init_params)), format!("{:?} {:?}", w.name, fields(&w.init_params))),
        "C06" => (format!("{:?}", fields(&g.fields)), format!("{:?}", fields(&w.fields))),
        _ => {
            let t = |c: &Contract| format!("{:?}", c.transitions.0.iter().map(|t| (t.name.clone(), fields(&t.params))).collect::<Vec<_>>());
            (t(&g), t(&w))
        }
    };
    (a != b).then(|| diff(&a, &b))
}

fn rand_type(r: &mut Rng, d: usize) -> Type {
    let b = |r: &mut Rng| Box::new(rand_type(r, d.saturating_sub(1)));
    match r.below(if d == 0 { 14 } else { 20 }) {
        0 => Type::Int32,
        1 => Type::Int64,
        2 => Type::Int128,
        3 => Type::Int256,
        4 => Type::Uint32,
        5 => Type::Uint64,
        6 => Type::Uint128,
        7 => Type::Uint256,
        8 => Type::String,
        9 => Type::BNum,
        10 => Type::Bool,
        11 => match r.below(3) {
            0 => Type::ByStr,
            1 => Type::ByStr20,
            _ => Type::ByStrX(r.below(100) + if r.chance(1, 9) { usize::MAX / 2 } else { 21 }),
        },
        12 | 13 => Type::Other(r.pick(&["Foo", "A.B", "0xab.Foo", "Option", "Nat"]).to_string()),
        14 => {
            let x = b(r);
            Type::Map(x, b(r))
        }
        15 => {
            let x = b(r);
            Type::Pair(x, b(r))
        }
        16 => Type::Option(b(r)),
        17 => Type::List(b(r)),
        _ => {
            // an address type, through the parser
            let mut g = G::new(r.next(), r.next());
            g.odd_types = false;
            g.ty(3);
            let s = format!("scilla_version 0 contract T () field f : ByStr20 with contract field a : {} end = x", g.out.join(" "));
            match contract(&s) {
                Ok(c) if c.fields.0.len() == 1 => c.fields.0.into_iter().next().unwrap().r#type,
                _ => Type::ByStr20,
            }
        }
    }
}
fn reparse(t: &Type) -> Option<String> {
    let s = format!("scilla_version 0 contract T () field f : {t} = x");
    match contract(&s) {
        Ok(c) if c.fields.0.len() == 1 && c.fields.0[0].r#type == *t => None,
        Ok(c) => Some(format!("{t} parses as {:?} instead of {t:?}", c.fields)),
        Err(e) => Some(format!("{t} does not parse: {e}")),
    }
}
fn show_type(inp: &Input) -> Option<String> {
    let seed: u64 = std::str::from_utf8(&inp[0]).ok()?.parse().ok()?;
    let mut r = Rng::new(seed);
    let t = rand_type(&mut r, 4);
    let (a, b) = (t.to_string(), refcon::show(&t));
    if a != b {
        return Some(format!("{t:?} prints as {a} instead of {b}"));
    }
    // round trip of a type that parsing produced
    let mut g = G::new(r.next(), r.next());
    g.odd_types = false;
    g.ty(4);
    let s = format!("scilla_version 0 contract T () field f : {} = x", g.out.join(" "));
    if let Ok(c) = contract(&s) {
        for f in &c.fields.0 {
            let (a, b) = (f.r#type.to_string(), refcon::show(&f.r#type));
            if a != b {
                return Some(format!("{:?} prints as {a} instead of {b}", f.r#type));
            }
            if let Some(e) = reparse(&f.r#type) {
                return Some(e);
            }
        }
    }
    None
}

fn traverse(s: &str, how: &[u8], errors: bool) -> Option<String> {
    let how: Vec<u64> = std::str::from_utf8(how).ok()?.split(' ').map(|x| x.parse().unwrap()).collect();
    let p = if how.len() > 3 && how[3] > 0 { tree_at(s, how[3]) } else { tree(s) }.ok()?;
    if let Some(e) = traverse_at(&p, &p.tree(), &how, errors) {
        return Some(e);
    }
    // nodes that a program traversal does not reach
    for f in &p.contract_definition.node.fields {
        let t = &f.node.typed_identifier.node.annotation.node.type_name.node;
        if let NodeScillaType::GenericTypeWithArgs(_, args) = t {
            let n = NodeContractTypeArguments { type_arguments: args.clone() };
            if let Some(e) = traverse_at(&n, &n.tree(), &how, errors) {
                return Some(e);
            }
        }
    }
    None
}

fn traverse_at<T: AstVisitor>(p: &T, n: &visit::N, how: &[u64], errors: bool) -> Option<String> {
    let total = visit::size(n);
    let seed = how[0];
    let fail_at = if how[1] == 1 { (seed as usize) % total } else { usize::MAX };
    let skips = [0usize, 0, 20, 5][how[2] as usize % 4];
    let policy = move |k: usize, enter: bool| {
        if k == fail_at {
            return Ans::Fail;
        }
        let mut r = Rng::new(seed ^ (k as u64).wrapping_mul(77));
        if enter && skips > 0 && r.chance(1, skips) {
            Ans::Skip
        } else {
            Ans::Continue
        }
    };
    let mut rec = visit::Rec { policy: &policy, evs: vec![], k: 0, limit: 4 * total + 100 };
    let res = p.visit(&mut rec);
    let mut evs = vec![];
    let mut k = 0;
    let want = visit::run(n, &policy, &mut evs, &mut k);
    if !errors {
        let a: Vec<_> = rec.evs.iter().filter(|e| matches!(e, Ev::Cb(..))).collect();
        let b: Vec<_> = evs.iter().filter(|e| matches!(e, Ev::Cb(..))).collect();
        if a != b {
            let i = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
            return Some(format!("callback {i} is {:?} instead of {:?}", a.get(i), b.get(i)));
        }
        return None;
    }
    // errors and positions
    let want_err = rec.evs.iter().filter(|e| matches!(e, Ev::Cb(..))).count() > fail_at;
    match (&res, want_err) {
        (Ok(TraversalResult::Continue), false) => {}
        (Ok(_), false) => return Some("a visit in which nothing fails does not answer Continue".into()),
        (Err(e), true) if *e == visit::message(fail_at) => {}
        (Ok(_), _) => return Some("the error of a callback is lost".into()),
        (Err(e), _) => return Some(format!("the visit fails with {e:?}")),
    }
    let _ = want;
    let spans = visit::spans(n);
    let mut open = 0usize;
    let mut k = 0;
    for (i, e) in rec.evs.iter().enumerate() {
        match e {
            Ev::Push(..) => {
                open += 1;
                if k > fail_at {
                    return Some("a position is opened after the error".into());
                }
                if !matches!(rec.evs.get(i + 1), Some(Ev::Cb(_, true, _))) {
                    return Some("a position is opened without entering a node".into());
                }
            }
            Ev::Pop => {
                if open == 0 {
                    return Some("a position is closed that is not open".into());
                }
                open -= 1;
            }
            Ev::Cb(name, enter, at) => {
                if k > fail_at {
                    return Some(format!("{name} is called after the error"));
                }
                let leaves = !enter || policy(k, *enter) != Ans::Continue;
                k += 1;
                if let Some(sp) = spans.get(&(*name, *at)) {
                    match sp {
                        Some((s, e)) => {
                            if *enter && (i == 0 || rec.evs[i - 1] != Ev::Push(s.clone(), e.clone())) {
                                return Some(format!("{name} is entered without its position {s:?} {e:?}"));
                            }
                            if leaves && rec.evs.get(i + 1) != Some(&Ev::Pop) {
                                return Some(format!("the position of {name} is not closed after its last callback"));
                            }
                        }
                        None => {
                            if *enter && i > 0 && matches!(rec.evs[i - 1], Ev::Push(..)) {
                                return Some(format!("a position is opened for {name}, which has none"));
                            }
                        }
                    }
                }
            }
        }
    }
    if open != 0 {
        return Some(format!("{open} positions stay open"));
    }
    None
}

fn outcome(r: &Result<Contract, Error>) -> String {
    format!("{r:?}")
}
fn file(inp: &Input, scratch: &str) -> Option<String> {
    use std::path::{Path, PathBuf};
    let kind = std::str::from_utf8(&inp[1]).ok()?;
    if let Some(k) = kind.strip_prefix("unreadable:") {
        return unreadable(k, scratch);
    }
    let path = Path::new(scratch).join(kind.strip_prefix("name:").unwrap_or("contract.scilla"));
    std::fs::create_dir_all(Path::new(scratch).join("sub")).ok()?;
    std::fs::create_dir_all(path.parent()?).ok()?;
    // what is handed to the code: the path in another form
    let form: PathBuf = match kind {
        "form:dots" => Path::new(scratch).join("sub/.././contract.scilla"),
        "form:slashes" => PathBuf::from(format!("{scratch}//contract.scilla")),
        "form:relative" => {
            let cwd = std::env::current_dir().ok()?;
            let up: PathBuf = cwd.components().skip(1).map(|_| "..").collect();
            up.join(std::fs::canonicalize(scratch).ok()?.strip_prefix("/").ok()?).join("contract.scilla")
        }
        _ => path.clone(),
    };
    if let Some(b) = before(inp) {
        std::fs::write(&path, b).ok()?;
        let _ = std::panic::catch_unwind(|| Contract::parse(&form).is_ok());
    }
    if kind == "name:link.scilla" {
        // a symbolic link to the file
        std::fs::write(Path::new(scratch).join("target.txt"), &inp[0]).ok()?;
        let _ = std::fs::remove_file(&path);
        std::os::unix::fs::symlink("target.txt", &path).ok()?;
    } else {
        std::fs::write(&path, &inp[0]).ok()?;
    }
    if let Some(m) = kind.strip_prefix("mode:") {
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(&path, std::fs::Permissions::from_mode(u32::from_str_radix(m, 8).ok()?)).ok()?;
    }
    if kind == "old" {
        std::fs::File::options().write(true).open(&path).ok()?.set_modified(std::time::SystemTime::UNIX_EPOCH).ok()?;
    }
    let want = std::fs::read_to_string(&form);
    let r = Contract::parse(&form);
    let _ = std::fs::remove_file(&path);
    match want {
        Ok(s) => {
            let w = Contract::from_str(&s);
            (outcome(&r) != outcome(&w)).then(|| diff(&outcome(&r), &outcome(&w)))
        }
        Err(e) => match r {
            Err(Error::IoError(g)) if g.kind() == e.kind() => None,
            r => Some(format!("{kind}: {} instead of an I/O error", outcome(&r))),
        },
    }
}

/// Paths at which there is nothing to read: the error is the one that reading gives.
fn unreadable(kind: &str, scratch: &str) -> Option<String> {
    use std::path::{Path, PathBuf};
    let dir = Path::new(scratch);
    std::fs::create_dir_all(dir).ok()?;
    let file = dir.join("plain.scilla");
    std::fs::write(&file, "scilla_version 0 contract C ()").ok()?;
    let path: PathBuf = match kind {
        "missing" => dir.join("no-such-file.scilla"),
        "missing directory" => dir.join("nowhere/contract.scilla"),
        "directory" => dir.to_path_buf(),
        "below a file" => file.join("contract.scilla"),
        "empty" => PathBuf::new(),
        "nul" => dir.join("a\0b.scilla"),
        "long" => dir.join(format!("{}.scilla", "x".repeat(300))),
        "slash" => PathBuf::from(format!("{}/", file.display())),
        "not utf8" => {
            use std::os::unix::ffi::OsStrExt;
            dir.join(std::ffi::OsStr::from_bytes(b"\xff\xfe.scilla"))
        }
        "loop" => {
            let p = dir.join("loop.scilla");
            let _ = std::fs::remove_file(&p);
            std::os::unix::fs::symlink("loop.scilla", &p).ok()?;
            p
        }
        _ => {
            let p = dir.join("dangling.scilla");
            let _ = std::fs::remove_file(&p);
            std::os::unix::fs::symlink("gone.scilla", &p).ok()?;
            p
        }
    };
    let want = std::fs::read_to_string(&path).err()?;
    match Contract::parse(&path) {
        Err(Error::IoError(e)) if e.kind() == want.kind() && e.raw_os_error() == want.raw_os_error() => None,
        r => Some(format!("{kind}: {} instead of the I/O error {want:?}", outcome(&r))),
    }
}
