//! Reference lexer: written from the documented token rules, independent of the lexer under test.
use scilla_parser::parser::lexer::{SourcePosition, Token};

pub type Tok<'a> = (SourcePosition, Token<&'a str>, SourcePosition);

/// Positions by counting line feeds from the start of the text.
pub struct Lines {
    starts: Vec<usize>,
}
impl Lines {
    pub fn new(s: &str) -> Lines {
        let mut starts = vec![0];
        for (i, b) in s.bytes().enumerate() {
            if b == b'\n' {
                starts.push(i + 1);
            }
        }
        Lines { starts }
    }
    pub fn at(&self, p: usize) -> SourcePosition {
        let line = self.starts.partition_point(|x| *x <= p) - 1;
        SourcePosition { position: p, line, column: p - self.starts[line] }
    }
}

pub const KEYWORDS: &[(&str, Token<&'static str>)] = &[
    ("forall", Token::Forall), ("builtin", Token::Builtin), ("library", Token::Library), ("import", Token::Import),
    ("let", Token::Let), ("in", Token::In), ("match", Token::Match), ("with", Token::With), ("end", Token::End),
    ("fun", Token::Fun), ("tfun", Token::Tfun), ("contract", Token::Contract), ("transition", Token::Transition),
    ("send", Token::Send), ("field", Token::Field), ("accept", Token::Accept), ("exists", Token::Exists),
    ("delete", Token::Delete), ("throw", Token::Throw), ("Map", Token::Map), ("scilla_version", Token::ScillaVersion),
    ("type", Token::Type), ("of", Token::Of), ("as", Token::As), ("procedure", Token::Procedure), ("Emp", Token::Emp),
    ("event", Token::Event), ("Event", Token::EventType), ("ByStr", Token::ByStr),
];
pub const OPS2: &[(&str, Token<&'static str>)] = &[
    ("=>", Token::DoubleArrow), ("->", Token::Arrow), ("<-", Token::LeftArrow), (":=", Token::ColonEquals),
];
pub const OPS1: &[(&str, Token<&'static str>)] = &[
    ("+", Token::Plus), ("*", Token::Asterisk), (";", Token::Semicolon), (":", Token::Colon), (".", Token::Dot),
    ("|", Token::Pipe), ("[", Token::OpenBracket), ("]", Token::CloseBracket), ("(", Token::OpenParen), (")", Token::CloseParen),
    ("{", Token::OpenBrace), ("}", Token::CloseBrace), (",", Token::Comma), ("&", Token::Ampersand), ("@", Token::At), ("=", Token::Equals),
];

fn run(b: &[u8], mut i: usize, f: impl Fn(u8) -> bool) -> usize {
    while i < b.len() && f(b[i]) {
        i += 1;
    }
    i
}
fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_'
}

/// End of the string literal starting at `s[at] == '"'`.
fn string_end(s: &str, at: usize) -> Option<usize> {
    let cs: Vec<(usize, char)> = s[at + 1..].char_indices().map(|(i, c)| (i + at + 1, c)).collect();
    // from the right: end[i] = the end of the literal if its body continues at character i
    let n = cs.len();
    let mut end: Vec<Option<usize>> = vec![None; n + 2];
    for i in (0..n).rev() {
        end[i] = match cs[i].1 {
            '"' => Some(cs[i].0 + 1),
            '\\' if i + 1 < n && cs[i + 1].1 != '\n' => end[i + 2].or(end[i + 1]),
            _ => end[i + 1],
        };
    }
    end[0]
}

pub fn lex(s: &str) -> Vec<Tok<'_>> {
    let lines = Lines::new(s);
    let b = s.as_bytes();
    let mut out: Vec<Tok> = vec![];
    let mut p = 0;
    while p < s.len() {
        let ch = s[p..].chars().next().unwrap();
        let next = s[p + ch.len_utf8()..].chars().next();
        if ch.is_whitespace() {
            p += ch.len_utf8();
            continue;
        }
        if s[p..].starts_with("(*") {
            match s[p + 2..].find("*)") {
                Some(k) => {
                    p += 2 + k + 2;
                    continue;
                }
                None => {
                    out.push((lines.at(p), Token::Unknown, lines.at(p)));
                    break;
                }
            }
        }
        let emit = |t: Token<&'static str>, n: usize| -> Option<(Token<&str>, usize)> { Some((t, p + n)) };
        let mut found: Option<(Token<&str>, usize)> = None;
        for (o, t) in OPS2 {
            if s[p..].starts_with(o) {
                found = emit(t.clone(), 2);
                break;
            }
        }
        if found.is_none() && ch == '-' && !next.map(|c| c.is_numeric()).unwrap_or(false) {
            found = emit(Token::Minus, 1);
        }
        if found.is_none() && ch == '_' && !next.map(|c| c.is_alphanumeric() || c == '_').unwrap_or(false) {
            found = emit(Token::Underscore, 1);
        }
        if found.is_none() {
            for (o, t) in OPS1 {
                if s[p..].starts_with(o) {
                    found = emit(t.clone(), 1);
                    break;
                }
            }
        }
        if found.is_none() {
            // the whole word
            let w = s[p..].find(|c: char| !(c.is_alphanumeric() || c == '_')).map(|k| p + k).unwrap_or(s.len());
            let word = &s[p..w];
            let digits = |i: usize| run(b, i, |c| c.is_ascii_digit());
            if let Some((_, t)) = KEYWORDS.iter().find(|(k, _)| *k == word) {
                found = Some((t.clone(), w));
            } else if word.len() > 5 && word.starts_with("ByStr") && word.bytes().skip(5).all(|c| c.is_ascii_digit()) {
                found = Some((Token::ByStrWithSize(word), w));
            } else if b[p] == b'0' && p + 1 < b.len() && (b[p + 1] == b'x' || b[p + 1] == b'X') {
                let h = run(b, p + 2, |c| c.is_ascii_hexdigit());
                let e = p + 2 + (h - (p + 2)) / 2 * 2;
                found = Some((Token::HexNumber(&s[p..e]), e));
            } else if b[p].is_ascii_digit() {
                let e = digits(p);
                found = Some((Token::Number(&s[p..e]), e));
            } else if b[p] == b'-' && p + 1 < b.len() && b[p + 1].is_ascii_digit() {
                let e = digits(p + 1);
                found = Some((Token::Number(&s[p..e]), e));
            } else if b[p] == b'"' {
                if let Some(e) = string_end(s, p) {
                    found = Some((Token::StringLiteral(&s[p..e]), e));
                }
            } else if b[p].is_ascii_lowercase() {
                let e = run(b, p, idc);
                found = Some((Token::Identifier(&s[p..e]), e));
            } else if b[p] == b'\'' && p + 1 < b.len() && b[p + 1].is_ascii_uppercase() {
                let e = run(b, p + 1, idc);
                found = Some((Token::TemplateIdentifier(&s[p..e]), e));
            } else if b[p].is_ascii_uppercase() {
                let e = run(b, p, idc);
                found = Some((Token::CustomIdentifier(&s[p..e]), e));
            } else if b[p] == b'_' {
                let e = run(b, p, idc);
                found = Some((Token::SpecialIdentifier(&s[p..e]), e));
            }
        }
        match found {
            Some((t, e)) => {
                out.push((lines.at(p), t, lines.at(e)));
                p = e;
            }
            None => {
                out.push((lines.at(p), Token::Unknown, lines.at(p)));
                p += ch.len_utf8();
            }
        }
    }
    out
}

/// The spelling of a token.
pub fn spelling(t: &Token<&str>) -> String {
    match t {
        Token::ByStrWithSize(s) | Token::Comment(s) | Token::Number(s) | Token::HexNumber(s) | Token::Identifier(s)
        | Token::TemplateIdentifier(s) | Token::CustomIdentifier(s) | Token::SpecialIdentifier(s) | Token::TypeName(s)
        | Token::StringLiteral(s) => s.to_string(),
        t => {
            for (k, x) in KEYWORDS.iter().chain(OPS2).chain(OPS1) {
                if x == t {
                    return k.to_string();
                }
            }
            match t {
                Token::Minus => "-".into(),
                Token::Underscore => "_".into(),
                Token::Whitespace => " ".into(),
                _ => String::new(),
            }
        }
    }
}
