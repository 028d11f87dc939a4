//! Prints a token stream as text, one statement per line, and puts contract
//! text where the markers are.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

/// Gives the text for a marker `__vx_mark!(name)`.
pub trait Marks {
    fn text(&mut self, name: &str) -> String;
}
pub struct NoMarks;
impl Marks for NoMarks {
    fn text(&mut self, _: &str) -> String {
        String::new()
    }
}

fn marker(tts: &[TokenTree], i: usize) -> Option<(String, usize)> {
    // __vx_mark ! ( name ) ;
    if let TokenTree::Ident(id) = &tts[i] {
        if id == "__vx_mark" && i + 2 < tts.len() {
            if let TokenTree::Group(g) = &tts[i + 2] {
                let name = g.stream().to_string().replace(' ', "").trim_matches('"').to_string();
                let n = if let Some(TokenTree::Punct(p)) = tts.get(i + 3) {
                    if p.as_char() == ';' { 4 } else { 3 }
                } else {
                    3
                };
                return Some((name, n));
            }
        }
    }
    None
}

pub fn print(ts: TokenStream, marks: &mut dyn Marks) -> String {
    let mut out = String::new();
    go(ts, marks, &mut out, 0);
    out
}

fn nl(out: &mut String, ind: usize) {
    while out.ends_with(' ') {
        out.pop();
    }
    if !out.ends_with('\n') {
        out.push('\n');
    }
    for _ in 0..ind {
        out.push_str("  ");
    }
}

fn go(ts: TokenStream, marks: &mut dyn Marks, out: &mut String, ind: usize) {
    let tts: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < tts.len() {
        if let Some((name, n)) = marker(&tts, i) {
            if !name.starts_with("loop:") && !name.starts_with("for:") {
                let t = marks.text(&name);
                if !t.trim().is_empty() {
                    nl(out, ind);
                    out.push_str(t.trim_end());
                    nl(out, ind);
                }
            }
            i += n;
            continue;
        }
        match &tts[i] {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => ("", ""),
                };
                if g.delimiter() == Delimiter::Brace {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    if !inner.is_empty() {
                        if let Some((name, _)) = marker(&inner, 0) {
                            if name.starts_with("loop:") || name.starts_with("for:") {
                                let mut t = marks.text(&name);
                                if let Some(k) = name.strip_prefix("for:") {
                                    // a loop over an index has its bounds and its measure for free
                                    let (a, b) = match t.split_once("@@") {
                                        Some((a, b)) => (a.trim().to_string(), b.to_string()),
                                        None => (String::new(), t.clone()),
                                    };
                                    t = format!("{a}\ninvariant\n    0 <= __i{k} <= __it{k}@.len(),\n{}\ndecreases __it{k}@.len() - __i{k}", b.trim_end());
                                }
                                nl(out, ind + 1);
                                out.push_str(t.trim_end());
                                nl(out, ind);
                            }
                        }
                    }
                    out.push('{');
                    nl(out, ind + 1);
                    go(g.stream(), marks, out, ind + 1);
                    nl(out, ind);
                    out.push('}');
                    out.push(' ');
                    // a block followed by something that continues the expression stays on the line
                    let cont = match tts.get(i + 1) {
                        Some(TokenTree::Punct(_)) => true,
                        Some(TokenTree::Ident(id)) => id == "else" || id == "as",
                        Some(TokenTree::Group(_)) => true,
                        _ => false,
                    };
                    if !cont {
                        nl(out, ind);
                    }
                } else {
                    out.push_str(o);
                    go(g.stream(), marks, out, ind + 1);
                    while out.ends_with(' ') {
                        out.pop();
                    }
                    out.push_str(c);
                    out.push(' ');
                }
            }
            TokenTree::Punct(p) => {
                let ch = p.as_char();
                if matches!(ch, ',' | ';' | '.' | '?') && p.spacing() == Spacing::Alone {
                    // `return ;`, `x ?` read the same without the space
                    if out.ends_with(' ') && !matches!(tts.get(i.wrapping_sub(1)), Some(TokenTree::Punct(_))) {
                        out.pop();
                    }
                }
                out.push(ch);
                if ch == ';' {
                    nl(out, ind);
                } else if ch == '\'' {
                } else if p.spacing() == Spacing::Alone {
                    out.push(' ');
                } else if let Some(TokenTree::Punct(_)) = tts.get(i + 1) {
                } else {
                    out.push(' ');
                }
                if ch == ',' && p.spacing() == Spacing::Alone && ind > 0 {
                    // match arms and fields: new line after a comma within braces only is cosmetic
                }
            }
            t => {
                let t = t.to_string();
                out.push_str(&match t.strip_prefix("r#") {
                    Some(x) if !x.starts_with('"') => format!("raw_{}", x),
                    _ => t.clone(),
                });
                out.push(' ');
            }
        }
        i += 1;
    }
}
