//! Regular expression literals as terms of the contracts' `Re` type.
//! Subset: literals, classes, `.`, groups, `|`, `*`, `+`, `?`, `^` at the start, `$` at the end, escapes of
//! punctuation. Anything else is reported as unsupported.

#[derive(Clone, Debug)]
pub enum Re {
    Empty,
    Class(bool, Vec<(char, char)>),
    Seq(Box<Re>, Box<Re>),
    Alt(Box<Re>, Box<Re>),
    Star(Box<Re>),
    Opt(Box<Re>),
    End,
}

struct P<'a> {
    cs: &'a [char],
    i: usize,
}

type R<T> = Result<T, String>;

fn norm(mut v: Vec<(char, char)>) -> Vec<(char, char)> {
    v.sort();
    let mut out: Vec<(char, char)> = vec![];
    for (a, b) in v {
        match out.last_mut() {
            Some(l) if a as u32 <= l.1 as u32 + 1 => l.1 = l.1.max(b),
            _ => out.push((a, b)),
        }
    }
    out
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<char> {
        self.cs.get(self.i).copied()
    }
    fn alt(&mut self) -> R<Re> {
        let a = self.seq()?;
        if self.peek() == Some('|') {
            self.i += 1;
            let b = self.alt()?;
            return Ok(Re::Alt(Box::new(a), Box::new(b)));
        }
        Ok(a)
    }
    fn seq(&mut self) -> R<Re> {
        let mut v = vec![];
        while let Some(c) = self.peek() {
            if c == '|' || c == ')' {
                break;
            }
            let a = self.atom()?;
            let a = match self.peek() {
                Some('*') => {
                    self.i += 1;
                    Re::Star(Box::new(a))
                }
                Some('+') => {
                    self.i += 1;
                    Re::Seq(Box::new(a.clone()), Box::new(Re::Star(Box::new(a))))
                }
                Some('?') => {
                    self.i += 1;
                    Re::Opt(Box::new(a))
                }
                Some('{') => return Err("counted repetition".into()),
                _ => a,
            };
            if matches!(self.peek(), Some('?') | Some('+') | Some('*')) {
                return Err("lazy or repeated repetition".into());
            }
            v.push(a);
        }
        let mut it = v.into_iter().rev();
        let Some(mut r) = it.next() else { return Ok(Re::Empty) };
        for x in it {
            // (x y) z is written x (y z)
            r = match x {
                Re::Seq(a, b) => Re::Seq(a, Box::new(Re::Seq(b, Box::new(r)))),
                x => Re::Seq(Box::new(x), Box::new(r)),
            };
        }
        Ok(r)
    }
    fn escaped(&mut self) -> R<char> {
        let c = self.peek().ok_or("trailing backslash")?;
        self.i += 1;
        match c {
            'n' => Ok('\n'),
            't' => Ok('\t'),
            'r' => Ok('\r'),
            c if c.is_ascii_punctuation() => Ok(c),
            c => Err(format!("escape \\{}", c)),
        }
    }
    fn atom(&mut self) -> R<Re> {
        let c = self.peek().unwrap();
        self.i += 1;
        Ok(match c {
            '(' => {
                if self.peek() == Some('?') {
                    if self.cs.get(self.i + 1) == Some(&':') {
                        self.i += 2;
                    } else {
                        return Err("group flags".into());
                    }
                }
                let r = self.alt()?;
                if self.peek() != Some(')') {
                    return Err("unclosed group".into());
                }
                self.i += 1;
                r
            }
            '[' => {
                let neg = self.peek() == Some('^');
                if neg {
                    self.i += 1;
                }
                let mut v = vec![];
                let mut first = true;
                loop {
                    let c = self.peek().ok_or("unclosed class")?;
                    self.i += 1;
                    if c == ']' && !first {
                        break;
                    }
                    if c == '[' || c == '&' || c == '~' {
                        return Err("nested class".into());
                    }
                    first = false;
                    let a = if c == '\\' { self.escaped()? } else { c };
                    if self.peek() == Some('-') && self.cs.get(self.i + 1).map(|c| *c != ']').unwrap_or(false) {
                        self.i += 1;
                        let c = self.peek().unwrap();
                        self.i += 1;
                        let b = if c == '\\' { self.escaped()? } else { c };
                        if b < a {
                            return Err("empty range".into());
                        }
                        v.push((a, b));
                    } else {
                        v.push((a, a));
                    }
                }
                Re::Class(neg, norm(v))
            }
            '.' => Re::Class(true, vec![('\n', '\n')]),
            '$' => Re::End,
            '\\' => {
                let c = self.escaped()?;
                Re::Class(false, vec![(c, c)])
            }
            '^' => return Err("^ inside the pattern".into()),
            '*' | '+' | '?' | '{' | '}' | ']' => return Err(format!("stray {}", c)),
            c => Re::Class(false, vec![(c, c)]),
        })
    }
}

/// The pattern without its leading `^`, and whether it has one.
pub fn parse(s: &str) -> R<(bool, Re)> {
    let cs: Vec<char> = s.chars().collect();
    let anchored = cs.first() == Some(&'^');
    let cs = if anchored { &cs[1..] } else { &cs[..] };
    let mut p = P { cs, i: 0 };
    let r = p.alt()?;
    if p.i != cs.len() {
        return Err("unbalanced pattern".into());
    }
    if matches!(r, Re::Alt(..)) && anchored {
        return Err("^ binds to the first alternative only".into());
    }
    Ok((anchored, r))
}

pub fn term(r: &Re) -> String {
    match r {
        Re::Empty => "Re::Empty".into(),
        Re::End => "Re::End".into(),
        Re::Class(n, v) => {
            let mut s = "Cls::Nil".to_string();
            for (a, b) in v.iter().rev() {
                s = format!("Cls::Or({:?}, {:?}, Box::new({}))", a, b, s);
            }
            format!("Re::Class({}, {})", n, s)
        }
        Re::Seq(a, b) => format!("Re::Seq(Box::new({}), Box::new({}))", term(a), term(b)),
        Re::Alt(a, b) => format!("Re::Alt(Box::new({}), Box::new({}))", term(a), term(b)),
        Re::Star(a) => format!("Re::Star(Box::new({}))", term(a)),
        Re::Opt(a) => format!("Re::Opt(Box::new({}))", term(a)),
    }
}
