//! Reader for the contract files in /verif/contracts.
//!
//! A file is a sequence of blocks. A block starts with a line `==== fn KEY`,
//! `==== text KEY` or `==== prelude`, and has sections started by `---- NAME`
//! lines; the section before the first `----` line is called "spec".
use std::collections::BTreeMap;

#[derive(Default, Debug, Clone)]
pub struct FnContract {
    pub props: Vec<String>,
    pub ret: Option<String>,
    pub sections: BTreeMap<String, String>,
    pub used: std::cell::Cell<bool>,
}

#[derive(Default)]
pub struct Contracts {
    pub prelude: String,
    pub texts: BTreeMap<String, String>,
    pub fns: BTreeMap<String, FnContract>,
    /// sections for every loop of the functions whose key ends so
    pub loops: Vec<(String, BTreeMap<String, String>)>,
    /// (function, n, name, signature): the `_` arm of its n-th match becomes a function of its own
    pub outlines: Vec<(String, usize, String, String)>,
}

impl Contracts {
    pub fn load(paths: &[std::path::PathBuf]) -> Contracts {
        let mut c = Contracts::default();
        for p in paths {
            let s = std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{}: {}", p.display(), e));
            c.add(&s);
        }
        c
    }
    pub fn add(&mut self, s: &str) {
        enum Blk { None, Prelude, Text(String), Fn(Vec<String>), Loops, Outline }
        let mut blk = Blk::None;
        let mut section = String::from("spec");
        for line in s.lines() {
            if let Some(h) = line.strip_prefix("==== ") {
                section = "spec".into();
                let h = h.trim();
                if h == "prelude" {
                    blk = Blk::Prelude;
                } else if let Some(k) = h.strip_prefix("loops ") {
                    self.loops.push((k.trim().to_string(), BTreeMap::new()));
                    blk = Blk::Loops;
                } else if let Some(k) = h.strip_prefix("outline ") {
                    let v: Vec<&str> = k.split_whitespace().collect();
                    self.outlines.push((v[0].into(), v[1].parse().unwrap(), v[2].into(), String::new()));
                    blk = Blk::Outline;
                } else if let Some(k) = h.strip_prefix("text ") {
                    blk = Blk::Text(k.trim().into());
                } else if let Some(k) = h.strip_prefix("add ") {
                    // more sections for a contract given before
                    assert!(self.fns.contains_key(k.trim()), "no contract for {}", k);
                    blk = Blk::Fn(vec![k.trim().to_string()]);
                } else if let Some(k) = h.strip_prefix("fn ") {
                    // several keys share one contract
                    let keys: Vec<String> = k.split(',').map(|x| x.trim().to_string()).collect();
                    for k in &keys {
                        assert!(!self.fns.contains_key(k), "two contracts for {}", k);
                        self.fns.insert(k.clone(), FnContract::default());
                    }
                    blk = Blk::Fn(keys);
                } else {
                    panic!("bad header {}", line);
                }
                continue;
            }
            match &blk {
                Blk::None => {}
                Blk::Prelude => {
                    self.prelude.push_str(line);
                    self.prelude.push('\n');
                }
                Blk::Outline => {
                    let t = &mut self.outlines.last_mut().unwrap().3;
                    t.push_str(line);
                    t.push('\n');
                }
                Blk::Loops => {
                    if let Some(n) = line.strip_prefix("---- ") {
                        section = n.trim().to_string();
                        continue;
                    }
                    let t = self.loops.last_mut().unwrap().1.entry(section.clone()).or_default();
                    t.push_str(line);
                    t.push('\n');
                }
                Blk::Text(k) => {
                    let t = self.texts.entry(k.clone()).or_default();
                    t.push_str(line);
                    t.push('\n');
                }
                Blk::Fn(keys) => {
                    if let Some(n) = line.strip_prefix("---- ") {
                        section = n.trim().to_string();
                        continue;
                    }
                    for k in keys {
                        let f = self.fns.get_mut(k).unwrap();
                        if section == "spec" {
                            if let Some(p) = line.strip_prefix("props ") {
                                f.props = p.split_whitespace().map(|x| x.to_string()).collect();
                                continue;
                            }
                            if let Some(r) = line.strip_prefix("ret ") {
                                f.ret = Some(r.trim().into());
                                continue;
                            }
                        }
                        let t = f.sections.entry(section.clone()).or_default();
                        t.push_str(line);
                        t.push('\n');
                    }
                }
            }
        }
    }
    pub fn get(&self, key: &str) -> Option<&FnContract> {
        let f = self.fns.get(key);
        if let Some(f) = f {
            f.used.set(true);
        }
        f
    }
}
