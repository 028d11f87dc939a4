import re as _re
_t = open("/repo/src/ast/converting.rs").read()
_m = _re.findall(r"fn (emit_\w+)\(\s*&mut self,\s*\w+: TreeTraversalMode,\s*\w+: &(\w+),", _t)
assert len(_m) > 35
S_REC = '''
#![allow(dead_code)]
use scilla_parser::ast::{converting::AstConverting, nodes::*, visitor::AstVisitor, TraversalResult, TreeTraversalMode};
use scilla_parser::parser::{lexer::*, parser::*};

/// Notes every callback; fails at the callback with number `fail`.
#[derive(Default)]
struct Rec { log: Vec<(String, String)>, fail: Option<usize>, skip: Option<String>, open: i64 }
impl Rec {
    fn cb(&mut self, name: &str, mode: TreeTraversalMode, node: String) -> Result<TraversalResult, String> {
        let enter = matches!(mode, TreeTraversalMode::Enter);
        let k = self.log.len();
        self.log.push((format!("{}{}", if enter { "+" } else { "-" }, name), node));
        if self.fail == Some(k) { return Err(format!("failed {}", k)); }
        if enter && self.skip.as_deref() == Some(name) { return Ok(TraversalResult::SkipChildren); }
        Ok(TraversalResult::Continue)
    }
}
impl AstConverting for Rec {
    fn push_source_position(&mut self, _: &SourcePosition, _: &SourcePosition) { self.open += 1; }
    fn pop_source_position(&mut self) { self.open -= 1; }
''' + "\n".join('    fn %s(&mut self, m: TreeTraversalMode, n: &%s) -> Result<TraversalResult, String> { self.cb("%s", m, format!("{:?}", n)) }' % (a, b, a[5:]) for a, b in _m) + '''
}
fn program(text: &str) -> NodeProgram {
    let mut errors = vec![];
    ProgramParser::new().parse(&mut errors, Lexer::new(text)).unwrap()
}
'''
S["_REC"] = S_REC
