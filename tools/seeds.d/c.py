EM = "src/simplified_representation/emitter.rs"
TY = "src/type.rs"
CO = "src/contract.rs"
LX = "src/parser/lexer.rs"
VI = "src/ast/visitor.rs"
NO = "src/ast/nodes.rs"
PROG = '''
use scilla_parser::{ast::nodes::*, parser::{lexer::*, parser::*}};
fn program(text: &str) -> Result<NodeProgram, String> {
    let mut errors = vec![];
    ProgramParser::new().parse(&mut errors, Lexer::new(text)).map_err(|e| format!("{:?}", e))
}
'''
S["S25"] = dict(property="C02", edits=[(LX, '''                                        } else if let Some(mat) = regular_id.find(token_str) {
                                            let end = start + mat.end();''', '''                                        } else if let Some(mat) = regular_id.find(token_str) {
                                            let end = start + token_str[..mat.end()].chars().take(128).count();''')],
  needs="an identifier of more than 128 characters", breaks="the identifier ends after 128 characters",
  main='''
use scilla_parser::parser::lexer::*;
fn main() {
    let name = "x".repeat(130);
    let t: Vec<_> = Lexer::new(&name).map(|t| t.unwrap().1).collect();
    assert_eq!(t, [Token::Identifier(name.as_str())]);
}
''')
S["S26"] = dict(property="C06", edits=[(EM, '''        self.contract.fields.push(field);
''', '''        // declared twice
        if !self.contract.fields.iter().any(|f| f.name.eq_ignore_ascii_case(&field.name)) {
            self.contract.fields.push(field);
        }
''')], needs="two fields whose names differ in case only", breaks="the second is missing",
  main='''
use scilla_parser::*;
fn main() {
    let c: Contract = "scilla_version 0 contract C () field a: Uint32 = x field aB: Uint32 = x field ab: String = y".parse().unwrap();
    let n: Vec<_> = c.fields.iter().map(|f| f.name.as_str()).collect();
    assert_eq!(n, ["a", "aB", "ab"]);
}
''')
S["S27"] = dict(property="C14", edits=[(LX, "            Token::HexNumber(value) => value.to_string(),", "            Token::HexNumber(value) => value.to_string().replace('X', \"x\"),")],
  needs="a hexadecimal number written with 0X", breaks="the token converts to another text",
  main='''
use scilla_parser::parser::lexer::*;
fn main() {
    let t = Lexer::new("0Xab").next().unwrap().unwrap().1;
    assert_eq!(String::from(t), "0Xab");
}
''')
S["S28"] = dict(property="C17", edits=[(LX, '''                                    KEYWORD_IN => {''', '''                                    KEYWORD_IN if !token_str[index..].starts_with('(') => {''')],
  needs="an `in` that is followed by a parenthesis without a blank", breaks="a program of the grammar is rejected",
  main='''
use scilla_parser::*;
fn main() {
    let text = "scilla_version 0 contract C () field a: (Uint32) = let b = c in(*x*) b";
    assert!(text.parse::<Contract>().is_ok());
    assert!(text.replace("(*x*)", "").parse::<Contract>().is_ok());
}
''')
S["S29"] = dict(property="C16", edits=[(EM, '''        node.contract_definition.visit(&mut self)?;
        Ok(self.contract)''', '''        // names are shared between contracts of the same shape
        static NAMES: std::sync::Mutex<Option<(usize, Vec<String>)>> = std::sync::Mutex::new(None);
        node.contract_definition.visit(&mut self)?;
        let names: Vec<String> = self.contract.fields.iter().map(|f| f.name.clone()).collect();
        let key = names.iter().map(|n| n.len()).sum::<usize>() + 1000 * names.len();
        let mut known = NAMES.lock().unwrap_or_else(|e| e.into_inner());
        match &*known {
            Some((k, old)) if *k == key && names.len() > 1 => {
                for (field, name) in self.contract.fields.0.iter_mut().zip(old) {
                    field.name.clone_from(name);
                }
            }
            _ => *known = Some((key, names)),
        }
        Ok(self.contract)''')], needs="two contracts parsed one after the other, with as many fields and names as long together", breaks="the second has the field names of the first",
  main='''
use scilla_parser::*;
fn main() {
    let a: Contract = "scilla_version 0 contract C () field ab: Uint32 = x field cd: Uint32 = x".parse().unwrap();
    let b: Contract = "scilla_version 0 contract C () field xyz: Uint32 = x field w: Uint32 = x".parse().unwrap();
    assert_eq!(a.fields[0].name, "ab");
    assert_eq!(b.fields[0].name, "xyz");
}
''')
S["S30"] = dict(property="C05", edits=[(EM, '''        let _ = node.parameters.visit(self)?;
''', '''        let _ = node.parameters.visit(self)?;
        // the contract's own address is not a parameter
        let own = crate::Type::Other(self.contract.name.clone());
        self.contract.init_params.0.retain(|p| p.r#type != own);
''')], needs="a deployment parameter whose type has the name of the contract", breaks="the parameter is missing",
  main='''
use scilla_parser::*;
fn main() {
    let c: Contract = "scilla_version 0 library Token type Token = | Token contract Token (a: Uint32, b: Token)".parse().unwrap();
    assert_eq!(c.init_params.len(), 2);
}
''')
S["S31"] = dict(property="C08", edits=[(TY, '''                    .strip_prefix("ByStr")
                    .and_then(|s| s.parse::<usize>().ok())''', '''                    .trim_start_matches("ByStr")
                    .parse::<usize>()
                    .ok()''')], needs="a user-defined type named ByStrByStr5 or the like", breaks="it is reported as ByStr5",
  main='''
use scilla_parser::*;
fn main() {
    let c: Contract = "scilla_version 0 contract C (a: ByStrByStr5, b: ByStr5)".parse().unwrap();
    assert_eq!(c.init_params[0].r#type, Type::Other("ByStrByStr5".into()));
    assert_eq!(c.init_params[1].r#type, Type::ByStrX(5));
}
''')
S["S32"] = dict(property="C13", edits=[(LX, '''                                                Token::CustomIdentifier(s),
                                                source_position.with_end(end),''', '''                                                Token::CustomIdentifier(s),
                                                source_position
                                                    .with_end(start + s.trim_end_matches('_').len()),''')],
  needs="an upper-case name that ends in an underscore", breaks="the nodes that end with it end too early",
  main=PROG + '''
fn main() {
    let text = "scilla_version 0 import A import Foo_ contract C ()";
    let p = program(text).unwrap();
    let l = &p.import_declarations.unwrap().node.import_list;
    assert_eq!(&text[l[0].start.position..l[0].end.position], "A");
    assert_eq!(&text[l[1].start.position..l[1].end.position], "Foo_");
}
''')
S["S33"] = dict(property="C11", edits=[(VI, '''            for import in &self.import_list {
                import.visit(emitter)?;
            }''', '''            for import in &self.import_list {
                match import.visit(emitter) {
                    Err(reason) if !reason.is_empty() => return Err(reason),
                    _ => continue,
                }
            }''')], needs="a converter that fails with an empty message at an import", breaks="the traversal goes on and the error is lost",
  main=S["_REC"].replace('return Err(format!("failed {}", k))', 'return Err(String::new())') + '''
fn main() {
    let p = program("scilla_version 0 import A import B contract C ()");
    let mut n = 0;
    loop {
        let mut r = Rec { fail: Some(n), ..Default::default() };
        let res = p.visit(&mut r);
        if r.log.len() <= n { assert!(res.is_ok()); break; }
        assert_eq!(res.err(), Some(String::new()), "callback {}: {:?}", n, r.log[n]);
        n += 1;
    }
    assert!(n > 8);
}
''')
S["S34"] = dict(property="C12", edits=[(NO, '''            NodeVariableIdentifier::SpecialIdentifier(id) => format!("{}", id),''', '''            NodeVariableIdentifier::SpecialIdentifier(id) if id.node.trim_matches('_').is_empty() => {
                "_".to_string()
            }
            NodeVariableIdentifier::SpecialIdentifier(id) => format!("{}", id),''')],
  needs="a special name of underscores only, two or more", breaks="the tree writes it out as one underscore",
  main='''
use scilla_parser::ast::nodes::*;
use scilla_parser::parser::lexer::SourcePosition;
fn main() {
    let p = SourcePosition::start_position();
    for name in ["__", "_sender", "_1"] {
        let v = NodeVariableIdentifier::SpecialIdentifier(WithMetaData { node: name.to_string(), start: p, end: p });
        assert_eq!(v.to_string(), name);
    }
}
''')
S["S35"] = dict(property="C15", edits=[(CO, "        std::fs::read_to_string(contract_path)?.parse()", '''        use std::io::Read;
        // contracts are small
        let mut text = String::new();
        std::fs::File::open(contract_path)?.take(1 << 18).read_to_string(&mut text)?;
        text.parse()''')], needs="a file of more than 262144 bytes", breaks="the rest of the file is not parsed",
  main='''
use scilla_parser::*;
fn main() {
    let text = format!("scilla_version 0 contract C () (*{}*) field last: Uint32 = x", " ".repeat(270000));
    let p = std::env::current_dir().unwrap().join("long.scilla");
    std::fs::write(&p, &text).unwrap();
    let c = Contract::parse(&p);
    assert_eq!(c.unwrap(), text.parse::<Contract>().unwrap());
}
''')
