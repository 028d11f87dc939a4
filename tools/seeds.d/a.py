EM = "src/simplified_representation/emitter.rs"
PRIM = "src/simplified_representation/primitives.rs"
TY = "src/type.rs"
CO = "src/contract.rs"
LX = "src/parser/lexer.rs"
GR = "src/parser/parser.lalrpop"
VI = "src/ast/visitor.rs"

def contract(body):
    return 'use scilla_parser::*;\n' + body

S["S01"] = dict(property="C05", edits=[(EM, """                    self.contract.init_params.push(init_param);
""", """                    if self.contract.init_params.last() != Some(&init_param) {
                        self.contract.init_params.push(init_param);
                    }
""")], needs="a contract with two equal adjacent deployment parameters",
  breaks="a deployment parameter that repeats the one before it is dropped from the list",
  main='''
use scilla_parser::*;
fn main() {
    let c: Contract = "scilla_version 0 contract C (a: Uint32, a: Uint32, b: String)".parse().unwrap();
    let n: Vec<_> = c.init_params.iter().map(|p| p.name.as_str()).collect();
    assert_eq!(n, ["a", "a", "b"]);
}
''')

S["S02"] = dict(property="C06", edits=[(EM, """        self.contract.fields.push(field);
""", """        // a field is declared once
        match self.contract.fields.0.iter_mut().find(|f| f.name == field.name) {
            Some(known) => *known = field,
            None => self.contract.fields.push(field),
        }
""")], needs="two fields with the same name", breaks="the second declaration replaces the first instead of being listed after it",
  main='''
use scilla_parser::*;
fn main() {
    let c: Contract = "scilla_version 0 contract C () field a : Uint32 = Uint32 1 field b : String = \\"x\\" field a : String = \\"y\\"".parse().unwrap();
    let n: Vec<_> = c.fields.iter().map(|p| (p.name.as_str(), p.r#type.clone())).collect();
    assert_eq!(n, [("a", Type::Uint32), ("b", Type::String), ("a", Type::String)]);
}
''')

S["S03"] = dict(property="C07", edits=[(EM, """        let mut function_name = self.pop_ir_identifier()?;
        assert!(""", """        // Parameters the runtime supplies are not part of the interface
        let arguments: Vec<Field> = arguments
            .into_iter()
            .filter(|f| f.name != "sender" || f.r#type != Type::ByStr20)
            .collect();

        let mut function_name = self.pop_ir_identifier()?;
        assert!("""), (EM, "    Contract, Field, FieldList, Transition,\n", "    Contract, Field, FieldList, Transition, Type,\n") ],
  needs="a transition with a parameter called sender of type ByStr20", breaks="such a parameter is missing from the transition's parameters",
  main='''
use scilla_parser::*;
fn main() {
    let c: Contract = "scilla_version 0 contract C () transition T (x: Uint32, sender: ByStr20, y: String) end".parse().unwrap();
    let n: Vec<_> = c.transitions[0].params.iter().map(|p| p.name.as_str()).collect();
    assert_eq!(n, ["x", "sender", "y"]);
}
''')

S["S04"] = dict(property="C08", edits=[(EM, """                self.stack
                    .push(StackObject::TypeDefinition(identifier.into()));
                if !args.is_empty() {
                    let mut main_type = self.pop_type_definition()?;
                    for arg in args {
                        let _ = arg.visit(self)?;
                        let sub_type = self.pop_type_definition()?;
""", """                self.stack
                    .push(StackObject::TypeDefinition(identifier.into()));
                if !args.is_empty() {
                    let mut main_type = self.pop_type_definition()?;
                    for arg in args {
                        let _ = arg.visit(self)?;
                        let mut sub_type = self.pop_type_definition()?;
                        // parentheses around a single type mean nothing
                        while sub_type.main_type == "Option" && sub_type.sub_types.len() == 1 && main_type.main_type == "Option" {
                            sub_type = sub_type.sub_types.remove(0);
                        }
""")], needs="an Option of an Option", breaks="nested Options collapse into one",
  main='''
use scilla_parser::*;
fn main() {
    let c: Contract = "scilla_version 0 contract C (a: Option (Option Uint32))".parse().unwrap();
    assert_eq!(c.init_params[0].r#type, Type::Option(Box::new(Type::Option(Box::new(Type::Uint32)))));
}
''')

S["S05"] = dict(property="C08", edits=[(TY, """            let value = type_definition.sub_types.pop().unwrap();
                let key = type_definition.sub_types.pop().unwrap();
                Type::Map(Box::new(key.into()), Box::new(value.into()))""", """            let value = type_definition.sub_types.pop().unwrap();
                let mut key = type_definition.sub_types.pop().unwrap();
                // keys are compared as plain addresses
                key.address_type = None;
                Type::Map(Box::new(key.into()), Box::new(value.into()))""")],
  needs="a map whose key is an address type with fields", breaks="the key's with-part is lost",
  main='''
use scilla_parser::*;
fn main() {
    let c: Contract = "scilla_version 0 contract C (a: Map ByStr20 with contract field f: Uint32 end String)".parse().unwrap();
    match &c.init_params[0].r#type {
        Type::Map(k, v) => {
            assert_eq!(**v, Type::String);
            assert_eq!(**k, Type::ByStr20With { type_name: "contract".into(), fields: FieldList(vec![Field::new("f", Type::Uint32)]) });
        }
        t => panic!("{:?}", t),
    }
}
''')

S["S06"] = dict(property="C04", edits=[(TY, """                    .strip_prefix("ByStr")
                    .and_then(|s| s.parse::<usize>().ok())""", """                    .strip_prefix("ByStr")
                    .filter(|s| s.chars().all(|c| c.is_ascii_digit()))
                    .map(|s| s.parse::<usize>().unwrap())""")],
  needs="a sized byte string type whose size does not fit a machine word", breaks="parsing panics",
  main='''
use scilla_parser::*;
fn main() {
    let r = std::panic::catch_unwind(|| "scilla_version 0 contract C (a: ByStr99999999999999999999999999)".parse::<Contract>().is_ok());
    assert!(r.is_ok());
}
''')

S["S07"] = dict(property="C16", edits=[(EM, """        let field = self.pop_variable_declaration()?;
        let _ = node.right_hand_side.visit(self)?;
""", """        let mut field = self.pop_variable_declaration()?;
        let _ = node.right_hand_side.visit(self)?;
        if let NodeFullExpression::TApp { identifier_name, .. } = &node.right_hand_side.node {
            // an instantiated polymorphic value: keep its name
            if let crate::Type::Other(_) = field.r#type {
                field.r#type = crate::Type::Other(identifier_name.to_string());
            }
        }
""")], needs="a field of a user-defined type that is initialised by a type application", breaks="the initialising expression decides the field's type",
  main='''
use scilla_parser::*;
fn main() {
    let a: Contract = "scilla_version 0 contract C () field f : Foo = @mk Uint32".parse().unwrap();
    let b: Contract = "scilla_version 0 contract C () field f : Foo = other".parse().unwrap();
    assert_eq!(a, b);
}
''')

S["S08"] = dict(property="C10", edits=[(VI, """                NodeFullExpression::Match {
                    match_expression,
                    clauses,
                    ..
                } => {
                    match_expression.visit(emitter)?;
                    for clause in clauses {""", """                NodeFullExpression::Match {
                    match_expression,
                    clauses,
                    ..
                } => {
                    match_expression.visit(emitter)?;
                    for clause in clauses.iter().rev() {""")],
  needs="a match expression with two clauses and a converter that looks at their order", breaks="the clauses are visited last to first",
  main=S["_REC"] + """
fn main() {
    let p = program("scilla_version 0 contract C () field f : Uint32 = match x with | A => y | B => z end");
    let mut r = Rec::default();
    assert!(p.visit(&mut r).is_ok());
    let n: Vec<&str> = r.log.iter().filter(|l| l.0 == "+pattern").map(|l| if l.1.contains("\\"A\\"") { "A" } else { "B" }).collect();
    assert_eq!(n, ["A", "B"]);
}
""")

S["S09"] = dict(property="C11", edits=[(VI, """                    for key in keys {
                        let ret = key.visit(emitter);

                        if ret != Ok(TraversalResult::Continue) {
                            return ret;
                        }
                    }
""", """                    for key in keys {
                        if let Ok(TraversalResult::SkipChildren) = key.visit(emitter) {
                            return Ok(TraversalResult::Continue);
                        }
                    }
""")], needs="a converter that fails inside the key of a map statement", breaks="the error is dropped and the traversal goes on", main=S["_REC"] + """
fn main() {
    let p = program("scilla_version 0 contract C () transition T () m[a][b] := c; delete m[a] end");
    let mut n = 0;
    loop {
        let mut r = Rec { fail: Some(n), ..Default::default() };
        let res = p.visit(&mut r);
        if r.log.len() <= n { assert!(res.is_ok()); break; }
        assert!(res == Err(format!("failed {}", n)), "callback {}: {:?}", n, r.log[n]);
        assert_eq!(r.log.len(), n + 1);
        assert_eq!(r.open, 0);
        n += 1;
    }
    assert!(n > 20);
}
""")



S["S10"] = dict(property="C12", edits=[(GR, """    <left_hand_side:RegularId> "<-" "&" "exists"
    <address_id:RegularId> "." <member_id:RegularId>
    <map_accesses:MapAccess+>
    => {
        NodeRemoteFetchStatement::ReadStateMutableMapAccessExists(
            left_hand_side,
            address_id,
            member_id,
            map_accesses
        )""", """    <left_hand_side:RegularId> "<-" "&" "exists"
    <address_id:RegularId> "." <member_id:RegularId>
    <map_accesses:MapAccess+>
    => {
        NodeRemoteFetchStatement::ReadStateMutableMapAccessExists(
            left_hand_side,
            member_id,
            address_id,
            map_accesses
        )""")], needs="a remote exists statement on a map", breaks="the address and the name of the remote map are exchanged in the tree",
  main=S["_REC"] + '''
fn main() {
    let p = program("scilla_version 0 contract C () transition T () x <- & exists addr.member[k] end");
    let s = match &p.contract_definition.node.components[0].node {
        NodeComponentDefinition::TransitionComponent(t) => t.node.body.node.statement_block.as_ref().unwrap().node.statements[0].clone(),
        _ => panic!(),
    };
    match s {
        NodeStatement::RemoteFetch(r) => match *r {
            NodeRemoteFetchStatement::ReadStateMutableMapAccessExists(l, a, m, _) => assert_eq!((l.node.as_str(), a.node.as_str(), m.node.as_str()), ("x", "addr", "member")),
            _ => panic!(),
        },
        _ => panic!(),
    }
}
''')

S["S11"] = dict(property="C13", edits=[(GR, """     <start:@L> <function_name:VariableIdentifier> <argument_list:VariableIdentifier+> <end:@R> => ""","""     <start:@L> <function_name:VariableIdentifier> <end:@R> <argument_list:VariableIdentifier+> => """)],
  needs="a function call in an expression", breaks="the node of a call ends after the function's name",
  main=S["_REC"] + '''
fn main() {
    let t = "scilla_version 0 contract C () field f : Uint32 = g x y";
    let p = program(t);
    let e = &p.contract_definition.node.fields[0].node.right_hand_side;
    assert_eq!(&t[e.start.position..e.end.position], "g x y");
}
''')


S["S12"] = dict(property="C03", edits=[(LX, """        ret.column += new_position - ret.position;
        ret.position = new_position;""", """        // columns restart after a tabulator stop
        ret.column += (new_position - ret.position).min(u8::MAX as usize);
        ret.position = new_position;""")], needs="a name of more than 255 bytes", breaks="the end column of a very long token is wrong",
  main='''
use scilla_parser::parser::lexer::*;
fn main() {
    let t = format!("ab {} c", "x".repeat(400));
    let v: Vec<_> = Lexer::new(&t).map(|r| r.unwrap()).collect();
    for (s, _, e) in v {
        assert_eq!((s.position, e.position), (s.column, e.column));
    }
}
''')

S["S13"] = dict(property="C14", edits=[(LX, """            Token::StringLiteral(value) => value.to_string(),
            _ =>""", """            Token::StringLiteral(value) => value.to_string().replace("\\\\\\"", "\\""),
            _ =>""")], needs="a string literal with an escaped quote", breaks="the escape is lost, so that the text lexes differently",
  main=r'''
use scilla_parser::parser::lexer::*;
fn main() {
    let t = r#""say \"hi\" now""#;
    let v: Vec<_> = Lexer::new(t).map(|r| r.unwrap().1).collect();
    assert_eq!(v.len(), 1);
    assert_eq!(String::from(v[0].clone()), t);
}
''')

S["S14"] = dict(property="C15", edits=[(CO, """        std::fs::read_to_string(contract_path)?.parse()""", """        let contents = std::fs::read(contract_path)?;
        String::from_utf8_lossy(&contents).parse()""")], needs="a file that is not UTF-8, with the offending byte inside a comment", breaks="the file is accepted instead of giving an error",
  main='''
use scilla_parser::*;
fn main() {
    let p = std::env::temp_dir().join(format!("demo-{}.scilla", std::process::id()));
    std::fs::write(&p, b"(* caf\\xe9 *) scilla_version 0 contract C ()").unwrap();
    let r = Contract::parse(&p);
    std::fs::remove_file(&p).unwrap();
    assert!(r.is_err());
}
''')

S["S15"] = dict(property="C09", edits=[(TY, """            Type::Option(ref k) => write!(f, "(Option {})", k),""", """            Type::Option(ref k) if matches!(**k, Type::Option(_)) => write!(f, "{}", k),
            Type::Option(ref k) => write!(f, "(Option {})", k),""")], needs="an Option of an Option", breaks="the nested Option is printed once only",
  main='''
use scilla_parser::*;
fn main() {
    let t = Type::Option(Box::new(Type::Option(Box::new(Type::Bool))));
    assert_eq!(t.to_string(), "(Option (Option Bool))");
}
''')

S["S16"] = dict(property="C17", edits=[(GR, """    "(" <arguments:VariableIdentifier+> ")" => NodeBlockchainFetchArguments{ arguments }""", """    "(" <arguments:VariableIdentifier*> ")" => NodeBlockchainFetchArguments{ arguments }""")],
  needs="a blockchain read with an empty argument list", breaks="a text outside the grammar is accepted",
  main='''
use scilla_parser::*;
fn main() {
    assert!("scilla_version 0 contract C () transition T () x <- & BLOCKNUMBER () end".parse::<Contract>().is_err());
    assert!("scilla_version 0 contract C () transition T () x <- & TIMESTAMP (b) end".parse::<Contract>().is_ok());
}
''')

S["S17"] = dict(property="C02", edits=[(LX, r'''Regex::new(r"^0(x|X)([a-fA-F0-9][a-fA-F0-9])*")''', r'''Regex::new(r"^0(x|X)([a-fA-F0-9][a-fA-F0-9])+")''')],
  needs="0x without digits, or with a single one", breaks="0x is lexed as the number 0 and a name",
  main='''
use scilla_parser::parser::lexer::*;
fn main() {
    let v: Vec<_> = Lexer::new("0x 0x1").map(|r| r.unwrap().1).collect();
    assert_eq!(v[0], Token::HexNumber("0x"));
}
''')

S["S18"] = dict(property="C01", edits=[(LX, """                        if ch == '*' && self.chars.peek().map(|(_, next_ch)| *next_ch) == Some(')')
                        {
                            self.chars.next();""", """                        if ch == '*' && self.chars.peek().map(|(_, next_ch)| *next_ch) == Some(')')
                        {
                            while self.chars.next_if(|(_, next_ch)| matches!(next_ch, ')' | ';')).is_some() {}""")],
  needs="a comment directly followed by a closing parenthesis or a semicolon", breaks="the text after the comment is lost",
  main='''
use scilla_parser::parser::lexer::*;
fn main() {
    let v: Vec<_> = Lexer::new("(a (* b *));").map(|r| r.unwrap().1).collect();
    assert_eq!(v, [Token::OpenParen, Token::Identifier("a"), Token::CloseParen, Token::Semicolon]);
}
''')
