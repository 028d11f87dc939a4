EM = "src/simplified_representation/emitter.rs"
TY = "src/type.rs"
CO = "src/contract.rs"
LX = "src/parser/lexer.rs"
GR = "src/parser/parser.lalrpop"
VI = "src/ast/visitor.rs"
PROG = '''
use scilla_parser::{ast::nodes::*, parser::{lexer::*, parser::*}};
fn program(text: &str) -> Result<NodeProgram, String> {
    let mut errors = vec![];
    ProgramParser::new().parse(&mut errors, Lexer::new(text)).map_err(|e| format!("{:?}", e))
}
'''

S["S03"] = dict(property="C07", edits=[(EM, """        self.contract.transitions.push(Transition::new(
            &function_name.unresolved,
            FieldList(arguments),
        ));
""", """        let transition = Transition::new(&function_name.unresolved, FieldList(arguments));
        // an overload with the same number of parameters replaces the one before
        match self.contract.transitions.0.iter().position(|t| t.name == transition.name && t.params.len() == transition.params.len()) {
            Some(known) => self.contract.transitions.0[known] = transition,
            None => self.contract.transitions.push(transition),
        }
""")], needs="two transitions of the same name with the same number of parameters", breaks="the second replaces the first in the list",
  main='''
use scilla_parser::*;
fn main() {
    let c: Contract = "scilla_version 0 contract C () transition T (x: Uint32) end transition U () end transition T (y: String) end".parse().unwrap();
    let n: Vec<_> = c.transitions.iter().map(|t| t.name.as_str()).collect();
    assert_eq!(n, ["T", "U", "T"]);
}
''')

S["S15"] = dict(property="C09", edits=[(TY, """            Type::ByStrX(n) => write!(f, "ByStr{}", n),""", """            Type::ByStrX(n) => write!(f, "ByStr{:02}", n),""")], needs="a byte string of a size below ten", breaks="the size is padded with a zero",
  main='''
use scilla_parser::*;
fn main() {
    assert_eq!(Type::ByStrX(4).to_string(), "ByStr4");
    assert_eq!(Type::ByStrX(33).to_string(), "ByStr33");
}
''')

S["S16"] = dict(property="C17", edits=[(GR, """<statement_list:NextStatement*> <end:@R> => 
    WithMetaData::<NodeStatementBlock> {""", """<statement_list:NextStatement*> ";"? <end:@R> => 
    WithMetaData::<NodeStatementBlock> {""")],
  needs="a statement block that ends in a semicolon", breaks="a text outside the grammar is accepted",
  main='''
use scilla_parser::*;
fn main() {
    assert!("scilla_version 0 contract C () transition T () accept; end".parse::<Contract>().is_err());
    assert!("scilla_version 0 contract C () transition T () accept; accept end".parse::<Contract>().is_ok());
}
''')

S["S19"] = dict(property="C12", edits=[(GR, """    		ret.import_list.push(n);
""", """    		match n.node {
    			NodeImportedName::AliasedImport(..) => ret.import_list.insert(0, n),
    			NodeImportedName::RegularImport(..) => ret.import_list.push(n),
    		}
""")], needs="an aliased import after another import", breaks="the imports are listed out of order",
  main=PROG + '''
fn main() {
    let p = program("scilla_version 0 import A import B as D import C contract C ()").unwrap();
    let l = p.import_declarations.unwrap().node.import_list;
    assert_eq!(l.len(), 3);
    assert!(matches!(l[1].node, NodeImportedName::AliasedImport(..)));
}
''')

S["S20"] = dict(property="C12", edits=[(GR, """TypeDefinition(type_name, Some(variations)),
""", """TypeDefinition(type_name, if variations.len() > 1 { Some(variations) } else { None }),
""")], needs="a library type with exactly one alternative", breaks="its only alternative is missing from the tree",
  main=PROG + '''
fn main() {
    let p = program("scilla_version 0 library L type T = | A of Uint32 contract C ()").unwrap();
    let l = p.library_definition.unwrap();
    assert!(matches!(&l.node.definitions[0].node, NodeLibrarySingleDefinition::TypeDefinition(_, Some(v)) if v.len() == 1));
}
''')

S["S21"] = dict(property="C13", edits=[(GR, """    <start:@L> "field" <identier_value:VariableIdentifier> ":" <type_name:ScillaType> <end:@R> => {""", """    "field" <start:@L> <identier_value:VariableIdentifier> ":" <type_name:ScillaType> <end:@R> => {""")],
  needs="a look at the position of a field of an address type", breaks="the node starts at its name, after the word field",
  main=PROG + '''
fn main() {
    let t = "scilla_version 0 contract C (a: ByStr20 with contract field b: Uint32 end)";
    let p = program(t).unwrap();
    let at = t.find("field").unwrap();
    let want = format!("start: SourcePosition {{ position: {},", at);
    let s = format!("{:?}", p);
    assert!(s.contains(&want), "{}", s);
}
''')

S["S22"] = dict(property="C15", edits=[(CO, "        std::fs::read_to_string(contract_path)?.parse()", """        let contract = std::fs::read_to_string(contract_path)?;
        // some editors write a byte order mark
        contract.trim_start_matches('\\u{feff}').parse()""")], needs="a file that starts with a byte order mark", breaks="the file parses although its contents as a string do not",
  main='''
use scilla_parser::*;
fn main() {
    let t = "\\u{feff}scilla_version 0 contract C ()";
    let p = std::path::PathBuf::from("bom.scilla");
    std::fs::write(&p, t).unwrap();
    assert_eq!(Contract::parse(&p).is_ok(), t.parse::<Contract>().is_ok());
}
''')

S["S24"] = dict(property="C17", edits=[(GR, """    <start:@L> "{" <type_arguments: TypeArgument*> "}" <end:@R> => 
    WithMetaData::<NodeContractTypeArguments> {""", """    <start:@L> "{" <type_arguments: TypeArgument+> "}" <end:@R> => 
    WithMetaData::<NodeContractTypeArguments> {""")],
  needs="a constructor or builtin with empty braces", breaks="a text of the grammar is refused",
  main='''
use scilla_parser::*;
fn main() {
    assert!("scilla_version 0 library L let a = None {} contract C ()".parse::<Contract>().is_ok());
}
''')
