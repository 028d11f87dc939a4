#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
P = []
def p(id, title, statement, qtext, why, files, mech, observe, over=("inputs",), state=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": list(over), "text": qtext},
      "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": observe, "hook_needed": None}})

LEX = "src/parser/lexer.rs"; GRAM = "src/parser/parser.lalrpop"; EM = "src/simplified_representation/emitter.rs"
PR = "src/simplified_representation/primitives.rs"; TY = "src/type.rs"; VI = "src/ast/visitor.rs"; ND = "src/ast/nodes.rs"
CO = "src/contract.rs"; FI = "src/field.rs"; TR = "src/transition.rs"; CV = "src/ast/converting.rs"; ER = "src/error.rs"

p("C01", "Tokenising is total and loses no text",
  "For every UTF-8 text the lexer terminates without panicking and without an error item, and the tokens it yields have spans (byte offsets) that lie inside the text on character boundaries, are in document order and never overlap. The text of a span spells its token (a token that carries text carries exactly the text of its span, any other is the fixed spelling of its kind), and the text that no span covers is only whitespace, complete (* ... *) comments, or an offending character (or an unterminated comment) that an unknown token with an empty span reports at its offset.",
  "all texts, every token of each",
  "The tests lex a few dozen ASCII contracts through the parser; nothing looks at spans, at non-ASCII text, or at unterminated comments and literals.",
  [LEX], [("Lexer::next", LEX), ("Lexer::new", LEX), ("SourcePosition::with_end", LEX)], ["Lexer iterator items"])
p("C02", "Each token gets the kind its text calls for",
  "At each position the lexer takes the documented token: a keyword (forall, builtin, library, import, let, in, match, with, end, fun, tfun, contract, transition, send, field, accept, exists, delete, throw, Map, scilla_version, type, of, as, procedure, Emp, event, Event, ByStr) only when the whole word is that keyword, otherwise the longest name, sized byte string type (ByStr followed by digits only), integer, hexadecimal number, string literal or operator that matches there, where two-character operators win over one-character ones. A name is lower-case-initial (identifier), upper-case-initial (custom), underscore-initial (special) or quote-initial (type variable), a lone underscore is its own token, and a string literal runs to its closing quote with backslash escapes honoured. White space and comments never change the tokens around them.",
  "all texts, every token position",
  "Keywords next to names, names that start with a keyword or with ByStr20, digits after ByStr, escapes in strings, hexadecimal against decimal: the combinations are unbounded and the tests reach only those in their sample contracts.",
  [LEX], [("Lexer::next", LEX), ("the regular expressions in Lexer::next", LEX)], ["Lexer iterator items"])
p("C03", "Token positions carry the right line and column",
  "For every text and every token the start and the end position report, besides the byte offset, the zero-based line (the number of line feeds before that offset) and the zero-based byte column (the offset minus the offset just after the last line feed before it). This holds after multi-line comments, multi-line string literals, non-ASCII text and consecutive empty lines alike.",
  "all texts, both ends of every token",
  "No test reads a line or a column, and the bookkeeping carries state from one token to the next, so a drift only shows after some earlier construct.",
  [LEX], [("Lexer::advance_to", LEX), ("SourcePosition::with_end", LEX), ("Lexer::next", LEX)], ["Lexer iterator items", "start/end of AST nodes"],
  state=[("line, character, last_position", "position up to which lines were counted", LEX)])
p("C04", "No text makes parsing panic",
  "Parsing any text, well-formed or not, as a contract returns either a contract or an error value; it never panics, overflows or loops forever, as long as the nesting of the text fits the thread's stack.",
  "all texts (nesting bounded by the stack)",
  "The tests parse well-formed contracts; every malformed text, and every well-formed one with a construct the samples lack, is untested.",
  [LEX, GRAM, EM, VI, TY, CO], [("Contract::from_str", CO), ("SrEmitter::emit and its callbacks", EM), ("visit functions", VI), ("Lexer::next", LEX)], ["result of parsing a text"])
p("C05", "Contract name and deployment parameters are as declared",
  "When parsing succeeds, the contract's name is the name after the keyword contract, and its deployment parameters are exactly the parameters declared in the parentheses after it: same number, same order, same names, and each with the type its declaration denotes.",
  "all well-formed programs",
  "The tests compare a few sample contracts; parameter lists, types and surrounding constructs vary without bound.",
  [EM, GRAM, VI], [("emit_contract_definition", EM), ("emit_component_parameters", EM), ("emit_parameter_pair, emit_typed_identifier", EM)], ["Contract.name", "Contract.init_params"], over=("programs",))
p("C06", "Contract fields are as declared",
  "When parsing succeeds, the contract's fields are exactly the declared mutable fields: same number, same order, same names, and each with the type its declaration denotes, whatever the initialising expressions, the constraint and the components contain.",
  "all well-formed programs",
  "The tests compare a few sample contracts; the number of fields, their types and initialisers vary without bound.",
  [EM, GRAM, VI], [("emit_contract_field", EM), ("emit_contract_definition", EM)], ["Contract.fields"], over=("programs",))
p("C07", "Transitions are as declared",
  "When parsing succeeds, the contract's transitions are exactly the declared transitions (procedures never appear), in order and with their names, and each has exactly its own declared parameters in order, with names and the types their declarations denote. Parameters and bodies of other components never leak into a transition.",
  "all well-formed programs",
  "The tests compare a few sample contracts; the interleavings of transitions and procedures and their parameter lists vary without bound.",
  [EM, GRAM, VI], [("emit_transition_definition", EM), ("emit_procedure_definition", EM), ("emit_component_parameters", EM)], ["Contract.transitions"], over=("programs",))
p("C08", "A declared type becomes the type it denotes",
  "A type written at an interface position is reported as the type it denotes, at any nesting depth and with any redundant parentheses: integers, String, BNum, Bool, ByStr, ByStr20 and ByStrN with their size, Option, List, Pair and Map with all their arguments in order, and ByStr20 with ... end with its kind (contract, library, ...) and every field in order. A user-defined (or wrongly applied built-in) type is reported by its name, qualified names included; function types, polymorphic types and type variables, which have no representation, make parsing fail with an error.",
  "all type expressions, at every interface position",
  "Types nest without bound and each of the places of the grammar where a type may stand builds it in a different way; the tests sample a few shallow types.",
  [EM, PR, TY, GRAM], [("emit_scilla_type, emit_type_argument, emit_type_map_key, emit_type_map_value, emit_address_type, ...", EM), ("impl From<SrType> for Type", TY), ("SrType::push_sub_type", PR)], ["Field.type"], over=("programs",))
p("C09", "Printing a type gives its Scilla notation",
  "Printing a type gives its Scilla notation: the plain name of a simple type, ByStr with its size, parenthesised applications of Map, Option, List and Pair with the arguments in order, and (ByStr20 with ... end) with its kind and its comma-separated typed fields. Parsing that notation at a field declaration gives back an equal type, for every type that parsing itself can produce.",
  "all values of the type, at any nesting depth",
  "The tests print two types; nesting is unbounded and map, address and sized byte string types are not printed at all.",
  [TY, EM, LEX], [("impl Display for Type", TY), ("impl From<SrType> for Type", TY)], ["Type::to_string", "Contract::from_str"])
p("C10", "Traversal visits the tree in document order, enter before exit",
  "Visiting a syntax tree node calls the converter once on entering the node, then visits each visited child exactly once and in document order, then calls the converter on leaving the node, and every call gets the node itself. When the converter answers on entering that the children are to be skipped, neither the children are visited nor is the leave call made for that node, and the traversal goes on with the next sibling.",
  "all syntax trees and all converters (whatever they answer, except a skip on leaving)",
  "The only converter in the tests skips most of the tree; most node kinds are never visited at all.",
  [VI, CV, ND], [("impl AstVisitor for each node", VI)], ["calls a converter receives"], over=("programs", "histories"))
p("C11", "A converter's error stops the traversal and is reported",
  "When a converter's callback reports an error, the traversal makes no further callback except closing the source positions that are open, and the visit returns that same error; when no callback fails, the visit succeeds. The converter is told the start and the end of each positioned node before the callbacks for that node, and that it is closed after them, so that openings and closings are balanced on success and on error alike.",
  "all syntax trees, all converters and every callback at which they may fail",
  "The tests contain no failing converter and none that looks at source positions.",
  [VI, CV], [("impl AstVisitor for WithMetaData", VI), ("impl AstVisitor for each node", VI)], ["calls a converter receives", "result of visit"], over=("programs", "histories", "fault_sequences"))
p("C12", "The syntax tree is faithful to the program text",
  "When the parser accepts a program, the tree contains every part of it, each once, in order and at its own place: writing the tree out in Scilla notation gives back the token sequence of the program (white space, comments and redundant separators aside). Nothing the tree holds comes from elsewhere.",
  "all accepted programs",
  "The parser tests only check that some texts are accepted; almost no test compares a tree with what was written.",
  [GRAM, ND], [("actions of the grammar rules", GRAM)], ["NodeProgram returned by ProgramParser"], over=("programs",))
p("C13", "Every syntax tree node knows where it was written",
  "The start position of every positioned node of the tree is the start of the first token of the text it was built from and its end position is the end of the last one, lines and columns included. A node therefore encloses its children, and siblings do not overlap.",
  "all accepted programs, every positioned node (empty constructs excepted)",
  "No test looks at the position of a node.",
  [GRAM, ND, LEX], [("@L and @R in the grammar rules", GRAM)], ["start and end of AST nodes"], over=("programs",))
p("C14", "A token converts to the text it stands for",
  "Converting a token to a string gives the text it was lexed from: the fixed spelling for keywords and operators and the carried text for all others, so that lexing the result alone yields that token again. White space converts to one blank.",
  "all tokens",
  "The conversion is used only in a few grammar actions; the tests never look at the result.",
  [LEX], [("impl From<Token<S>> for String", LEX)], ["String::from(token)"])
p("C15", "Parsing a file is parsing its contents",
  "Parsing a contract from a path gives exactly what parsing the contents of that file as a string gives, contract or error. When the file cannot be read or is not UTF-8, the I/O error is returned as an error, and nothing panics.",
  "all file contents and failures to read",
  "The tests read a few existing well-formed files and never compare the two entry points or make reading fail.",
  [CO, ER], [("Contract::parse", CO), ("Contract::from_str", CO), ("Error", ER)], ["Contract::parse", "Contract::from_str"], over=("inputs", "fault_sequences"))
p("C16", "Only the contract's interface decides the result",
  "Two accepted programs whose contract names, deployment parameters, field declarations (name and type) and transition signatures agree parse to equal contracts. Comments, layout, the version number, imports, the library, the constraint, initialising expressions, component bodies and procedures make no difference, and parsing the same text twice gives equal results.",
  "all pairs of accepted programs that agree on the interface",
  "It relates pairs of programs; the tests look at single ones.",
  [EM, VI, GRAM, CO], [("SrEmitter::emit", EM), ("emit_full_expression, emit_procedure_definition, emit_value_literal", EM)], ["Contract equality"], over=("programs",))
p("C17", "Exactly the programs of the grammar are accepted",
  "A text is accepted as a program exactly when its tokens form a Scilla program according to the documented grammar: a version, optional imports and library, and one contract with parameters, constraint, fields and components, using the documented forms of types, expressions, patterns and statements. Every other text gives an error. The documented grammar is the notation in the comments above the rules, read together with the rule beside it; where a comment is looser than its rule, the rule counts (a match has at least one clause, True and False are constructor calls), and `import` may be repeated.",
  "all texts",
  "The tests show a few hundred accepted texts and almost no rejected one.",
  [GRAM], [("the grammar rules", GRAM)], ["Ok or Err of parsing"], over=("programs",))

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
