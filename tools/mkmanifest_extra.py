def extra(prop, NA, c):
    T = "contract-based deductive verification (Verus)"
    AC = "the converter's answers are a function of the history of calls (any deterministic or scripted converter), and it does not answer Skip to a leave call"
    prop("C10", ["visit"], "proof", T,
         "Proved for every syntax tree and every converter: each visit function makes exactly the calls of the abstract traversal run(tree(node)) (enter, children in order, exit; a skip leaves out children and exit), and lemma_walk gives the order of calls when nothing is skipped.",
         "recorded calls of real traversals, node identity included, against a reference traversal, over parsed random and sample programs and scripted converters", [AC, c["EXTRACT"], c["STD"], c["STACK"]])
    prop("C11", ["visit"], "proof", T,
         "Proved for every syntax tree and every converter: a visit returns the error of the first failing callback and makes no callback after it but the closing of open positions; openings and closings balance (lemma_stops over the contracts of the visit functions).",
         "recorded calls of real traversals with a converter failing at each callback", [AC, c["EXTRACT"], c["STD"], c["STACK"]])
    RX = "the regex crate finds what a leftmost-first backtracking match of the pattern's syntax tree gives (tools/vx/src/re.rs parses the patterns of the source into that tree)"
    CH = "std's char classes and UTF-8 as stated by the axioms of contracts/lex.vx (classes on ASCII; white space is neither letter nor digit; bytes of non-ASCII characters are above 0x7f); Peekable<CharIndices> and Bytes step through the text; a str takes at most isize::MAX bytes"
    LX = "the extractor (tools/vx) keeps the meaning of the text it rewrites: for loops over iterators become loops over next(), string matches become chains of comparisons, string slices become vx_slice, the constants KEYWORD_* are inlined, the `_` arms of Lexer::next's two outer matches become functions of their own"
    LN = " The bounded part lexes random and sample texts with the real lexer and compares with an independent one."
    prop("C01", ["lex"], "proof", T,
         "Proved for every text and every state the lexer can reach: Lexer::next ends, answers None at the end and never an error, and yields the token and span the rules call for; lemma_progress, lemma_gap and lemma_order conclude that spans are in order, spell their tokens, and leave out only white space, complete comments and what an empty unknown token reports." + LN,
         "spans, order, spelling and gaps of the tokens of random and sample texts", [RX, CH, LX, c["STD"]])
    prop("C02", ["lex"], "proof", T,
         "Proved for every text: the token at each position is tok_at, the documented rules (keywords on whole words, longest name, sized byte string, number, hexadecimal number, string literal with escapes, operators); lemma_context: white space or a comment after a token does not change it. A string literal whose only closing quote is escaped is read with its backslashes as plain characters." + LN,
         "tokens of random and sample texts against an independent lexer", [RX, CH, LX, c["STD"]])
    prop("C03", ["lex"], "proof", T,
         "Proved for every text: the start and end of every token carry the number of line feeds before it and the byte column (line, col; lemma_col ties col to the last line feed), by the invariant of the lexer and the loop invariant of advance_to." + LN,
         "positions of tokens against counting line feeds", [RX, CH, LX, c["STD"]])
    prop("C14", ["lex"], "proof", T,
         "Proved for every token: String::from gives spell_of; lemma_relex: the text of a token that tok_at yields lexes as that token again (apart from names cut short by a letter outside ASCII and string literals whose only closing quote is escaped)." + LN,
         "String::from of every token of random texts, and lexing it again", [RX, CH, LX, c["STD"]])
    prop("C04", ["lex", "emit", "gram"], "proof", T,
         "Proved for every text and every syntax tree: the lexer, the actions of the grammar, the visit functions with the emitter, and the conversions have no failing index, slice, unwrap, overflow or endless loop (safety and termination obligations of the units lex, gram and emit). LALRPOP's automaton is assumed not to panic." + LN,
         "parsing random, mutated and sample texts, and texts of random bytes", [RX, CH, LX, c["STD"], c["EXTRACT"], c["LALR"], c["STACK"]])
    prop("C09", ["disp"], "proof", T,
         "Proved for every value of Type, at any depth: the text that Display writes is show(type), the Scilla notation. That parsing the notation gives the type back is NOT proved: it is a bounded check (random types up to a stated depth put through the real parser at a field declaration).",
         "printed types of parsed programs against an independent printer, and each of them parsed again at a field declaration", [c["STD"], c["EXTRACT"], c["LALR"]])
    prop("C15", ["api"], "proof", T,
         "Proved for every text, every content of a file and every failure to read it: Contract::from_str answers what the parser and the emitter make of the text (result_of), Contract::parse answers the same of the file's text, and the reading error, wrapped in Error::IoError, when there is no text to read. What the parser and emitter make of a text is a function of the text (no state is shared between calls).",
         "files of random programs and bytes, missing files, directories, odd names, parsed both ways by the real code", ["std::fs::read_to_string and its kin answer as the contracts of contracts/api.vx say; `#[from]` of thiserror wraps the value; Debug texts are a function of the value", "the generated parser and the emitter are functions of their argument", c["STACK"]])
    GX = "the reader of the grammar (tools/vx/src/lalr.rs) takes the LALRPOP notation as LALRPOP does: selected symbols, X? X* X+, @L and @R, `=>?`; for loops that push every element become vx_extend, to_vec and collect become copies; what an action refuses with is dropped"
    GA = "LALRPOP's automaton accepts exactly the token sequences the grammar derives and runs the actions of such a derivation bottom-up, each on the values of its own contiguous segment of tokens; @L is the start of the next token, @R the end of the last one"
    prop("C12", ["gram", "text"], "proof", T,
         "Proved for every production of the grammar and all values of its symbols: if the parts stand for their segments of the token sequence (sem_Y), the value the action builds stands for the whole segment (sem_X, the documented form with the tree it gives: every part, once, in order, at its own place). By induction over the derivation the tree of an accepted program stands for its token sequence.",
         "the tree of random and sample programs against an independent recursive-descent parser, and written out against the token sequence", [GA, GX, c["STD"], c["STACK"]])
    prop("C13", ["gram", "lex"], "proof", T,
         "Proved for every production: if the positioned nodes of the parts span their tokens, so does the one the action builds (start of the first token, end of the last), its children lie within it and siblings follow one another (span_X, in_N). Positions of tokens are those of the text by the unit lex (C03). The empty type name an AddressType without one carries is exempt; statements, which carry no position of their own, are asked to lie within their block only.",
         "positions of every node of random and sample programs against an independent parser", [GA, GX, RX, CH, LX, c["STD"], c["STACK"]])
    prop("C17", ["lang", "gram"], "proof", T,
         "Proved for all token sequences: a segment is derived by a nonterminal of the grammar as it stands in the source (der_X, read from parser.lalrpop on every run; an action that may refuse has to be proved not to) exactly when the documented grammar derives it (doc_X), for all 59 nonterminals, Program among them.",
         "accepted or rejected: random programs, their mutations, and sample texts against an independent recursive-descent parser", [GA, GX, "what the tokens of a text are is C02's matter"])
