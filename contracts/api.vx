==== prelude
use vstd::string::*;
broadcast group vx_facts { axiom_nothing, }
#[verifier::external_body]
broadcast proof fn axiom_nothing(a: &str) ensures #[trigger] a@ == a@ { }

// ---- formatting, for the texts of error messages: a function of the value and the format ----
struct VxFmtError;
struct VxFormatter { buf: String }
impl VxFormatter {
    fn new() -> (r: Self) ensures r.buf@ == Seq::<char>::empty() { VxFormatter { buf: String::new() } }
    fn into_string(self) -> (r: String) ensures r@ == self.buf@ { self.buf }
    #[verifier::external_body]
    fn write_str(&mut self, s: &str) -> (r: Result<(), VxFmtError>) ensures r is Ok, final(self).buf@ == old(self).buf@ + s@ { unimplemented!() }
}
uninterp spec fn display_text<T>(x: T) -> Seq<char>;
uninterp spec fn debug_text<T>(x: T) -> Seq<char>;
trait VxFmt {
    fn fmt(&self, f: &mut VxFormatter) -> (r: Result<(), VxFmtError>)
        ensures r is Ok;
}
impl<T> VxFmt for T {
    #[verifier::external_body]
    fn fmt(&self, f: &mut VxFormatter) -> (r: Result<(), VxFmtError>)
        ensures final(f).buf@ == old(f).buf@ + display_text(*self)
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_fmt_opaque<T>(x: &T, f: &mut VxFormatter) -> (r: Result<(), VxFmtError>)
    ensures r is Ok, final(f).buf@ == old(f).buf@ + debug_text(*x)
{ unimplemented!() }

// ---- the outside world ----
#[verifier::external_body]
struct VxIoError { }
#[verifier::external_body]
struct FromUtf8Error { }
#[verifier::external_body]
struct Path { }
// What is in the file at the moment of the call; what reading it answers.
uninterp spec fn file_bytes(p: Path) -> Result<Seq<u8>, VxIoError>;
uninterp spec fn utf8(b: Seq<u8>) -> Option<Seq<char>>;
uninterp spec fn utf8_error(b: Seq<u8>) -> FromUtf8Error;
uninterp spec fn not_utf8() -> VxIoError;
spec fn file_text(p: Path) -> Result<Seq<char>, VxIoError> {
    match file_bytes(p) {
        Err(e) => Err(e),
        Ok(b) => match utf8(b) { Some(t) => Ok(t), None => Err(not_utf8()) },
    }
}
#[verifier::external_body]
fn read_to_string(p: &Path) -> (r: Result<String, VxIoError>)
    ensures
        file_text(*p) is Ok ==> r is Ok && r->Ok_0@ == file_text(*p)->Ok_0,
        file_text(*p) is Err ==> r is Err && r->Err_0 == file_text(*p)->Err_0,
{ unimplemented!() }
#[verifier::external_body]
fn read(p: &Path) -> (r: Result<Vec<u8>, VxIoError>)
    ensures
        file_bytes(*p) is Ok ==> r is Ok && r->Ok_0@ == file_bytes(*p)->Ok_0,
        file_bytes(*p) is Err ==> r is Err && r->Err_0 == file_bytes(*p)->Err_0,
{ unimplemented!() }
// What else code might do with the text; of most of it nothing is known.
uninterp spec fn edited(name: Seq<char>, t: Seq<char>) -> Seq<char>;
trait VxEdit {
    spec fn t_of(&self) -> Seq<char>;
    #[verifier::external_body]
    fn vx_trim(&self) -> (r: &str) ensures r@ == edited("trim"@, self.t_of()) { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim_start(&self) -> (r: &str) ensures r@ == edited("trim_start"@, self.t_of()) { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim_end(&self) -> (r: &str) ensures r@ == edited("trim_end"@, self.t_of()) { unimplemented!() }
    #[verifier::external_body]
    fn vx_lowercase(&self) -> (r: String) ensures r@ == edited("lower"@, self.t_of()) { unimplemented!() }
    #[verifier::external_body]
    fn vx_replace<A, B>(&self, a: A, b: B) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim_matches<A>(&self, a: A) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_strip<A>(&self, a: A) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_is_empty(&self) -> (r: bool) ensures r == (self.t_of().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) ensures r@ == self.t_of() { unimplemented!() }
    #[verifier::external_body]
    fn vx_into_owned(&self) -> (r: String) ensures r@ == self.t_of() { unimplemented!() }
    #[verifier::external_body]
    fn vx_as_str(&self) -> (r: &str) ensures r@ == self.t_of() { unimplemented!() }
}
impl VxEdit for str { spec fn t_of(&self) -> Seq<char> { self@ } }
impl VxEdit for String { spec fn t_of(&self) -> Seq<char> { self@ } }
trait VxDecode: Sized {
    fn vx_from_utf8(b: Vec<u8>) -> (r: Result<String, FromUtf8Error>)
        ensures
            utf8(b@) is Some ==> r is Ok && r->Ok_0@ == utf8(b@)->0,
            utf8(b@) is None ==> r is Err && r->Err_0 == utf8_error(b@);
    fn vx_lossy(b: &Vec<u8>) -> (r: String)
        ensures utf8(b@) is Some ==> r@ == utf8(b@)->0;
}
impl VxDecode for String {
    #[verifier::external_body]
    fn vx_from_utf8(b: Vec<u8>) -> (r: Result<String, FromUtf8Error>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_lossy(b: &Vec<u8>) -> (r: String) { unimplemented!() }
}

// ---- the parser and the emitter (units lex, gram and emit) ----
#[verifier::external_body]
struct NodeProgram { }
#[verifier::external_body]
struct VxLexError { }
#[verifier::external_body]
struct VxSyntaxError { }
struct ParseError<L, T, E> { l: L, t: T, e: E }
type VxParseError = ParseError<VxSyntaxError, VxSyntaxError, VxSyntaxError>;
#[verifier::external_body]
struct Lexer<'input> { t: &'input str }
uninterp spec fn lexed(l: Lexer) -> Seq<char>;
impl<'input> Lexer<'input> {
    #[verifier::external_body]
    fn new(t: &'input str) -> (r: Lexer<'input>) ensures lexed(r) == t@ { unimplemented!() }
}
// What the generated parser makes of a text.
uninterp spec fn program_of(t: Seq<char>) -> Result<NodeProgram, VxParseError>;
struct ProgramParser { }
impl ProgramParser {
    fn new() -> ProgramParser { ProgramParser { } }
    #[verifier::external_body]
    fn vx_parse(&self, errors: &mut Vec<VxLexError>, l: Lexer) -> (r: Result<NodeProgram, VxParseError>)
        ensures r == program_of(lexed(l))
    { unimplemented!() }
}
#[verifier::external_body]
struct SrEmitter { }
uninterp spec fn fresh(e: SrEmitter) -> bool;
// What a fresh emitter makes of a tree: the contract of SrEmitter::emit in unit emit.
uninterp spec fn emitted(p: NodeProgram) -> Result<Contract, Seq<char>>;
impl SrEmitter {
    #[verifier::external_body]
    fn default() -> (r: SrEmitter) ensures fresh(r) { unimplemented!() }
    #[verifier::external_body]
    fn emit(self, p: &NodeProgram) -> (r: Result<Contract, String>)
        requires fresh(self),
        ensures
            emitted(*p) is Ok ==> r is Ok && r->Ok_0 == emitted(*p)->Ok_0,
            emitted(*p) is Err ==> r is Err && r->Err_0@ == emitted(*p)->Err_0,
    { unimplemented!() }
}
#[verifier::external_body]
struct FieldList { }
#[verifier::external_body]
struct TransitionList { }

// ---- conversions of errors ----
trait VxFrom<T>: Sized {
    spec fn from_ok(v: T, r: Self) -> bool;
    fn vx_from(value: T) -> (r: Self) ensures Self::from_ok(value, r);
}
impl VxFrom<Error> for Error {
    spec fn from_ok(v: Error, r: Error) -> bool { r == v }
    fn vx_from(value: Error) -> (r: Error) { value }
}
fn vx_from<T, U: VxFrom<T>>(value: T) -> (r: U) ensures U::from_ok(value, r) { U::vx_from(value) }
trait VxInto<U>: Sized {
    spec fn into_ok(v: Self, r: U) -> bool;
    fn vx_into(self) -> (r: U) ensures Self::into_ok(self, r);
}
impl<T, U: VxFrom<T>> VxInto<U> for T {
    spec fn into_ok(v: T, r: U) -> bool { U::from_ok(v, r) }
    fn vx_into(self) -> (r: U) { U::vx_from(self) }
}
// An error of the syntax, as the crate reports it.
spec fn syntax_error<P>(v: P, r: Error) -> bool {
    r matches Error::ParseError(m) && m@ == debug_text(v)
}

// ---- what parsing a text gives ----
spec fn result_of(t: Seq<char>, r: Result<Contract, Error>) -> bool {
    match program_of(t) {
        Err(e) => r matches Err(x) && syntax_error(e, x),
        Ok(p) => match emitted(p) {
            Err(m) => r matches Err(Error::ParseError(s)) && s@ == m,
            Ok(c) => r == Ok::<Contract, Error>(c),
        },
    }
}
trait VxFromStr: Sized {
    type Err;
    spec fn parsed(t: Seq<char>, r: Result<Self, Self::Err>) -> bool;
    fn of_str(s: &str) -> (r: Result<Self, Self::Err>) ensures Self::parsed(s@, r);
}
trait VxStr {
    spec fn chars_of(&self) -> Seq<char>;
    fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, T::Err>) ensures T::parsed(self.chars_of(), r);
}
impl VxStr for str {
    spec fn chars_of(&self) -> Seq<char> { self@ }
    fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, T::Err>) { T::of_str(self) }
}
impl VxStr for String {
    spec fn chars_of(&self) -> Seq<char> { self@ }
    fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, T::Err>) { T::of_str(self.as_str()) }
}
==== text from_parse_error
spec fn from_ok(v: ParseError<L, T, E>, r: Error) -> bool { syntax_error(v, r) }
==== text from_str
impl VxFromStr for Contract {
    type Err = Error;
    spec fn parsed(t: Seq<char>, r: Result<Contract, Error>) -> bool { result_of(t, r) }
    fn of_str(s: &str) -> (r: Result<Contract, Error>) { Contract::from_str(s) }
}
==== fn Error::from
props C15
==== fn Contract::from_str
props C15 C05 C06 C07 C08 C17
ret r
ensures result_of($1@, r)
==== fn Contract::parse
props C15
ret r
ensures
    file_text(*$1) is Ok ==> result_of(file_text(*$1)->Ok_0, r),
    file_text(*$1) is Err ==> (r matches Err(Error::IoError(e)) && e == file_text(*$1)->Err_0),
