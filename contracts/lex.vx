==== prelude
// ============================================================ characters and byte offsets

// Unicode's classes, known here on ASCII only.
uninterp spec fn alnum(c: char) -> bool;
uninterp spec fn alphabetic(c: char) -> bool;
uninterp spec fn numeric(c: char) -> bool;
uninterp spec fn white(c: char) -> bool;
#[verifier::external_body]
broadcast proof fn axiom_alnum(c: char)
    ensures c < '\u{80}' ==> (#[trigger] alnum(c) == ('a' <= c <= 'z' || 'A' <= c <= 'Z' || '0' <= c <= '9')),
{ }
#[verifier::external_body]
broadcast proof fn axiom_numeric(c: char)
    ensures c < '\u{80}' ==> (#[trigger] numeric(c) == ('0' <= c <= '9')),
{ }
#[verifier::external_body]
broadcast proof fn axiom_white(c: char)
    ensures c < '\u{80}' ==> (#[trigger] white(c) == (c == ' ' || '\u{9}' <= c <= '\u{d}')),
{ }
trait VxChar {
    spec fn ch(&self) -> char;
    fn vx_is_alphanumeric(&self) -> (r: bool) ensures r == alnum(self.ch());
    fn vx_is_alphabetic(&self) -> (r: bool) ensures r == alphabetic(self.ch());
    fn vx_is_numeric(&self) -> (r: bool) ensures r == numeric(self.ch());
    fn vx_is_whitespace(&self) -> (r: bool) ensures r == white(self.ch());
    fn vx_len_utf8(&self) -> (r: usize) ensures r == blen(self.ch());
}
impl VxChar for char {
    spec fn ch(&self) -> char { *self }
    #[verifier::external_body]
    fn vx_is_alphanumeric(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_is_alphabetic(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_is_numeric(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_is_whitespace(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_len_utf8(&self) -> (r: usize) { unimplemented!() }
}

spec fn blen(c: char) -> nat { if c < '\u{80}' { 1 } else if c < '\u{800}' { 2 } else if c < '\u{10000}' { 3 } else { 4 } }
// The byte offset of character i.
spec fn off(t: Seq<char>, i: int) -> nat decreases i {
    if i <= 0 { 0 } else { off(t, i - 1) + blen(t[i - 1]) }
}
#[verifier::opaque]
spec fn boundary(t: Seq<char>, b: int) -> bool { exists|i: int| 0 <= i <= t.len() && #[trigger] off(t, i) == b }
// The character at a byte offset.
#[verifier::opaque]
spec fn idx(t: Seq<char>, b: int) -> int { choose|i: int| 0 <= i <= t.len() && #[trigger] off(t, i) == b }

proof fn lemma_off_mono(t: Seq<char>, i: int, j: int)
    requires 0 <= i <= j
    ensures off(t, i) + (j - i) <= off(t, j), i < j ==> off(t, i) < off(t, j)
    decreases j - i
{
    if i < j { lemma_off_mono(t, i, j - 1); }
}
broadcast proof fn lemma_idx_off(t: Seq<char>, i: int)
    requires 0 <= i <= t.len()
    ensures idx(t, #[trigger] off(t, i) as int) == i, boundary(t, off(t, i) as int)
{
    reveal(boundary);
    reveal(idx);
    let b = off(t, i) as int;
    let k = idx(t, b);
    assert(0 <= k <= t.len() && off(t, k) == b);
    if k < i { lemma_off_mono(t, k, i); }
    if i < k { lemma_off_mono(t, i, k); }
}
broadcast proof fn lemma_boundary(t: Seq<char>, b: int)
    requires #[trigger] boundary(t, b)
    ensures 0 <= idx(t, b) <= t.len(), off(t, idx(t, b)) == b
{
    reveal(boundary);
    reveal(idx);
}
proof fn lemma_off_shift(t: Seq<char>, i: int, n: int)
    requires 0 <= i, 0 <= n, i + n <= t.len()
    ensures off(t, i + n) == off(t, i) + off(t.subrange(i, t.len() as int), n)
    decreases n
{
    if n > 0 { lemma_off_shift(t, i, n - 1); }
}
proof fn lemma_off_ascii(t: Seq<char>, n: int)
    requires 0 <= n <= t.len(), forall|k: int| 0 <= k < n ==> #[trigger] t[k] < '\u{80}'
    ensures off(t, n) == n
    decreases n
{
    if n > 0 { lemma_off_ascii(t, n - 1); }
}
// A string takes up at most isize::MAX bytes.
#[verifier::external_body]
broadcast proof fn axiom_str_bound(s: &str)
    ensures #[trigger] off(s@, s@.len() as int) <= isize::MAX,
{ }
proof fn lemma_bound(s: &str, i: int)
    requires 0 <= i <= s@.len()
    ensures off(s@, i) <= isize::MAX, i <= isize::MAX
{
    axiom_str_bound(s);
    lemma_off_mono(s@, i, s@.len() as int);
    lemma_off_mono(s@, 0, i);
}

// ============================================================ lines and columns

// The number of line feeds before character i, and the byte column of character i.
spec fn line(t: Seq<char>, i: int) -> nat decreases i {
    if i <= 0 { 0 } else if t[i - 1] == '\n' { line(t, i - 1) + 1 } else { line(t, i - 1) }
}
spec fn col(t: Seq<char>, i: int) -> nat decreases i {
    if i <= 0 { 0 } else if t[i - 1] == '\n' { 0 } else { col(t, i - 1) + blen(t[i - 1]) }
}
spec fn pos(t: Seq<char>, i: int) -> SourcePosition {
    SourcePosition { position: off(t, i) as usize, line: line(t, i) as usize, column: col(t, i) as usize }
}
// C03 in the words of the property: the column is the offset minus the offset just after the last line feed.
spec fn last_lf(t: Seq<char>, i: int) -> int decreases i {
    if i <= 0 { 0 } else if t[i - 1] == '\n' { i } else { last_lf(t, i - 1) }
}
proof fn lemma_col(t: Seq<char>, i: int)
    requires 0 <= i
    ensures
        0 <= last_lf(t, i) <= i,
        last_lf(t, i) > 0 ==> t[last_lf(t, i) - 1] == '\n',
        forall|k: int| last_lf(t, i) <= k < i ==> t[k] != '\n',
        col(t, i) == off(t, i) - off(t, last_lf(t, i)),
        line(t, i) <= i, i <= off(t, i), col(t, i) <= off(t, i),
    decreases i
{
    if i > 0 { lemma_col(t, i - 1); }
}
proof fn lemma_same_line(t: Seq<char>, i: int, j: int)
    requires 0 <= i <= j, forall|k: int| i <= k < j ==> t[k] != '\n'
    ensures line(t, j) == line(t, i), col(t, j) == col(t, i) + off(t, j) - off(t, i)
    decreases j - i
{
    if i < j { lemma_same_line(t, i, j - 1); }
}

// ============================================================ bytes

uninterp spec fn enc(c: char) -> Seq<u8>;
#[verifier::external_body]
broadcast proof fn axiom_enc(c: char)
    ensures
        (#[trigger] enc(c)).len() == blen(c),
        c < '\u{80}' ==> enc(c)[0] == c as u8,
        c >= '\u{80}' ==> forall|k: int| 0 <= k < blen(c) ==> #[trigger] enc(c)[k] >= 0x80,
{ }
spec fn utf8(s: Seq<char>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { utf8(s.drop_last()) + enc(s.last()) }
}
// Counting lines and columns over bytes.
spec fn bline(b: Seq<u8>, l: nat) -> nat decreases b.len() {
    if b.len() == 0 { l } else if b.last() == 10 { bline(b.drop_last(), l) + 1 } else { bline(b.drop_last(), l) }
}
spec fn bcol(b: Seq<u8>, c: nat) -> nat decreases b.len() {
    if b.len() == 0 { c } else if b.last() == 10 { 0 } else { bcol(b.drop_last(), c) + 1 }
}
proof fn lemma_bytes_high(a: Seq<u8>, e: Seq<u8>, l: nat, c: nat)
    requires forall|k: int| 0 <= k < e.len() ==> #[trigger] e[k] != 10
    ensures bline(a + e, l) == bline(a, l), bcol(a + e, c) == bcol(a, c) + e.len()
    decreases e.len()
{
    if e.len() == 0 {
        assert(a + e =~= a);
    } else {
        assert((a + e).drop_last() =~= a + e.drop_last());
        lemma_bytes_high(a, e.drop_last(), l, c);
    }
}
proof fn lemma_bytes(t: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= t.len()
    ensures
        bline(utf8(t.subrange(i, j)), line(t, i)) == line(t, j),
        bcol(utf8(t.subrange(i, j)), col(t, i)) == col(t, j),
        utf8(t.subrange(i, j)).len() == off(t, j) - off(t, i),
    decreases j - i
{
    broadcast use axiom_enc;
    if i < j {
        let s = t.subrange(i, j);
        lemma_bytes(t, i, j - 1);
        assert(s.drop_last() =~= t.subrange(i, j - 1));
        let a = utf8(s.drop_last());
        let e = enc(s.last());
        if s.last() == '\n' {
            assert((a + e).drop_last() =~= a);
            assert((a + e).last() == 10);
        } else {
            if s.last() < '\u{80}' { assert(e[0] == s.last() as u8); }
            lemma_bytes_high(a, e, line(t, i), col(t, i));
        }
    }
}
proof fn lemma_bline_bound(b: Seq<u8>, l: nat, c: nat)
    ensures bline(b, l) <= l + b.len(), bcol(b, c) <= c + b.len()
    decreases b.len()
{
    if b.len() > 0 { lemma_bline_bound(b.drop_last(), l, c); }
}

// ============================================================ strings, iterators

#[verifier::external_body]
fn vx_slice<'a>(s: &'a str, lo: usize, hi: usize) -> (r: &'a str)
    requires boundary(s@, lo as int), boundary(s@, hi as int), lo <= hi
    ensures r@ == s@.subrange(idx(s@, lo as int), idx(s@, hi as int))
{ unimplemented!() }
#[verifier::external_body]
fn vx_slice_from<'a>(s: &'a str, lo: usize) -> (r: &'a str)
    requires boundary(s@, lo as int)
    ensures r@ == s@.subrange(idx(s@, lo as int), s@.len() as int)
{ unimplemented!() }
#[verifier::external_body]
fn vx_str_eq(a: &str, b: &str) -> (r: bool)
    ensures r == (a@ == b@)
{ unimplemented!() }
#[verifier::external_body]
fn vx_char_count(s: &str) -> (r: usize)
    ensures r == s@.len()
{ unimplemented!() }

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct VxPeekable<T> { it: T }
#[verifier::external_body]
struct VxCharIndices<'a> { s: &'a str }
#[verifier::external_body]
struct VxBytes<'a> { s: &'a str }
impl<'a> VxCharIndices<'a> {
    uninterp spec fn text(&self) -> Seq<char>;
    uninterp spec fn idx(&self) -> int;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<(usize, char)>)
        requires 0 <= old(self).idx() <= old(self).text().len()
        ensures
            final(self).text() == old(self).text(),
            old(self).idx() < old(self).text().len() ==> {
                &&& final(self).idx() == old(self).idx() + 1
                &&& off(old(self).text(), old(self).idx()) <= usize::MAX
                &&& r == Some((off(old(self).text(), old(self).idx()) as usize, old(self).text()[old(self).idx()]))
            },
            old(self).idx() == old(self).text().len() ==> r is None && final(self).idx() == old(self).idx(),
    { unimplemented!() }
    #[verifier::external_body]
    fn peekable(self) -> (r: VxPeekable<VxCharIndices<'a>>)
        ensures r.text() == self.text(), r.idx() == self.idx()
    { unimplemented!() }
}
impl<'a> VxPeekable<VxCharIndices<'a>> {
    uninterp spec fn text(&self) -> Seq<char>;
    uninterp spec fn idx(&self) -> int;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<(usize, char)>)
        requires 0 <= old(self).idx() <= old(self).text().len()
        ensures
            final(self).text() == old(self).text(),
            old(self).idx() < old(self).text().len() ==> {
                &&& final(self).idx() == old(self).idx() + 1
                &&& off(old(self).text(), old(self).idx()) <= usize::MAX
                &&& r == Some((off(old(self).text(), old(self).idx()) as usize, old(self).text()[old(self).idx()]))
            },
            old(self).idx() == old(self).text().len() ==> r is None && final(self).idx() == old(self).idx(),
    { unimplemented!() }
    #[verifier::external_body]
    fn peek(&mut self) -> (r: Option<&(usize, char)>)
        requires 0 <= old(self).idx() <= old(self).text().len()
        ensures
            final(self).text() == old(self).text(),
            final(self).idx() == old(self).idx(),
            old(self).idx() < old(self).text().len() ==> r is Some && off(old(self).text(), old(self).idx()) <= usize::MAX
                && *r->0 == (off(old(self).text(), old(self).idx()) as usize, old(self).text()[old(self).idx()]),
            old(self).idx() == old(self).text().len() ==> r is None,
    { unimplemented!() }
    // drops n items and takes one
    #[verifier::external_body]
    fn nth(&mut self, n: usize) -> (r: Option<(usize, char)>)
        requires 0 <= old(self).idx() <= old(self).text().len()
        ensures
            final(self).text() == old(self).text(),
            old(self).idx() + n < old(self).text().len() ==> {
                &&& final(self).idx() == old(self).idx() + n + 1
                &&& off(old(self).text(), old(self).idx() + n) <= usize::MAX
                &&& r == Some((off(old(self).text(), old(self).idx() + n) as usize, old(self).text()[old(self).idx() + n]))
            },
            old(self).idx() + n >= old(self).text().len() ==> r is None && final(self).idx() == old(self).text().len(),
    { unimplemented!() }
}
impl<'a> VxBytes<'a> {
    uninterp spec fn all(&self) -> Seq<u8>;
    uninterp spec fn idx(&self) -> int;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<u8>)
        requires 0 <= old(self).idx() <= old(self).all().len()
        ensures
            final(self).all() == old(self).all(),
            old(self).idx() < old(self).all().len() ==> final(self).idx() == old(self).idx() + 1 && r == Some(old(self).all()[old(self).idx()]),
            old(self).idx() == old(self).all().len() ==> r is None && final(self).idx() == old(self).idx(),
    { unimplemented!() }
}
trait VxStrIter {
    spec fn seq(&self) -> Seq<char>;
    fn vx_char_indices(&self) -> (r: VxCharIndices<'_>) ensures r.text() == self.seq(), r.idx() == 0;
    fn vx_bytes(&self) -> (r: VxBytes<'_>) ensures r.all() == utf8(self.seq()), r.idx() == 0;
}
impl VxStrIter for str {
    spec fn seq(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_char_indices(&self) -> (r: VxCharIndices<'_>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_bytes(&self) -> (r: VxBytes<'_>) { unimplemented!() }
}

// ============================================================ regular expressions

enum Cls { Nil, Or(char, char, Box<Cls>) }
enum Re {
    Empty,
    Class(bool, Cls),
    Seq(Box<Re>, Box<Re>),
    Alt(Box<Re>, Box<Re>),
    Star(Box<Re>),
    Opt(Box<Re>),
    End,
}
spec fn in_cls(c: Cls, x: char) -> bool decreases c {
    match c { Cls::Nil => false, Cls::Or(a, b, r) => a <= x <= b || in_cls(*r, x) }
}
// Where a match of `re` that starts at i may end, in the order a backtracking matcher prefers.
spec fn ends(re: Re, s: Seq<char>, i: int) -> Seq<int>
    decreases s.len() - i, re, 0nat
{
    if !(0 <= i <= s.len()) { Seq::empty() } else {
        match re {
            Re::Empty => seq![i],
            Re::Class(neg, c) => if i < s.len() && in_cls(c, s[i]) != neg { seq![i + 1] } else { Seq::empty() },
            Re::Seq(a, b) => ends_each(ends(*a, s, i), *b, s, i),
            Re::Alt(a, b) => ends(*a, s, i) + ends(*b, s, i),
            Re::Opt(a) => ends(*a, s, i).push(i),
            Re::Star(a) => ends_more(ends(*a, s, i), *a, s, i).push(i),
            Re::End => if i == s.len() { seq![i] } else { Seq::empty() },
        }
    }
}
spec fn ends_each(js: Seq<int>, b: Re, s: Seq<char>, i: int) -> Seq<int>
    decreases s.len() - i, b, js.len() + 1
{
    if js.len() == 0 || !(0 <= i <= s.len()) { Seq::empty() }
    else { (if i <= js[0] <= s.len() { ends(b, s, js[0]) } else { Seq::empty() }) + ends_each(js.drop_first(), b, s, i) }
}
spec fn ends_more(js: Seq<int>, a: Re, s: Seq<char>, i: int) -> Seq<int>
    decreases s.len() - i, a, js.len() + 1
{
    if js.len() == 0 || !(0 <= i <= s.len()) { Seq::empty() }
    else { (if i < js[0] <= s.len() { ends(Re::Star(Box::new(a)), s, js[0]) } else { Seq::empty() }) + ends_more(js.drop_first(), a, s, i) }
}
// What `find` gives for a pattern that starts with `^`.
spec fn re_find(re: Re, s: Seq<char>) -> Option<int> {
    let e = ends(re, s, 0);
    if e.len() > 0 { Some(e[0]) } else { None }
}

#[verifier::external_body]
struct VxRegex { p: String }
impl VxRegex {
    uninterp spec fn re(&self) -> Re;
    uninterp spec fn anchored(&self) -> bool;
    #[verifier::external_body]
    fn new(p: &str, anchored: Ghost<bool>, re: Ghost<Re>) -> (r: Option<VxRegex>)
        ensures r is Some, r->0.re() == re@, r->0.anchored() == anchored@
    { unimplemented!() }
    // a pattern without `^` may match anywhere: nothing is known of the result
    #[verifier::external_body]
    fn find(&self, s: &str) -> (r: Option<VxMatch>)
        ensures self.anchored() ==> match re_find(self.re(), s@) {
            Some(n) => r is Some && r->0.start_off() == 0 && r->0.end_off() == off(s@, n),
            None => r is None,
        }
    { unimplemented!() }
    #[verifier::external_body]
    fn is_match(&self, s: &str) -> (r: bool)
        ensures self.anchored() ==> r == (re_find(self.re(), s@) is Some)
    { unimplemented!() }
}
#[verifier::external_body]
struct VxMatch { a: usize, b: usize }
impl VxMatch {
    uninterp spec fn start_off(&self) -> nat;
    uninterp spec fn end_off(&self) -> nat;
    #[verifier::external_body]
    fn start(&self) -> (r: usize) ensures r == self.start_off() { unimplemented!() }
    #[verifier::external_body]
    fn end(&self) -> (r: usize) ensures r == self.end_off() { unimplemented!() }
}

// ============================================================ tokens (the documented lexical rules)

type VTok = Token<Seq<char>>;

// A token with the text it carries.
spec fn tv<'a>(x: Token<&'a str>) -> VTok {
    match x {
        Token::ByStrWithSize(s) => Token::ByStrWithSize(s@),
        Token::Comment(s) => Token::Comment(s@),
        Token::Number(s) => Token::Number(s@),
        Token::HexNumber(s) => Token::HexNumber(s@),
        Token::Identifier(s) => Token::Identifier(s@),
        Token::TemplateIdentifier(s) => Token::TemplateIdentifier(s@),
        Token::CustomIdentifier(s) => Token::CustomIdentifier(s@),
        Token::SpecialIdentifier(s) => Token::SpecialIdentifier(s@),
        Token::TypeName(s) => Token::TypeName(s@),
        Token::StringLiteral(s) => Token::StringLiteral(s@),
        Token::Plus => Token::Plus,
        Token::Asterisk => Token::Asterisk,
        Token::Semicolon => Token::Semicolon,
        Token::Colon => Token::Colon,
        Token::Dot => Token::Dot,
        Token::Pipe => Token::Pipe,
        Token::OpenBracket => Token::OpenBracket,
        Token::CloseBracket => Token::CloseBracket,
        Token::OpenParen => Token::OpenParen,
        Token::CloseParen => Token::CloseParen,
        Token::OpenBrace => Token::OpenBrace,
        Token::CloseBrace => Token::CloseBrace,
        Token::Comma => Token::Comma,
        Token::Ampersand => Token::Ampersand,
        Token::At => Token::At,
        Token::Equals => Token::Equals,
        Token::DoubleArrow => Token::DoubleArrow,
        Token::Arrow => Token::Arrow,
        Token::LeftArrow => Token::LeftArrow,
        Token::ColonEquals => Token::ColonEquals,
        Token::Minus => Token::Minus,
        Token::Underscore => Token::Underscore,
        Token::Forall => Token::Forall,
        Token::Builtin => Token::Builtin,
        Token::Library => Token::Library,
        Token::Import => Token::Import,
        Token::Let => Token::Let,
        Token::In => Token::In,
        Token::Match => Token::Match,
        Token::With => Token::With,
        Token::End => Token::End,
        Token::Fun => Token::Fun,
        Token::Tfun => Token::Tfun,
        Token::Contract => Token::Contract,
        Token::Transition => Token::Transition,
        Token::Send => Token::Send,
        Token::Field => Token::Field,
        Token::Accept => Token::Accept,
        Token::Exists => Token::Exists,
        Token::Delete => Token::Delete,
        Token::Throw => Token::Throw,
        Token::Map => Token::Map,
        Token::ScillaVersion => Token::ScillaVersion,
        Token::Type => Token::Type,
        Token::Of => Token::Of,
        Token::As => Token::As,
        Token::Procedure => Token::Procedure,
        Token::Emp => Token::Emp,
        Token::Event => Token::Event,
        Token::EventType => Token::EventType,
        Token::ByStr => Token::ByStr,
        Token::Whitespace => Token::Whitespace,
        Token::Unknown => Token::Unknown,
    }
}
// The text a token stands for.
spec fn spell(x: VTok) -> Seq<char> {
    match x {
        Token::ByStrWithSize(s) => s,
        Token::Comment(s) => s,
        Token::Number(s) => s,
        Token::HexNumber(s) => s,
        Token::Identifier(s) => s,
        Token::TemplateIdentifier(s) => s,
        Token::CustomIdentifier(s) => s,
        Token::SpecialIdentifier(s) => s,
        Token::TypeName(s) => s,
        Token::StringLiteral(s) => s,
        Token::Plus => "+"@,
        Token::Asterisk => "*"@,
        Token::Semicolon => ";"@,
        Token::Colon => ":"@,
        Token::Dot => "."@,
        Token::Pipe => "|"@,
        Token::OpenBracket => "["@,
        Token::CloseBracket => "]"@,
        Token::OpenParen => "("@,
        Token::CloseParen => ")"@,
        Token::OpenBrace => "{"@,
        Token::CloseBrace => "}"@,
        Token::Comma => ","@,
        Token::Ampersand => "&"@,
        Token::At => "@"@,
        Token::Equals => "="@,
        Token::DoubleArrow => "=>"@,
        Token::Arrow => "->"@,
        Token::LeftArrow => "<-"@,
        Token::ColonEquals => ":="@,
        Token::Minus => "-"@,
        Token::Underscore => "_"@,
        Token::Forall => "forall"@,
        Token::Builtin => "builtin"@,
        Token::Library => "library"@,
        Token::Import => "import"@,
        Token::Let => "let"@,
        Token::In => "in"@,
        Token::Match => "match"@,
        Token::With => "with"@,
        Token::End => "end"@,
        Token::Fun => "fun"@,
        Token::Tfun => "tfun"@,
        Token::Contract => "contract"@,
        Token::Transition => "transition"@,
        Token::Send => "send"@,
        Token::Field => "field"@,
        Token::Accept => "accept"@,
        Token::Exists => "exists"@,
        Token::Delete => "delete"@,
        Token::Throw => "throw"@,
        Token::Map => "Map"@,
        Token::ScillaVersion => "scilla_version"@,
        Token::Type => "type"@,
        Token::Of => "of"@,
        Token::As => "as"@,
        Token::Procedure => "procedure"@,
        Token::Emp => "Emp"@,
        Token::Event => "event"@,
        Token::EventType => "Event"@,
        Token::ByStr => "ByStr"@,
        Token::Whitespace => " "@,
        Token::Unknown => "?"@,
    }
}
// The same for a token over any printable text.
spec fn spell_of<S: VxFmt>(x: Token<S>) -> Seq<char> {
    match x {
        Token::ByStrWithSize(s) => s.text(),
        Token::Comment(s) => s.text(),
        Token::Number(s) => s.text(),
        Token::HexNumber(s) => s.text(),
        Token::Identifier(s) => s.text(),
        Token::TemplateIdentifier(s) => s.text(),
        Token::CustomIdentifier(s) => s.text(),
        Token::SpecialIdentifier(s) => s.text(),
        Token::TypeName(s) => s.text(),
        Token::StringLiteral(s) => s.text(),
        Token::Plus => "+"@,
        Token::Asterisk => "*"@,
        Token::Semicolon => ";"@,
        Token::Colon => ":"@,
        Token::Dot => "."@,
        Token::Pipe => "|"@,
        Token::OpenBracket => "["@,
        Token::CloseBracket => "]"@,
        Token::OpenParen => "("@,
        Token::CloseParen => ")"@,
        Token::OpenBrace => "{"@,
        Token::CloseBrace => "}"@,
        Token::Comma => ","@,
        Token::Ampersand => "&"@,
        Token::At => "@"@,
        Token::Equals => "="@,
        Token::DoubleArrow => "=>"@,
        Token::Arrow => "->"@,
        Token::LeftArrow => "<-"@,
        Token::ColonEquals => ":="@,
        Token::Minus => "-"@,
        Token::Underscore => "_"@,
        Token::Forall => "forall"@,
        Token::Builtin => "builtin"@,
        Token::Library => "library"@,
        Token::Import => "import"@,
        Token::Let => "let"@,
        Token::In => "in"@,
        Token::Match => "match"@,
        Token::With => "with"@,
        Token::End => "end"@,
        Token::Fun => "fun"@,
        Token::Tfun => "tfun"@,
        Token::Contract => "contract"@,
        Token::Transition => "transition"@,
        Token::Send => "send"@,
        Token::Field => "field"@,
        Token::Accept => "accept"@,
        Token::Exists => "exists"@,
        Token::Delete => "delete"@,
        Token::Throw => "throw"@,
        Token::Map => "Map"@,
        Token::ScillaVersion => "scilla_version"@,
        Token::Type => "type"@,
        Token::Of => "of"@,
        Token::As => "as"@,
        Token::Procedure => "procedure"@,
        Token::Emp => "Emp"@,
        Token::Event => "event"@,
        Token::EventType => "Event"@,
        Token::ByStr => "ByStr"@,
        Token::Whitespace => " "@,
        Token::Unknown => "?"@,
    }
}
// Keywords that are recognised before anything else.
spec fn keyword(w: Seq<char>) -> Option<VTok> {
    if w == "forall"@ { Some(Token::Forall) }
    else if w == "builtin"@ { Some(Token::Builtin) }
    else if w == "library"@ { Some(Token::Library) }
    else if w == "import"@ { Some(Token::Import) }
    else if w == "let"@ { Some(Token::Let) }
    else if w == "in"@ { Some(Token::In) }
    else if w == "match"@ { Some(Token::Match) }
    else if w == "with"@ { Some(Token::With) }
    else if w == "end"@ { Some(Token::End) }
    else if w == "fun"@ { Some(Token::Fun) }
    else if w == "tfun"@ { Some(Token::Tfun) }
    else if w == "contract"@ { Some(Token::Contract) }
    else if w == "transition"@ { Some(Token::Transition) }
    else if w == "send"@ { Some(Token::Send) }
    else if w == "field"@ { Some(Token::Field) }
    else if w == "accept"@ { Some(Token::Accept) }
    else if w == "exists"@ { Some(Token::Exists) }
    else if w == "delete"@ { Some(Token::Delete) }
    else if w == "throw"@ { Some(Token::Throw) }
    else if w == "Map"@ { Some(Token::Map) }
    else if w == "scilla_version"@ { Some(Token::ScillaVersion) }
    else if w == "type"@ { Some(Token::Type) }
    else if w == "of"@ { Some(Token::Of) }
    else if w == "as"@ { Some(Token::As) }
    else if w == "procedure"@ { Some(Token::Procedure) }
    else if w == "Emp"@ { Some(Token::Emp) }
    else if w == "event"@ { Some(Token::Event) }
    else if w == "Event"@ { Some(Token::EventType) }
    else { None }
}
spec fn plain(w: Seq<char>) -> bool {
    w.len() >= 2 && forall|k: int| 0 <= k < w.len() ==> ('a' <= #[trigger] w[k] <= 'z' || 'A' <= w[k] <= 'Z' || '0' <= w[k] <= '9' || w[k] == '_')
}
proof fn lemma_lengths()
    ensures
        "forall"@.len() == 6, plain("forall"@),
        "builtin"@.len() == 7, plain("builtin"@),
        "library"@.len() == 7, plain("library"@),
        "import"@.len() == 6, plain("import"@),
        "let"@.len() == 3, plain("let"@),
        "in"@.len() == 2, plain("in"@),
        "match"@.len() == 5, plain("match"@),
        "with"@.len() == 4, plain("with"@),
        "end"@.len() == 3, plain("end"@),
        "fun"@.len() == 3, plain("fun"@),
        "tfun"@.len() == 4, plain("tfun"@),
        "contract"@.len() == 8, plain("contract"@),
        "transition"@.len() == 10, plain("transition"@),
        "send"@.len() == 4, plain("send"@),
        "field"@.len() == 5, plain("field"@),
        "accept"@.len() == 6, plain("accept"@),
        "exists"@.len() == 6, plain("exists"@),
        "delete"@.len() == 6, plain("delete"@),
        "throw"@.len() == 5, plain("throw"@),
        "Map"@.len() == 3, plain("Map"@),
        "scilla_version"@.len() == 14, plain("scilla_version"@),
        "type"@.len() == 4, plain("type"@),
        "of"@.len() == 2, plain("of"@),
        "as"@.len() == 2, plain("as"@),
        "procedure"@.len() == 9, plain("procedure"@),
        "Emp"@.len() == 3, plain("Emp"@),
        "event"@.len() == 5, plain("event"@),
        "Event"@.len() == 5, plain("Event"@),
        "ByStr"@.len() == 5, plain("ByStr"@),
{
    reveal_strlit("forall");
    reveal_strlit("builtin");
    reveal_strlit("library");
    reveal_strlit("import");
    reveal_strlit("let");
    reveal_strlit("in");
    reveal_strlit("match");
    reveal_strlit("with");
    reveal_strlit("end");
    reveal_strlit("fun");
    reveal_strlit("tfun");
    reveal_strlit("contract");
    reveal_strlit("transition");
    reveal_strlit("send");
    reveal_strlit("field");
    reveal_strlit("accept");
    reveal_strlit("exists");
    reveal_strlit("delete");
    reveal_strlit("throw");
    reveal_strlit("Map");
    reveal_strlit("scilla_version");
    reveal_strlit("type");
    reveal_strlit("of");
    reveal_strlit("as");
    reveal_strlit("procedure");
    reveal_strlit("Emp");
    reveal_strlit("event");
    reveal_strlit("Event");
    reveal_strlit("ByStr");
}
proof fn lemma_keyword(w: Seq<char>)
    ensures keyword(w) is Some ==> plain(w)
{ lemma_lengths(); }

// --- runs of characters
enum Kind { Digit, Hex, Name, Word }
spec fn is_kind(k: Kind, c: char) -> bool {
    match k {
        Kind::Digit => '0' <= c <= '9',
        Kind::Hex => '0' <= c <= '9' || 'a' <= c <= 'f' || 'A' <= c <= 'F',
        Kind::Name => '0' <= c <= '9' || 'a' <= c <= 'z' || 'A' <= c <= 'Z' || c == '_',
        Kind::Word => alnum(c) || c == '_',
    }
}
// The end of the longest run of such characters from i on.
spec fn run_end(r: Seq<char>, i: int, k: Kind) -> int decreases r.len() - i {
    if 0 <= i < r.len() && is_kind(k, r[i]) { run_end(r, i + 1, k) } else { i }
}
// The end of the longest run of pairs of hexadecimal digits.
spec fn pairs_end(r: Seq<char>, i: int) -> int decreases r.len() - i {
    if 0 <= i && i + 1 < r.len() && is_kind(Kind::Hex, r[i]) && is_kind(Kind::Hex, r[i + 1]) { pairs_end(r, i + 2) } else { i }
}
// Where the text of a string literal ends when backslash escapes are honoured: at a quote or at the end.
spec fn str_body_end(r: Seq<char>, i: int) -> int decreases r.len() - i {
    if !(0 <= i < r.len()) || r[i] == '"' { i }
    else if r[i] == '\\' && i + 1 < r.len() && r[i + 1] != '\n' { str_body_end(r, i + 2) }
    else { str_body_end(r, i + 1) }
}
spec fn at(r: Seq<char>, i: int, c: char) -> bool { 0 <= i < r.len() && r[i] == c }
spec fn upper(c: char) -> bool { 'A' <= c <= 'Z' }
spec fn lower(c: char) -> bool { 'a' <= c <= 'z' }

// The word (letters, digits and underscores, of any script) r starts with.
spec fn word(r: Seq<char>) -> Seq<char> { r.subrange(0, run_end(r, 0, Kind::Word)) }
spec fn sized_bystr(w: Seq<char>) -> bool {
    "ByStr"@.is_prefix_of(w) && w.len() > 5 && run_end(w, 5, Kind::Digit) == w.len()
}
// A string literal whose closing quote is escaped away is read with backslashes as plain characters.
spec fn string_end(r: Seq<char>) -> Option<int> {
    let e = str_body_end(r, 1);
    if !at(r, 0, '"') { None } else if e < r.len() { Some(e + 1) } else { re_find(re_string(), r) }
}
spec fn number_end(r: Seq<char>) -> Option<int> {
    let s = if at(r, 0, '+') || at(r, 0, '-') { 1int } else { 0int };
    if run_end(r, s, Kind::Digit) > s { Some(run_end(r, s, Kind::Digit)) } else { None }
}
spec fn hex_end(r: Seq<char>) -> Option<int> {
    if at(r, 0, '0') && (at(r, 1, 'x') || at(r, 1, 'X')) { Some(pairs_end(r, 2)) } else { None }
}
// The token the text r starts with, and the number of characters it takes; r does not start with white
// space or a comment. An unknown character takes none.
spec fn tok_rest(r: Seq<char>) -> (VTok, int) {
    let w = word(r);
    let name = run_end(r, 0, Kind::Name);
    if keyword(w) is Some { (keyword(w)->0, w.len() as int) }
    else if sized_bystr(w) { (Token::ByStrWithSize(w), w.len() as int) }
    else if w == "ByStr"@ { (Token::ByStr, 5) }
    else if hex_end(r) is Some { (Token::HexNumber(r.subrange(0, hex_end(r)->0)), hex_end(r)->0) }
    else if number_end(r) is Some { (Token::Number(r.subrange(0, number_end(r)->0)), number_end(r)->0) }
    else if string_end(r) is Some { (Token::StringLiteral(r.subrange(0, string_end(r)->0)), string_end(r)->0) }
    else if lower(r[0]) { (Token::Identifier(r.subrange(0, name)), name) }
    else if r[0] == '\'' && r.len() > 1 && upper(r[1]) {
        (Token::TemplateIdentifier(r.subrange(0, run_end(r, 1, Kind::Name))), run_end(r, 1, Kind::Name))
    }
    else if upper(r[0]) { (Token::CustomIdentifier(r.subrange(0, name)), name) }
    else if r[0] == '_' { (Token::SpecialIdentifier(r.subrange(0, name)), name) }
    else { (Token::Unknown, 0) }
}
spec fn tok_at(r: Seq<char>) -> (VTok, int) {
    let c = r[0];
    if c == '=' && at(r, 1, '>') { (Token::DoubleArrow, 2) }
    else if c == '-' && at(r, 1, '>') { (Token::Arrow, 2) }
    else if c == '<' && at(r, 1, '-') { (Token::LeftArrow, 2) }
    else if c == ':' && at(r, 1, '=') { (Token::ColonEquals, 2) }
    else if c == '-' && !(r.len() > 1 && numeric(r[1])) { (Token::Minus, 1) }
    else if c == '_' && !(r.len() > 1 && is_kind(Kind::Word, r[1])) { (Token::Underscore, 1) }
    else if c == '(' && at(r, 1, '*') { (Token::Unknown, 0) }
    else if c == '+' { (Token::Plus, 1) }
    else if c == '*' { (Token::Asterisk, 1) }
    else if c == ';' { (Token::Semicolon, 1) }
    else if c == ':' { (Token::Colon, 1) }
    else if c == '.' { (Token::Dot, 1) }
    else if c == '|' { (Token::Pipe, 1) }
    else if c == '[' { (Token::OpenBracket, 1) }
    else if c == ']' { (Token::CloseBracket, 1) }
    else if c == '(' { (Token::OpenParen, 1) }
    else if c == ')' { (Token::CloseParen, 1) }
    else if c == '{' { (Token::OpenBrace, 1) }
    else if c == '}' { (Token::CloseBrace, 1) }
    else if c == ',' { (Token::Comma, 1) }
    else if c == '&' { (Token::Ampersand, 1) }
    else if c == '@' { (Token::At, 1) }
    else if c == '=' { (Token::Equals, 1) }
    else { tok_rest(r) }
}
spec fn rest(t: Seq<char>, i: int) -> Seq<char> { t.subrange(i, t.len() as int) }

// The end of a comment whose text starts at k: after the first `*)`.
spec fn comment_end(t: Seq<char>, k: int) -> Option<int> decreases t.len() - k {
    if !(0 <= k < t.len()) { None } else if t[k] == '*' && at(t, k + 1, ')') { Some(k + 2) } else { comment_end(t, k + 1) }
}
spec fn opens_comment(t: Seq<char>, k: int) -> bool { at(t, k, '(') && at(t, k + 1, '*') }
// The first character from k on that is neither white space nor in a complete comment.
spec fn skip(t: Seq<char>, k: int) -> int decreases t.len() - k {
    if !(0 <= k < t.len()) { k }
    else if white(t[k]) { skip(t, k + 1) }
    else if opens_comment(t, k) && comment_end(t, k + 2) is Some && k < comment_end(t, k + 2)->0 <= t.len() { skip(t, comment_end(t, k + 2)->0) }
    else { k }
}
// Where the next token is looked for after the one at i.
spec fn resume(t: Seq<char>, i: int) -> int {
    if opens_comment(t, i) { t.len() as int } else if tok_at(rest(t, i)).1 == 0 { i + 1 } else { i + tok_at(rest(t, i)).1 }
}

// --- the patterns of the documentation
spec fn cls1(c: char) -> Re { Re::Class(false, Cls::Or(c, c, Box::new(Cls::Nil))) }
spec fn c_digit() -> Cls { Cls::Or('0', '9', Box::new(Cls::Nil)) }
spec fn c_hex() -> Cls { Cls::Or('0', '9', Box::new(Cls::Or('A', 'F', Box::new(Cls::Or('a', 'f', Box::new(Cls::Nil)))))) }
spec fn c_name() -> Cls { Cls::Or('0', '9', Box::new(Cls::Or('A', 'Z', Box::new(Cls::Or('_', '_', Box::new(Cls::Or('a', 'z', Box::new(Cls::Nil)))))))) }
spec fn c_lower() -> Cls { Cls::Or('a', 'z', Box::new(Cls::Nil)) }
spec fn c_upper() -> Cls { Cls::Or('A', 'Z', Box::new(Cls::Nil)) }
spec fn cl(c: Cls) -> Re { Re::Class(false, c) }
spec fn sq(a: Re, b: Re) -> Re { Re::Seq(Box::new(a), Box::new(b)) }
spec fn star(a: Re) -> Re { Re::Star(Box::new(a)) }
spec fn alt(a: Re, b: Re) -> Re { Re::Alt(Box::new(a), Box::new(b)) }
spec fn re_bystr() -> Re {
    sq(cls1('B'), sq(cls1('y'), sq(cls1('S'), sq(cls1('t'), sq(cls1('r'), sq(cl(c_digit()), sq(star(cl(c_digit())), Re::End)))))))
}
spec fn re_hex() -> Re { sq(cls1('0'), sq(alt(cls1('x'), cls1('X')), star(sq(cl(c_hex()), cl(c_hex()))))) }
spec fn re_sign() -> Re { Re::Opt(Box::new(cl(Cls::Or('+', '+', Box::new(Cls::Or('-', '-', Box::new(Cls::Nil))))))) }
spec fn re_digits() -> Re { sq(cl(c_digit()), star(cl(c_digit()))) }
spec fn re_number() -> Re { sq(re_sign(), re_digits()) }
spec fn re_str_char() -> Re {
    alt(sq(cls1('\\'), Re::Class(true, Cls::Or('\n', '\n', Box::new(Cls::Nil)))), Re::Class(true, Cls::Or('"', '"', Box::new(Cls::Nil))))
}
spec fn re_string() -> Re { sq(cls1('"'), sq(star(re_str_char()), cls1('"'))) }
spec fn re_id(first: Cls) -> Re { sq(cl(first), star(cl(c_name()))) }
spec fn re_template() -> Re { sq(cls1('\''), sq(cl(c_upper()), star(cl(c_name())))) }

proof fn lemma_cls()
    ensures
        forall|x: char| #[trigger] in_cls(c_digit(), x) == is_kind(Kind::Digit, x),
        forall|x: char| #[trigger] in_cls(c_hex(), x) == is_kind(Kind::Hex, x),
        forall|x: char| #[trigger] in_cls(c_name(), x) == is_kind(Kind::Name, x),
        forall|x: char| #[trigger] in_cls(c_lower(), x) == lower(x),
        forall|x: char| #[trigger] in_cls(c_upper(), x) == upper(x),
        forall|x: char, c: char| #[trigger] in_cls(Cls::Or(c, c, Box::new(Cls::Nil)), x) == (x == c),
        forall|x: char| #[trigger] in_cls(Cls::Or('+', '+', Box::new(Cls::Or('-', '-', Box::new(Cls::Nil)))), x) == (x == '+' || x == '-'),
{
    reveal_with_fuel(in_cls, 6);
}
proof fn lemma_run_end(r: Seq<char>, i: int, k: Kind)
    requires 0 <= i <= r.len()
    ensures
        i <= run_end(r, i, k) <= r.len(),
        forall|j: int| i <= j < run_end(r, i, k) ==> is_kind(k, #[trigger] r[j]),
        run_end(r, i, k) < r.len() ==> !is_kind(k, r[run_end(r, i, k)]),
    decreases r.len() - i
{
    if i < r.len() && is_kind(k, r[i]) { lemma_run_end(r, i + 1, k); }
}
proof fn lemma_pairs_end(r: Seq<char>, i: int)
    requires 0 <= i <= r.len()
    ensures
        i <= pairs_end(r, i) <= r.len(),
        forall|j: int| i <= j < pairs_end(r, i) ==> is_kind(Kind::Hex, #[trigger] r[j]),
    decreases r.len() - i
{
    if i + 1 < r.len() && is_kind(Kind::Hex, r[i]) && is_kind(Kind::Hex, r[i + 1]) { lemma_pairs_end(r, i + 2); }
}
proof fn lemma_str_body_end(r: Seq<char>, i: int)
    requires 0 <= i <= r.len()
    ensures
        i <= str_body_end(r, i) <= r.len(),
        str_body_end(r, i) < r.len() ==> r[str_body_end(r, i)] == '"',
    decreases r.len() - i
{
    if i == r.len() || r[i] == '"' { }
    else if r[i] == '\\' && i + 1 < r.len() && r[i + 1] != '\n' { lemma_str_body_end(r, i + 2); }
    else { lemma_str_body_end(r, i + 1); }
}
// --- the matcher
proof fn lemma_seq1(a: Re, b: Re, s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures
        ends(a, s, i).len() == 0 ==> ends(sq(a, b), s, i) =~= Seq::<int>::empty(),
        ends(a, s, i).len() == 1 && i <= ends(a, s, i)[0] <= s.len() ==> ends(sq(a, b), s, i) =~= ends(b, s, ends(a, s, i)[0]),
        ends(a, s, i).len() > 0 && i <= ends(a, s, i)[0] <= s.len() && ends(b, s, ends(a, s, i)[0]).len() > 0
            ==> ends(sq(a, b), s, i).len() > 0 && ends(sq(a, b), s, i)[0] == ends(b, s, ends(a, s, i)[0])[0],
{
    reveal_with_fuel(ends_each, 4);
    reveal_with_fuel(ends, 4);
    let js = ends(a, s, i);
    if js.len() == 1 { assert(js.drop_first() =~= Seq::<int>::empty()); }
}
proof fn lemma_class(neg: bool, c: Cls, s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures ends(Re::Class(neg, c), s, i) == if i < s.len() && in_cls(c, s[i]) != neg { seq![i + 1] } else { Seq::<int>::empty() }
{ }
// One character of a class and then b.
proof fn lemma_one(neg: bool, c: Cls, b: Re, s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures ends(sq(Re::Class(neg, c), b), s, i) == if i < s.len() && in_cls(c, s[i]) != neg { ends(b, s, i + 1) } else { Seq::<int>::empty() }
{
    lemma_seq1(Re::Class(neg, c), b, s, i);
}
proof fn lemma_star_first(a: Re, s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures
        ends(star(a), s, i).len() > 0,
        ends(a, s, i).len() > 0 && i < ends(a, s, i)[0] <= s.len() ==> ends(star(a), s, i)[0] == ends(star(a), s, ends(a, s, i)[0])[0],
        ends(a, s, i).len() == 0 ==> ends(star(a), s, i) =~= seq![i],
{
    reveal_with_fuel(ends_more, 3);
    reveal_with_fuel(ends, 3);
    if ends(a, s, i).len() > 0 && i < ends(a, s, i)[0] <= s.len() {
        assert(ends(star(a), s, ends(a, s, i)[0]).len() > 0) by { lemma_star_nonempty(a, s, ends(a, s, i)[0]); }
    }
}
proof fn lemma_star_nonempty(a: Re, s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures ends(star(a), s, i).len() > 0
{ }
proof fn lemma_star_class(c: Cls, k: Kind, s: Seq<char>, i: int)
    requires 0 <= i <= s.len(), forall|x: char| #[trigger] in_cls(c, x) == is_kind(k, x)
    ensures
        ends(star(cl(c)), s, i).len() > 0,
        ends(star(cl(c)), s, i)[0] == run_end(s, i, k),
        forall|j: int| 0 <= j < ends(star(cl(c)), s, i).len() ==> i <= #[trigger] ends(star(cl(c)), s, i)[j] <= run_end(s, i, k),
    decreases s.len() - i
{
    lemma_star_first(cl(c), s, i);
    lemma_run_end(s, i, k);
    if i < s.len() && is_kind(k, s[i]) {
        lemma_star_class(c, k, s, i + 1);
        reveal_with_fuel(ends_more, 3);
        let js = ends(cl(c), s, i);
        assert(js =~= seq![i + 1]);
        assert(js.drop_first() =~= Seq::<int>::empty());
        assert(ends_more(js, cl(c), s, i) =~= ends(star(cl(c)), s, i + 1));
        assert(ends(star(cl(c)), s, i) =~= ends(star(cl(c)), s, i + 1).push(i));
    } else {
        assert(ends(cl(c), s, i) =~= Seq::<int>::empty());
    }
}
proof fn lemma_star_pairs(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures
        ends(star(sq(cl(c_hex()), cl(c_hex()))), s, i).len() > 0,
        ends(star(sq(cl(c_hex()), cl(c_hex()))), s, i)[0] == pairs_end(s, i),
    decreases s.len() - i
{
    lemma_cls();
    let p = sq(cl(c_hex()), cl(c_hex()));
    lemma_star_first(p, s, i);
    lemma_one(false, c_hex(), cl(c_hex()), s, i);
    if i + 1 < s.len() && is_kind(Kind::Hex, s[i]) && is_kind(Kind::Hex, s[i + 1]) {
        assert(ends(p, s, i) =~= seq![i + 2]);
        lemma_star_pairs(s, i + 2);
    } else {
        assert(ends(p, s, i) =~= Seq::<int>::empty());
    }
}
proof fn lemma_star_str(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures
        ends(star(re_str_char()), s, i).len() > 0,
        ends(star(re_str_char()), s, i)[0] == str_body_end(s, i),
    decreases s.len() - i
{
    lemma_cls();
    let p = re_str_char();
    let nl = Cls::Or('\n', '\n', Box::new(Cls::Nil));
    let bs = Cls::Or('\\', '\\', Box::new(Cls::Nil));
    let q = Cls::Or('"', '"', Box::new(Cls::Nil));
    assert(in_cls(nl, 'a') == ('a' == '\n'));
    lemma_star_first(p, s, i);
    lemma_one(false, bs, Re::Class(true, nl), s, i);
    let e1 = ends(sq(cls1('\\'), Re::Class(true, nl)), s, i);
    let e2 = ends(Re::Class(true, q), s, i);
    assert(ends(p, s, i) == e1 + e2);
    if i < s.len() {
        assert(in_cls(bs, s[i]) == (s[i] == '\\'));
        assert(in_cls(q, s[i]) == (s[i] == '"'));
        if i + 1 < s.len() { assert(in_cls(nl, s[i + 1]) == (s[i + 1] == '\n')); }
    }
    if i == s.len() || s[i] == '"' {
        assert(e1 =~= Seq::<int>::empty());
        assert(e2 =~= Seq::<int>::empty());
    } else if s[i] == '\\' && i + 1 < s.len() && s[i + 1] != '\n' {
        assert(e1 =~= seq![i + 2]);
        assert((e1 + e2)[0] == i + 2);
        lemma_star_str(s, i + 2);
    } else {
        assert(e1 =~= Seq::<int>::empty());
        assert(e2 =~= seq![i + 1]);
        lemma_star_str(s, i + 1);
    }
}
spec fn within(js: Seq<int>, lo: int, hi: int) -> bool { forall|j: int| 0 <= j < js.len() ==> lo <= #[trigger] js[j] <= hi }
proof fn lemma_ends_within(re: Re, s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures within(ends(re, s, i), i, s.len() as int)
    decreases s.len() - i, re, 0nat
{
    match re {
        Re::Seq(a, b) => { lemma_ends_within(*a, s, i); lemma_each_within(ends(*a, s, i), *b, s, i); }
        Re::Alt(a, b) => { lemma_ends_within(*a, s, i); lemma_ends_within(*b, s, i); }
        Re::Opt(a) => { lemma_ends_within(*a, s, i); }
        Re::Star(a) => { lemma_ends_within(*a, s, i); lemma_more_within(ends(*a, s, i), *a, s, i); }
        _ => { }
    }
}
proof fn lemma_each_within(js: Seq<int>, b: Re, s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures within(ends_each(js, b, s, i), i, s.len() as int)
    decreases s.len() - i, b, js.len() + 1
{
    if js.len() > 0 {
        if i <= js[0] <= s.len() { lemma_ends_within(b, s, js[0]); }
        lemma_each_within(js.drop_first(), b, s, i);
    }
}
proof fn lemma_more_within(js: Seq<int>, a: Re, s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures within(ends_more(js, a, s, i), i, s.len() as int)
    decreases s.len() - i, a, js.len() + 1
{
    if js.len() > 0 {
        if i < js[0] <= s.len() { lemma_ends_within(Re::Star(Box::new(a)), s, js[0]); }
        lemma_more_within(js.drop_first(), a, s, i);
    }
}
// Everything, followed by one character of a class.
proof fn lemma_each_class(js: Seq<int>, neg: bool, c: Cls, s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures
        within(ends_each(js, Re::Class(neg, c), s, i), i + 1, s.len() as int),
        forall|j: int| 0 <= j < ends_each(js, Re::Class(neg, c), s, i).len() ==> in_cls(c, s[#[trigger] ends_each(js, Re::Class(neg, c), s, i)[j] - 1]) != neg,
    decreases js.len()
{
    reveal_with_fuel(ends_each, 3);
    reveal_with_fuel(ends, 3);
    if js.len() > 0 { lemma_each_class(js.drop_first(), neg, c, s, i); }
}
proof fn lemma_each_end(js: Seq<int>, s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures
        (forall|j: int| 0 <= j < js.len() ==> #[trigger] js[j] < s.len()) ==> ends_each(js, Re::End, s, i) =~= Seq::<int>::empty(),
        js.len() > 0 && js[0] == s.len() ==> ends_each(js, Re::End, s, i).len() > 0 && ends_each(js, Re::End, s, i)[0] == s.len(),
    decreases js.len()
{
    reveal_with_fuel(ends_each, 3);
    reveal_with_fuel(ends, 3);
    if js.len() > 0 { lemma_each_end(js.drop_first(), s, i); }
}

spec fn ascii_to(r: Seq<char>, n: int) -> bool {
    forall|k: int| 0 <= k < n ==> #[trigger] r[k] < '\u{80}' && r[k] != '\n'
}
// What a pattern finds is a span of at least m characters of ASCII without a line feed.
spec fn good(o: Option<int>, r: Seq<char>, m: int) -> bool {
    o is Some ==> m <= o->0 <= r.len() && ascii_to(r, o->0)
}
proof fn lemma_bystr(w: Seq<char>)
    ensures
        re_find(re_bystr(), w) == if sized_bystr(w) { Some(w.len() as int) } else { None::<int> },
        sized_bystr(w) ==> good(Some(w.len() as int), w, 6),
{
    lemma_cls();
    reveal_strlit("ByStr");
    let d = sq(cl(c_digit()), sq(star(cl(c_digit())), Re::End));
    let r4 = sq(cls1('r'), d);
    let r3 = sq(cls1('t'), r4);
    let r2 = sq(cls1('S'), r3);
    let r1 = sq(cls1('y'), r2);
    let nil = Box::new(Cls::Nil);
    lemma_one(false, Cls::Or('B', 'B', nil), r1, w, 0);
    if w.len() > 0 { lemma_one(false, Cls::Or('y', 'y', nil), r2, w, 1); }
    if w.len() > 1 { lemma_one(false, Cls::Or('S', 'S', nil), r3, w, 2); }
    if w.len() > 2 { lemma_one(false, Cls::Or('t', 't', nil), r4, w, 3); }
    if w.len() > 3 { lemma_one(false, Cls::Or('r', 'r', nil), d, w, 4); }
    if w.len() > 0 { assert(in_cls(Cls::Or('B', 'B', nil), w[0]) == (w[0] == 'B')); }
    if w.len() > 1 { assert(in_cls(Cls::Or('y', 'y', nil), w[1]) == (w[1] == 'y')); }
    if w.len() > 2 { assert(in_cls(Cls::Or('S', 'S', nil), w[2]) == (w[2] == 'S')); }
    if w.len() > 3 { assert(in_cls(Cls::Or('t', 't', nil), w[3]) == (w[3] == 't')); }
    if w.len() > 4 {
        assert(in_cls(Cls::Or('r', 'r', nil), w[4]) == (w[4] == 'r'));
        lemma_one(false, c_digit(), sq(star(cl(c_digit())), Re::End), w, 5);
        if w.len() > 5 {
            let js = ends(star(cl(c_digit())), w, 6);
            lemma_star_class(c_digit(), Kind::Digit, w, 6);
            lemma_run_end(w, 6, Kind::Digit);
            lemma_run_end(w, 5, Kind::Digit);
            lemma_each_end(js, w, 6);
            assert(ends(sq(star(cl(c_digit())), Re::End), w, 6) == ends_each(js, Re::End, w, 6));
        }
    }
    let pre = w.len() >= 5 && w[0] == 'B' && w[1] == 'y' && w[2] == 'S' && w[3] == 't' && w[4] == 'r';
    assert("ByStr"@.is_prefix_of(w) == pre) by {
        if pre { assert(w.subrange(0, 5) =~= "ByStr"@); }
        if "ByStr"@.is_prefix_of(w) { assert forall|k: int| 0 <= k < 5 implies w[k] == "ByStr"@[k] by { assert(w.subrange(0, 5)[k] == w[k]); } }
    }
    if sized_bystr(w) {
        assert forall|k: int| 0 <= k < w.len() implies #[trigger] w[k] < '\u{80}' && w[k] != '\n' by { if k >= 5 { assert(is_kind(Kind::Digit, w[k])); } }
    }
}
proof fn lemma_digits(r: Seq<char>, i: int)
    requires 0 <= i <= r.len()
    ensures
        run_end(r, i, Kind::Digit) > i ==> ends(re_digits(), r, i).len() > 0 && ends(re_digits(), r, i)[0] == run_end(r, i, Kind::Digit),
        run_end(r, i, Kind::Digit) <= i ==> ends(re_digits(), r, i) =~= Seq::<int>::empty(),
{
    lemma_cls();
    lemma_one(false, c_digit(), star(cl(c_digit())), r, i);
    lemma_run_end(r, i, Kind::Digit);
    if i < r.len() && is_kind(Kind::Digit, r[i]) {
        lemma_run_end(r, i + 1, Kind::Digit);
        lemma_star_class(c_digit(), Kind::Digit, r, i + 1);
    }
}
proof fn lemma_number(r: Seq<char>)
    requires r.len() > 0
    ensures re_find(re_number(), r) == number_end(r), good(number_end(r), r, 1)
{
    lemma_cls();
    let sg = Cls::Or('+', '+', Box::new(Cls::Or('-', '-', Box::new(Cls::Nil))));
    assert(in_cls(sg, r[0]) == (r[0] == '+' || r[0] == '-'));
    lemma_digits(r, 0);
    lemma_digits(r, 1);
    lemma_run_end(r, 0, Kind::Digit);
    lemma_run_end(r, 1, Kind::Digit);
    reveal_with_fuel(ends_each, 4);
    reveal_with_fuel(ends, 4);
    let js = ends(re_sign(), r, 0);
    if r[0] == '+' || r[0] == '-' {
        assert(js =~= seq![1int, 0int]);
        assert(js.drop_first() =~= seq![0int]);
        assert(seq![0int].drop_first() =~= Seq::<int>::empty());
        assert(!is_kind(Kind::Digit, r[0]));
        assert(ends(re_digits(), r, 0) =~= Seq::<int>::empty());
        assert(ends_each(js, re_digits(), r, 0) =~= ends(re_digits(), r, 1));
    } else {
        assert(js =~= seq![0int]);
        assert(js.drop_first() =~= Seq::<int>::empty());
        assert(ends_each(js, re_digits(), r, 0) =~= ends(re_digits(), r, 0));
    }
    assert(ends(re_number(), r, 0) == ends_each(js, re_digits(), r, 0));
    if number_end(r) is Some {
        assert forall|k: int| 0 <= k < number_end(r)->0 implies #[trigger] r[k] < '\u{80}' && r[k] != '\n' by { }
    }
}
proof fn lemma_hex(r: Seq<char>)
    requires r.len() > 0
    ensures re_find(re_hex(), r) == hex_end(r), good(hex_end(r), r, 2)
{
    lemma_cls();
    let nil = Box::new(Cls::Nil);
    let p = star(sq(cl(c_hex()), cl(c_hex())));
    let xx = alt(cls1('x'), cls1('X'));
    lemma_one(false, Cls::Or('0', '0', nil), sq(xx, p), r, 0);
    assert(in_cls(Cls::Or('0', '0', nil), r[0]) == (r[0] == '0'));
    lemma_seq1(xx, p, r, 1);
    reveal_with_fuel(ends, 3);
    if r.len() > 1 {
        assert(in_cls(Cls::Or('x', 'x', nil), r[1]) == (r[1] == 'x'));
        assert(in_cls(Cls::Or('X', 'X', nil), r[1]) == (r[1] == 'X'));
        lemma_star_pairs(r, 2);
        lemma_pairs_end(r, 2);
        if r[1] == 'x' || r[1] == 'X' { assert(ends(xx, r, 1) =~= seq![2int]); }
        else { assert(ends(xx, r, 1) =~= Seq::<int>::empty()); }
    } else {
        assert(ends(xx, r, 1) =~= Seq::<int>::empty());
    }
}
proof fn lemma_string(r: Seq<char>)
    requires r.len() > 0
    ensures
        re_find(re_string(), r) == string_end(r),
        string_end(r) is Some ==> 2 <= string_end(r)->0 <= r.len() && r[0] == '"' && r[string_end(r)->0 - 1] == '"',
{
    lemma_cls();
    let qc = Cls::Or('"', '"', Box::new(Cls::Nil));
    let b = sq(star(re_str_char()), cls1('"'));
    lemma_one(false, qc, b, r, 0);
    assert(in_cls(qc, r[0]) == (r[0] == '"'));
    if r[0] == '"' {
        let js = ends(star(re_str_char()), r, 1);
        lemma_star_str(r, 1);
        lemma_str_body_end(r, 1);
        lemma_ends_within(star(re_str_char()), r, 1);
        lemma_each_class(js, false, qc, r, 1);
        assert(ends(b, r, 1) == ends_each(js, cls1('"'), r, 1));
        let e = str_body_end(r, 1);
        if e < r.len() {
            assert(in_cls(qc, r[e]) == (r[e] == '"'));
            assert(ends(cls1('"'), r, e) =~= seq![e + 1]);
            lemma_seq1(star(re_str_char()), cls1('"'), r, 1);
        }
        if ends(b, r, 1).len() > 0 {
            let n = ends(b, r, 1)[0];
            assert(in_cls(qc, r[n - 1]) == (r[n - 1] == '"'));
        }
    }
}
proof fn lemma_id(first: Cls, r: Seq<char>)
    requires r.len() > 0, forall|x: char| #[trigger] in_cls(first, x) ==> is_kind(Kind::Name, x)
    ensures
        re_find(re_id(first), r) == if in_cls(first, r[0]) { Some(run_end(r, 0, Kind::Name)) } else { None::<int> },
        in_cls(first, r[0]) ==> good(Some(run_end(r, 0, Kind::Name)), r, 1),
{
    lemma_cls();
    lemma_one(false, first, star(cl(c_name())), r, 0);
    if in_cls(first, r[0]) {
        lemma_star_class(c_name(), Kind::Name, r, 1);
        lemma_run_end(r, 0, Kind::Name);
        lemma_run_end(r, 1, Kind::Name);
    }
}
proof fn lemma_template(r: Seq<char>)
    requires r.len() > 0
    ensures
        re_find(re_template(), r) == if r[0] == '\'' && r.len() > 1 && upper(r[1]) { Some(run_end(r, 1, Kind::Name)) } else { None::<int> },
        r[0] == '\'' && r.len() > 1 && upper(r[1]) ==> good(Some(run_end(r, 1, Kind::Name)), r, 2),
{
    lemma_cls();
    let q = Cls::Or('\'', '\'', Box::new(Cls::Nil));
    lemma_one(false, q, sq(cl(c_upper()), star(cl(c_name()))), r, 0);
    assert(in_cls(q, r[0]) == (r[0] == '\''));
    lemma_one(false, c_upper(), star(cl(c_name())), r, 1);
    if r.len() > 1 && upper(r[1]) {
        lemma_star_class(c_name(), Kind::Name, r, 2);
        lemma_run_end(r, 1, Kind::Name);
        lemma_run_end(r, 2, Kind::Name);
    }
}
proof fn lemma_run_is(r: Seq<char>, n: int, k: Kind)
    requires 0 <= n <= r.len(), forall|j: int| 0 <= j < n ==> is_kind(k, #[trigger] r[j]), n < r.len() ==> !is_kind(k, r[n])
    ensures run_end(r, 0, k) == n
{
    lemma_run_end(r, 0, k);
    if run_end(r, 0, k) < n { assert(is_kind(k, r[run_end(r, 0, k)])); }
    if n < run_end(r, 0, k) { assert(is_kind(k, r[n])); }
}
impl<'input> Lexer<'input> {
    spec fn marked(self) -> bool {
        &&& boundary(self.document@, self.last_position as int)
        &&& self.line == line(self.document@, idx(self.document@, self.last_position as int))
        &&& self.character == col(self.document@, idx(self.document@, self.last_position as int))
    }
    spec fn inv(self) -> bool {
        &&& self.marked()
        &&& self.chars.text() == self.document@
        &&& 0 <= self.chars.idx() <= self.document@.len()
        &&& self.last_position <= off(self.document@, self.chars.idx())
    }
}
impl<'input> Lexer<'input> {
    // The first character of a token that is no operator has been taken.
    spec fn at_token(self, start: usize, p: SourcePosition) -> bool {
        let t = self.document@;
        let i = idx(t, start as int);
        &&& boundary(t, start as int)
        &&& 0 <= i < t.len()
        &&& self.marked()
        &&& self.last_position == start
        &&& self.chars.text() == t
        &&& self.chars.idx() == i + 1
        &&& p.position == start && p.line == line(t, i) && p.column == col(t, i)
        &&& col(t, i) <= off(t, i)
    }
    // What was taken after it, and where the cursor stands then.
    spec fn after_kind<'a>(self, start: usize, r: (Token<&'a str>, SourcePosition)) -> bool {
        tv(r.0) == tok_rest(rest(self.document@, idx(self.document@, start as int))).0
    }
    spec fn after_idx(self, start: usize) -> int {
        let t = self.document@;
        let n = tok_rest(rest(t, idx(t, start as int))).1;
        idx(t, start as int) + (if n == 0 { 1 } else { n })
    }
    spec fn after_end(self, start: usize) -> int {
        let t = self.document@;
        idx(t, start as int) + tok_rest(rest(t, idx(t, start as int))).1
    }
    spec fn after_pos<'a>(self, start: usize, r: (Token<&'a str>, SourcePosition)) -> bool {
        let t = self.document@;
        r.1.line == line(t, self.after_end(start)) && r.1.column == col(t, self.after_end(start))
    }
}
proof fn lemma_short(t: Seq<char>, i: int)
    requires 0 <= i < t.len()
    ensures
        t[i] < '\u{80}' && t[i] != '\n' ==> ascii_to(rest(t, i), 1),
        i + 1 < t.len() && t[i] < '\u{80}' && t[i] != '\n' && t[i + 1] < '\u{80}' && t[i + 1] != '\n' ==> ascii_to(rest(t, i), 2),
        ascii_to(rest(t, i), 0),
{ }
type Item<'a> = Option<std::result::Result<(SourcePosition, Token<&'a str>, SourcePosition), ParseError>>;
spec fn next_idx(t: Seq<char>, k: int) -> int { if skip(t, k) >= t.len() { t.len() as int } else { resume(t, skip(t, k)) } }
spec fn next_kind<'a>(t: Seq<char>, k: int, r: Item<'a>) -> bool {
    if skip(t, k) >= t.len() { r is None } else { r is Some && r->0 is Ok && tv((r->0->Ok_0).1) == tok_at(rest(t, skip(t, k))).0 }
}
spec fn next_end(t: Seq<char>, k: int) -> int { skip(t, k) + tok_at(rest(t, skip(t, k))).1 }
spec fn next_span<'a>(t: Seq<char>, k: int, r: Item<'a>) -> bool {
    r is Some ==> r->0 is Ok && (r->0->Ok_0).0.position == off(t, skip(t, k)) && (r->0->Ok_0).2.position == off(t, next_end(t, k))
}
spec fn next_pos<'a>(t: Seq<char>, k: int, r: Item<'a>) -> bool {
    r is Some ==> r->0 is Ok && (r->0->Ok_0).0.line == line(t, skip(t, k)) && (r->0->Ok_0).0.column == col(t, skip(t, k))
        && (r->0->Ok_0).2.line == line(t, next_end(t, k)) && (r->0->Ok_0).2.column == col(t, next_end(t, k))
}
proof fn lemma_at(t: Seq<char>, i: int)
    requires 0 <= i < t.len()
    ensures
        rest(t, i).len() == t.len() - i,
        rest(t, i)[0] == t[i],
        i + 1 < t.len() ==> rest(t, i)[1] == t[i + 1],
        forall|n: int| 0 <= n <= t.len() - i ==> off(t, i + n) == off(t, i) + #[trigger] off(rest(t, i), n) && off(t, i + n) <= off(t, t.len() as int),
        forall|n: int| 0 <= n <= t.len() - i ==> #[trigger] rest(t, i).subrange(0, n) == t.subrange(i, i + n),
        forall|n: int| 0 <= n <= t.len() - i && #[trigger] ascii_to(rest(t, i), n) ==>
            off(rest(t, i), n) == n && off(t, i + n) == off(t, i) + n && line(t, i + n) == line(t, i) && col(t, i + n) == col(t, i) + n,
{
    let r = rest(t, i);
    assert forall|n: int| 0 <= n <= t.len() - i implies off(t, i + n) == off(t, i) + #[trigger] off(r, n) && off(t, i + n) <= off(t, t.len() as int) by { lemma_off_shift(t, i, n); lemma_off_mono(t, i + n, t.len() as int); }
    assert forall|n: int| 0 <= n <= t.len() - i implies #[trigger] r.subrange(0, n) == t.subrange(i, i + n) by { assert(r.subrange(0, n) =~= t.subrange(i, i + n)); }
    assert forall|n: int| 0 <= n <= t.len() - i && #[trigger] ascii_to(r, n) implies
        off(r, n) == n && off(t, i + n) == off(t, i) + n && line(t, i + n) == line(t, i) && col(t, i + n) == col(t, i) + n by {
        lemma_off_ascii(r, n);
        lemma_off_shift(t, i, n);
        assert forall|k: int| i <= k < i + n implies t[k] != '\n' by { assert(r[k - i] == t[k]); }
        lemma_same_line(t, i, i + n);
    }
}
proof fn lemma_off0(r: Seq<char>) ensures off(r, 0) == 0 { }
proof fn lemma_at1(t: Seq<char>, i: int)
    requires 0 <= i < t.len()
    ensures rest(t, i).len() == t.len() - i, rest(t, i)[0] == t[i], i + 1 < t.len() ==> rest(t, i)[1] == t[i + 1],
{ }
proof fn lemma_off_prefix(r: Seq<char>, n: int, m: int)
    requires 0 <= n <= m <= r.len()
    ensures off(r.subrange(0, m), n) == off(r, n)
    decreases n
{
    if n > 0 { lemma_off_prefix(r, n - 1, m); }
}
// The n characters from i on.
proof fn lemma_span(s: &str, i: int, n: int)
    requires 0 <= i, 0 <= n <= s@.len() - i
    ensures
        off(s@, i + n) == off(s@, i) + off(rest(s@, i), n),
        off(s@, i) + n <= off(s@, i + n) <= isize::MAX,
        i + n <= isize::MAX,
        rest(s@, i).subrange(0, n) == s@.subrange(i, i + n),
        boundary(s@, off(s@, i + n) as int),
        idx(s@, off(s@, i + n) as int) == i + n,
        boundary(rest(s@, i), off(rest(s@, i), n) as int),
        idx(rest(s@, i), off(rest(s@, i), n) as int) == n,
{
    let t = s@;
    lemma_bound(s, i + n);
    lemma_off_shift(t, i, n);
    lemma_off_mono(t, i, i + n);
    lemma_idx_off(t, i + n);
    lemma_idx_off(rest(t, i), n);
    assert(rest(t, i).subrange(0, n) =~= t.subrange(i, i + n));
}
proof fn lemma_flat(t: Seq<char>, i: int, n: int)
    requires 0 <= i, 0 <= n <= t.len() - i, ascii_to(rest(t, i), n)
    ensures
        off(rest(t, i), n) == n, off(t, i + n) == off(t, i) + n,
        line(t, i + n) == line(t, i), col(t, i + n) == col(t, i) + n, col(t, i + n) <= off(t, i + n),
{
    let r = rest(t, i);
    lemma_off_ascii(r, n);
    lemma_off_shift(t, i, n);
    assert forall|k: int| i <= k < i + n implies t[k] != '\n' by { assert(r[k - i] == t[k]); }
    lemma_same_line(t, i, i + n);
    lemma_col(t, i + n);
}
spec fn other_word(w: Seq<char>) -> bool { keyword(w) is None && !sized_bystr(w) && w != "ByStr"@ }
proof fn lemma_comment_end(t: Seq<char>, k: int)
    ensures comment_end(t, k) is Some ==> k < comment_end(t, k)->0 <= t.len()
    decreases t.len() - k
{
    if 0 <= k < t.len() && !(t[k] == '*' && at(t, k + 1, ')')) { lemma_comment_end(t, k + 1); }
}
proof fn lemma_rest(r: Seq<char>)
    requires r.len() > 0
    ensures
        re_find(re_hex(), r) == hex_end(r), good(hex_end(r), r, 2),
        re_find(re_number(), r) == number_end(r), good(number_end(r), r, 1),
        re_find(re_string(), r) == string_end(r), string_end(r) is Some ==> 2 <= string_end(r)->0 <= r.len(),
        re_find(re_id(c_lower()), r) == if lower(r[0]) { Some(run_end(r, 0, Kind::Name)) } else { None::<int> },
        re_find(re_id(c_upper()), r) == if upper(r[0]) { Some(run_end(r, 0, Kind::Name)) } else { None::<int> },
        re_find(re_id(Cls::Or('_', '_', Box::new(Cls::Nil))), r) == if r[0] == '_' { Some(run_end(r, 0, Kind::Name)) } else { None::<int> },
        is_kind(Kind::Name, r[0]) ==> good(Some(run_end(r, 0, Kind::Name)), r, 1),
        re_find(re_template(), r) == if r[0] == '\'' && r.len() > 1 && upper(r[1]) { Some(run_end(r, 1, Kind::Name)) } else { None::<int> },
        r[0] == '\'' && r.len() > 1 && upper(r[1]) ==> good(Some(run_end(r, 1, Kind::Name)), r, 2),
        re_find(re_bystr(), word(r)) == if sized_bystr(word(r)) { Some(word(r).len() as int) } else { None::<int> },
        re_find(re_bystr(), r) == if sized_bystr(r) { Some(r.len() as int) } else { None::<int> },
        word(r).len() == run_end(r, 0, Kind::Word) <= r.len(),
        word(r).len() == r.len() ==> word(r) == r,
        word(r).len() == 0 ==> other_word(r) && other_word(word(r)),
        keyword(word(r)) is Some || word(r) == "ByStr"@ ==> word(r).len() >= 2 && ascii_to(r, word(r).len() as int),
        sized_bystr(word(r)) ==> word(r).len() >= 6 && ascii_to(r, word(r).len() as int),
        off(r, word(r).len() as int) <= off(r, r.len() as int),
{
    broadcast use axiom_alnum;
    lemma_lengths();
    lemma_cls();
    lemma_hex(r);
    lemma_number(r);
    lemma_string(r);
    lemma_template(r);
    lemma_bystr(r);
    lemma_run_end(r, 0, Kind::Word);
    let w = word(r);
    lemma_bystr(w);
    lemma_keyword(w);
    lemma_keyword(r);
    let us = Cls::Or('_', '_', Box::new(Cls::Nil));
    assert forall|x: char| #[trigger] in_cls(us, x) implies is_kind(Kind::Name, x) by { }
    assert(in_cls(us, r[0]) == (r[0] == '_'));
    lemma_id(c_lower(), r);
    lemma_id(c_upper(), r);
    lemma_id(us, r);
    lemma_run_end(r, 0, Kind::Name);
    lemma_off_mono(r, w.len() as int, r.len() as int);
    if w.len() == r.len() { assert(w =~= r); }
    assert forall|k: int| 0 <= k < w.len() implies #[trigger] r[k] == w[k] by { }
    if w.len() == 0 {
        reveal_strlit("ByStr");
        if sized_bystr(r) { assert(r.subrange(0, 5) == "ByStr"@); assert(r[0] == r.subrange(0, 5)[0]); }
        assert(!is_kind(Kind::Word, r[0]));
    }
    if keyword(w) is Some || w == "ByStr"@ {
        assert forall|k: int| 0 <= k < w.len() implies #[trigger] r[k] < '\u{80}' && r[k] != '\n' by { assert(w[k] == r[k]); }
    }
    if sized_bystr(w) {
        assert forall|k: int| 0 <= k < w.len() implies #[trigger] r[k] < '\u{80}' && r[k] != '\n' by { assert(w[k] == r[k]); }
    }
    if is_kind(Kind::Name, r[0]) {
        assert forall|k: int| 0 <= k < run_end(r, 0, Kind::Name) implies #[trigger] r[k] < '\u{80}' && r[k] != '\n' by { assert(is_kind(Kind::Name, r[k])); }
        assert(run_end(r, 0, Kind::Name) >= 1) by { lemma_run_end(r, 1, Kind::Name); }
    }
}
// ============================================================ the properties, over the contract of Lexer::next

// C01: a token's span spells it, and only an unknown token has an empty one.
proof fn lemma_tok_rest(r: Seq<char>)
    requires r.len() > 0
    ensures
        0 <= tok_rest(r).1 <= r.len(),
        tok_rest(r).1 == 0 <==> tok_rest(r).0 == VTok::Unknown,
        tok_rest(r).1 > 0 ==> spell(tok_rest(r).0) == r.subrange(0, tok_rest(r).1),
{
    hide(re_find); hide(ends); hide(ascii_to);
    lemma_rest(r);
    lemma_lengths();
    lemma_run_end(r, 0, Kind::Name);
    lemma_run_end(r, 0, Kind::Word);
    let w = word(r);
    if keyword(w) is Some { assert(spell(keyword(w)->0) == w); }
    if r[0] == '\'' && r.len() > 1 { lemma_run_end(r, 1, Kind::Name); }
}
proof fn lemma_one_char(r: Seq<char>, s: Seq<char>)
    requires r.len() > 0, s.len() == 1, s[0] == r[0]
    ensures r.subrange(0, 1) == s
{ assert(r.subrange(0, 1) =~= s); }
proof fn lemma_two_chars(r: Seq<char>, s: Seq<char>)
    requires r.len() > 1, s.len() == 2, s[0] == r[0], s[1] == r[1]
    ensures r.subrange(0, 2) == s
{ assert(r.subrange(0, 2) =~= s); }
proof fn lemma_tok_at(r: Seq<char>)
    requires r.len() > 0
    ensures
        0 <= tok_at(r).1 <= r.len(),
        tok_at(r).1 == 0 <==> tok_at(r).0 == VTok::Unknown,
        tok_at(r).1 > 0 ==> spell(tok_at(r).0) == r.subrange(0, tok_at(r).1),
{
    hide(tok_rest);
    lemma_tok_rest(r);
    reveal_strlit("=>"); reveal_strlit("->"); reveal_strlit("<-"); reveal_strlit(":="); reveal_strlit("-"); reveal_strlit("_");
    reveal_strlit("+"); reveal_strlit("*"); reveal_strlit(";"); reveal_strlit(":"); reveal_strlit("."); reveal_strlit("|");
    reveal_strlit("["); reveal_strlit("]"); reveal_strlit("("); reveal_strlit(")"); reveal_strlit("{"); reveal_strlit("}");
    reveal_strlit(","); reveal_strlit("&"); reveal_strlit("@"); reveal_strlit("=");
    let (x, n) = tok_at(r);
    if n == 1 && spell(x).len() == 1 && spell(x)[0] == r[0] { lemma_one_char(r, spell(x)); }
    if n == 2 && spell(x).len() == 2 && spell(x)[0] == r[0] && spell(x)[1] == r[1] { lemma_two_chars(r, spell(x)); }
}
// C01: the cursor moves on, spans are in order and inside the text, and an unknown token stands before the
// one character (or the comment that is not closed) it reports.
proof fn lemma_skip(t: Seq<char>, k: int)
    requires 0 <= k <= t.len()
    ensures
        k <= skip(t, k) <= t.len(),
        skip(t, k) < t.len() ==> !white(t[skip(t, k)]),
        skip(t, k) < t.len() && opens_comment(t, skip(t, k)) ==> comment_end(t, skip(t, k) + 2) is None,
    decreases t.len() - k
{
    if k < t.len() {
        lemma_comment_end(t, k + 2);
        if white(t[k]) { lemma_skip(t, k + 1); }
        else if opens_comment(t, k) && comment_end(t, k + 2) is Some { lemma_skip(t, comment_end(t, k + 2)->0); }
    }
}
proof fn lemma_progress(t: Seq<char>, k: int)
    requires 0 <= k <= t.len()
    ensures
        k <= skip(t, k) <= t.len(),
        skip(t, k) < t.len() ==> {
            let i = skip(t, k);
            let x = tok_at(rest(t, i)).0;
            &&& i <= next_end(t, k) <= next_idx(t, k) <= t.len()
            &&& i < next_idx(t, k)
            &&& x != VTok::Unknown ==> i < next_end(t, k) == next_idx(t, k) && spell(x) == t.subrange(i, next_end(t, k))
            &&& x == VTok::Unknown ==> next_end(t, k) == i && (next_idx(t, k) == i + 1
                || (next_idx(t, k) == t.len() && opens_comment(t, i) && comment_end(t, i + 2) is None))
        },
{
    hide(tok_at); hide(skip);
    lemma_skip(t, k);
    let i = skip(t, k);
    if i < t.len() {
        let r = rest(t, i);
        lemma_at1(t, i);
        lemma_tok_at(r);
        let n = tok_at(r).1;
        assert(r.subrange(0, n) =~= t.subrange(i, i + n));
        if opens_comment(t, i) { reveal(tok_at); }
    }
}
// C01: what lies between two tokens is white space or lies in a comment that is closed before the second.
proof fn lemma_gap(t: Seq<char>, k: int, j: int) -> (c: int)
    requires 0 <= k <= j < skip(t, k), k <= t.len()
    ensures white(t[j]) || (k <= c <= j && opens_comment(t, c) && comment_end(t, c + 2) is Some && j < comment_end(t, c + 2)->0 <= skip(t, k))
    decreases t.len() - k
{
    if white(t[k]) {
        if j == k { k } else { lemma_gap(t, k + 1, j) }
    } else {
        let e = comment_end(t, k + 2)->0;
        lemma_comment_end(t, k + 2);
        lemma_skip(t, e);
        if j < e { k } else { lemma_gap(t, e, j) }
    }
}
// C03: offsets grow with the characters, so spans in order of characters are in order of offsets.
proof fn lemma_order(t: Seq<char>, i: int, j: int)
    requires 0 <= i <= j
    ensures off(t, i) <= off(t, j), i < j ==> off(t, i) < off(t, j)
{ lemma_off_mono(t, i, j); }

// C14: the text of a token lexes as that token again. Not so for a name cut out of a longer word by a letter
// outside ASCII, nor for a string literal whose only closing quote is escaped.
proof fn lemma_run_prefix(r: Seq<char>, i: int, k: Kind, n: int)
    requires 0 <= i <= n <= r.len(), run_end(r, i, k) >= n
    ensures run_end(r.subrange(0, n), i, k) == n
    decreases n - i
{
    lemma_run_end(r, i, k);
    if i < n { assert(r.subrange(0, n)[i] == r[i]); lemma_run_end(r, i + 1, k); lemma_run_prefix(r, i + 1, k, n); }
}
proof fn lemma_pairs_prefix(r: Seq<char>, i: int, n: int)
    requires 0 <= i <= n <= r.len(), pairs_end(r, i) == n
    ensures pairs_end(r.subrange(0, n), i) == n
    decreases n - i
{
    let a = r.subrange(0, n);
    if i + 1 < r.len() && is_kind(Kind::Hex, r[i]) && is_kind(Kind::Hex, r[i + 1]) {
        lemma_pairs_end(r, i + 2);
        assert(a[i] == r[i] && a[i + 1] == r[i + 1]);
        lemma_pairs_prefix(r, i + 2, n);
    }
}
proof fn lemma_body_prefix(r: Seq<char>, i: int)
    requires 0 <= i <= str_body_end(r, i) < r.len()
    ensures str_body_end(r.subrange(0, str_body_end(r, i) + 1), i) == str_body_end(r, i)
    decreases r.len() - i
{
    let n = str_body_end(r, i) + 1;
    let a = r.subrange(0, n);
    lemma_str_body_end(r, i);
    assert(a[i] == r[i]);
    if r[i] == '"' { }
    else if r[i] == '\\' && i + 1 < r.len() && r[i + 1] != '\n' {
        lemma_str_body_end(r, i + 2);
        assert(a[i + 1] == r[i + 1]);
        lemma_body_prefix(r, i + 2);
    } else { lemma_str_body_end(r, i + 1); lemma_body_prefix(r, i + 1); }
}
spec fn whole(r: Seq<char>) -> bool {
    &&& run_end(r, 0, Kind::Word) == run_end(r, 0, Kind::Name)
    &&& r[0] == '"' ==> str_body_end(r, 1) < r.len()
}
proof fn lemma_relex_rest(r: Seq<char>)
    requires r.len() > 0, tok_rest(r).1 > 0, whole(r)
    ensures tok_rest(r.subrange(0, tok_rest(r).1)) == tok_rest(r)
{
    hide(re_find); hide(ends); hide(ascii_to);
    broadcast use axiom_alnum;
    let (x, n) = tok_rest(r);
    let a = r.subrange(0, n);
    lemma_tok_rest(r);
    lemma_rest(r);
    lemma_rest(a);
    lemma_lengths();
    let w = word(r);
    let wa = word(a);
    lemma_run_end(r, 0, Kind::Word);
    lemma_run_end(r, 0, Kind::Name);
    lemma_run_end(a, 0, Kind::Word);
    lemma_run_end(a, 0, Kind::Name);
    assert(a[0] == r[0]);
    assert(a.subrange(0, n) =~= a);
    if n > 1 { assert(a[1] == r[1]); }
    if keyword(w) is Some || sized_bystr(w) || w == "ByStr"@ {
        lemma_run_prefix(r, 0, Kind::Word, n);
        assert(wa =~= w);
        assert(tok_rest(a) == tok_rest(r));
    } else if hex_end(r) is Some {
        lemma_pairs_end(r, 2);
        lemma_pairs_prefix(r, 2, n);
        assert(wa[0] == '0');
        lemma_digit_first(wa);
        assert(tok_rest(a) == tok_rest(r));
    } else if number_end(r) is Some {
        let s = if at(r, 0, '+') || at(r, 0, '-') { 1int } else { 0int };
        lemma_run_end(r, s, Kind::Digit);
        lemma_run_prefix(r, s, Kind::Digit, n);
        assert(is_kind(Kind::Digit, r[s]));
        if wa.len() > 0 { assert(wa[0] == r[0]); }
        lemma_digit_first(wa);
        if at(a, 1, 'x') || at(a, 1, 'X') { if s == 0 { assert(is_kind(Kind::Digit, r[1])); } }
        assert(tok_rest(a) == tok_rest(r));
    } else if string_end(r) is Some {
        lemma_str_body_end(r, 1);
        lemma_body_prefix(r, 1);
        lemma_digit_first(wa);
        assert(tok_rest(a) == tok_rest(r));
    } else if r[0] == '\'' && r.len() > 1 && upper(r[1]) {
        lemma_run_end(r, 1, Kind::Name);
        lemma_run_prefix(r, 1, Kind::Name, n);
        lemma_digit_first(wa);
        assert(tok_rest(a) == tok_rest(r));
    } else {
        lemma_run_prefix(r, 0, Kind::Name, n);
        lemma_run_prefix(r, 0, Kind::Word, n);
        assert(wa =~= w);
    }
}
proof fn lemma_digit_first(w: Seq<char>)
    requires w.len() == 0 || '0' <= w[0] <= '9'
    ensures keyword(w) is None, !sized_bystr(w), w != "ByStr"@
{
    lemma_lengths();
    reveal_strlit("forall"); reveal_strlit("builtin"); reveal_strlit("library"); reveal_strlit("import"); reveal_strlit("let");
    reveal_strlit("in"); reveal_strlit("match"); reveal_strlit("with"); reveal_strlit("end"); reveal_strlit("fun");
    reveal_strlit("tfun"); reveal_strlit("contract"); reveal_strlit("transition"); reveal_strlit("send"); reveal_strlit("field");
    reveal_strlit("accept"); reveal_strlit("exists"); reveal_strlit("delete"); reveal_strlit("throw"); reveal_strlit("Map");
    reveal_strlit("scilla_version"); reveal_strlit("type"); reveal_strlit("of"); reveal_strlit("as"); reveal_strlit("procedure");
    reveal_strlit("Emp"); reveal_strlit("event"); reveal_strlit("Event"); reveal_strlit("ByStr");
    if sized_bystr(w) { assert(w.subrange(0, 5) == "ByStr"@); assert(w[0] == w.subrange(0, 5)[0]); }
}
proof fn lemma_underscore(r: Seq<char>)
    requires r.len() > 1, r[0] == '_', is_kind(Kind::Word, r[1]), whole(r)
    ensures tok_rest(r).1 != 1
{
    hide(re_find); hide(ends); hide(ascii_to);
    lemma_rest(r);
    lemma_lengths();
    lemma_run_end(r, 2, Kind::Word);
    assert(run_end(r, 1, Kind::Word) == run_end(r, 2, Kind::Word));
    lemma_tok_rest(r);
}
proof fn lemma_minus(r: Seq<char>)
    requires r.len() > 1, r[0] == '-'
    ensures tok_rest(r).1 != 1
{
    hide(re_find); hide(ends); hide(ascii_to);
    broadcast use axiom_alnum;
    lemma_rest(r);
    lemma_lengths();
    lemma_run_end(r, 0, Kind::Word);
    lemma_run_end(r, 1, Kind::Digit);
    lemma_digit_first(word(r));
    lemma_tok_rest(r);
}
proof fn lemma_relex(r: Seq<char>)
    requires r.len() > 0, tok_at(r).1 > 0, whole(r)
    ensures tok_at(r.subrange(0, tok_at(r).1)) == tok_at(r)
{
    hide(tok_rest);
    broadcast use axiom_alnum, axiom_numeric;
    let n = tok_at(r).1;
    let a = r.subrange(0, n);
    lemma_tok_at(r);
    lemma_tok_rest(r);
    assert(a[0] == r[0]);
    if n > 1 { assert(a[1] == r[1]); }
    if tok_at(r) == tok_rest(r) {
        lemma_relex_rest(r);
        lemma_run_end(r, 0, Kind::Word);
        lemma_run_end(r, 0, Kind::Name);
        if n == 1 && r.len() > 1 && r[0] == '_' && is_kind(Kind::Word, r[1]) {
            lemma_run_end(r, 1, Kind::Word);
            lemma_run_end(r, 2, Kind::Word);
            lemma_underscore(r);
        }
        if r.len() > 1 && r[0] == '-' { lemma_minus(r); }
    }
}
// C02: white space or a comment after a token does not change it.
proof fn lemma_run_ext(a: Seq<char>, s: Seq<char>, i: int, k: Kind)
    requires 0 <= i <= a.len(), s.len() > 0, !is_kind(k, s[0])
    ensures run_end(a + s, i, k) == run_end(a, i, k)
    decreases a.len() - i
{
    if i < a.len() { assert((a + s)[i] == a[i]); lemma_run_ext(a, s, i + 1, k); } else { assert((a + s)[i] == s[0]); }
}
proof fn lemma_pairs_ext(a: Seq<char>, s: Seq<char>, i: int)
    requires 0 <= i <= a.len(), s.len() > 0, !is_kind(Kind::Hex, s[0])
    ensures pairs_end(a + s, i) == pairs_end(a, i)
    decreases a.len() - i
{
    if i < a.len() { assert((a + s)[i] == a[i]); } else { assert((a + s)[i] == s[0]); }
    if i + 1 < a.len() {
        assert((a + s)[i + 1] == a[i + 1]);
        lemma_pairs_ext(a, s, i + 2);
    } else if i + 1 == a.len() { assert((a + s)[i + 1] == s[0]); }
}
proof fn lemma_body_ext(a: Seq<char>, s: Seq<char>, i: int)
    requires 0 <= i <= a.len(), str_body_end(a, i) < a.len()
    ensures str_body_end(a + s, i) == str_body_end(a, i)
    decreases a.len() - i
{
    if i < a.len() {
        assert((a + s)[i] == a[i]);
        if a[i] == '"' { }
        else if a[i] == '\\' && i + 1 < a.len() && a[i + 1] != '\n' { assert((a + s)[i + 1] == a[i + 1]); lemma_body_ext(a, s, i + 2); }
        else {
            if i + 1 == a.len() { assert(str_body_end(a, i + 1) == i + 1); }
            else { assert((a + s)[i + 1] == a[i + 1]); }
            lemma_body_ext(a, s, i + 1);
        }
    }
}
// White space is neither a letter nor a digit.
#[verifier::external_body]
proof fn axiom_white_class(c: char)
    ensures white(c) ==> !alnum(c) && !numeric(c),
{ }
spec fn parted(s: Seq<char>) -> bool { s.len() > 0 && (white(s[0]) || opens_comment(s, 0)) }
proof fn lemma_parted(s: Seq<char>)
    requires parted(s)
    ensures
        !is_kind(Kind::Digit, s[0]), !is_kind(Kind::Hex, s[0]), !is_kind(Kind::Name, s[0]), !is_kind(Kind::Word, s[0]), !numeric(s[0]),
        !upper(s[0]), s[0] != 'x', s[0] != 'X', s[0] != '>', s[0] != '-', s[0] != '=', s[0] != '*',
{
    broadcast use axiom_alnum, axiom_numeric, axiom_white;
    axiom_white_class(s[0]);
}
proof fn lemma_context_rest(a: Seq<char>, s: Seq<char>)
    requires a.len() > 0, tok_rest(a).1 == a.len(), a[0] == '"' ==> str_body_end(a, 1) < a.len(), parted(s)
    ensures tok_rest(a + s) == tok_rest(a)
{
    hide(re_find); hide(ends); hide(ascii_to);
    broadcast use axiom_alnum;
    let b = a + s;
    lemma_parted(s);
    lemma_lengths();
    lemma_run_ext(a, s, 0, Kind::Word);
    lemma_run_ext(a, s, 0, Kind::Name);
    lemma_run_end(a, 0, Kind::Word);
    lemma_run_end(a, 0, Kind::Name);
    assert(b.subrange(0, a.len() as int) =~= a);
    assert(a.subrange(0, a.len() as int) =~= a);
    assert(word(b) =~= word(a));
    assert(b[0] == a[0]);
    if a.len() > 1 { assert(b[1] == a[1]); } else { assert(b[1] == s[0]); }
    if a.len() > 1 {
        lemma_pairs_ext(a, s, 2);
    }
    lemma_run_ext(a, s, 1, Kind::Digit);
    lemma_run_ext(a, s, 0, Kind::Digit);
    lemma_run_ext(a, s, 1, Kind::Name);
    lemma_run_end(a, 1, Kind::Digit);
    lemma_run_end(a, 0, Kind::Digit);
    if a[0] == '"' { lemma_body_ext(a, s, 1); lemma_str_body_end(a, 1); }
}
proof fn lemma_context(a: Seq<char>, s: Seq<char>)
    requires a.len() > 0, tok_at(a).1 == a.len(), a[0] == '"' ==> str_body_end(a, 1) < a.len(), parted(s)
    ensures tok_at(a + s) == tok_at(a)
{
    hide(tok_rest);
    broadcast use axiom_alnum, axiom_numeric;
    lemma_parted(s);
    let b = a + s;
    assert(b[0] == a[0]);
    if a.len() > 1 { assert(b[1] == a[1]); } else { assert(b[1] == s[0]); }
    if tok_at(a) == tok_rest(a) { lemma_context_rest(a, s); }
}
broadcast group vx_facts {
    axiom_str_view_injective, axiom_alnum, axiom_numeric, axiom_white, lemma_idx_off, lemma_boundary,
}

==== text types
impl Copy for SourcePosition { }
impl Clone for SourcePosition {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
==== fn Lexer::new
props C01 C03 C04
ret r
ensures r.inv(), r.document@ == $1@, r.chars.idx() == 0
---- entry
proof { axiom_str_bound($1); assert(off($1@, 0) == 0); }
==== fn Lexer::advance_to
props C03 C04
requires
    old(self).marked(), //@ C03
    boundary(old(self).document@, $1 as int), //@ C03 C04
    old(self).last_position <= $1, //@ C03 C04
ensures
    final(self).chars == old(self).chars,
    final(self).document == old(self).document,
    final(self).last_position == $1,
    final(self).marked(), //@ C03 C04
---- entry
let ghost ga = idx(self.document@, self.last_position as int);
let ghost gb = idx(self.document@, $1 as int);
let ghost gt = self.document@;
proof {
    if gb < ga { lemma_off_mono(gt, gb, ga); }
    lemma_bytes(gt, ga, gb);
    lemma_bound(self.document, gb);
    lemma_bound(self.document, ga);
    lemma_col(gt, ga);
    lemma_col(gt, gb);
}
---- enter:0
proof {
    assert(__it0.all().subrange(0, 0) =~= Seq::<u8>::empty());
}
---- loop:0
invariant
    0 <= __it0.idx() <= __it0.all().len(),
    __it0.all() == utf8(gt.subrange(ga, gb)),
    self.chars == old(self).chars,
    self.document == old(self).document,
    self.last_position == old(self).last_position,
    self.line == bline(__it0.all().subrange(0, __it0.idx()), line(gt, ga)),
    self.character == bcol(__it0.all().subrange(0, __it0.idx()), col(gt, ga)),
    self.line <= line(gt, ga) + __it0.idx(),
    self.character <= col(gt, ga) + __it0.idx(),
ensures
    __it0.idx() == __it0.all().len(),
decreases __it0.all().len() - __it0.idx()
---- body:0
proof {
    let k = __it0.idx();
    let b = __it0.all();
    assert(b.subrange(0, k).drop_last() =~= b.subrange(0, k - 1));
    assert(b.subrange(0, k).last() == b[k - 1]);
}
---- after:0
proof { assert(__it0.all().subrange(0, __it0.idx()) =~= __it0.all()); }
---- attr
#[verifier::allow_complex_invariants]
==== fn SourcePosition::is_valid
==== fn SourcePosition::start_position
props C03
ret r
ensures r == (SourcePosition { position: 0, line: 0, column: 0 })
==== fn SourcePosition::invalid_position
==== fn SourcePosition::with_end
props C01 C03 C04
ret r
requires
    $1 >= self.position, //@ C01 C03 C04
    self.column + ($1 - self.position) <= usize::MAX, //@ C03 C04
ensures
    r.position == $1, //@ C01 C03
    r.line == self.line, //@ C03
    r.column == self.column + ($1 - self.position), //@ C03
==== fn String::from
props C14 C04
ret r
ensures r@ == spell_of($1)
==== outline Lexer::next 0 vx_word
fn f(&mut self, start: usize, source_position: SourcePosition) -> (Token<&'input str>, SourcePosition)
==== outline Lexer::vx_word 0 vx_pattern
fn f(&mut self, start: usize, source_position: SourcePosition, token_str: &'input str, keyword_token: &'input str) -> (Token<&'input str>, SourcePosition)
==== fn Lexer::next
props C01 C02 C03 C04
ret r
requires old(self).inv(), //@ C03 C04
ensures
    final(self).inv(), //@ C03 C04
    final(self).document == old(self).document,
    next_kind(old(self).document@, old(self).chars.idx(), r), //@ C02 C01
    next_span(old(self).document@, old(self).chars.idx(), r), //@ C01 C02
    next_pos(old(self).document@, old(self).chars.idx(), r), //@ C03
    final(self).chars.idx() == next_idx(old(self).document@, old(self).chars.idx()), //@ C01 C02 C04
---- attr
#[verifier::allow_complex_invariants]
---- head
hide(ascii_to); hide(line); hide(col); hide(tok_rest);
---- entry
let ghost t = self.document@;
let ghost k0 = self.chars.idx();
proof { lemma_bound(self.document, t.len() as int); }
---- loop:0
invariant
    self.inv(),
    self.document == old(self).document,
    k0 <= self.chars.idx(),
    skip(t, k0) == skip(t, self.chars.idx()),
ensures
    self.chars.idx() == t.len(),
decreases t.len() - self.chars.idx()
---- body:0
let ghost i = self.chars.idx() - 1;
let ghost r0 = rest(t, i);
proof {
    lemma_bound(self.document, i);
    lemma_bound(self.document, i + 1);
    lemma_col(t, i);
    let m = idx(t, self.last_position as int);
    if i < m { lemma_off_mono(t, i, m); }
    lemma_off_mono(t, m, i);
    lemma_comment_end(t, i + 2);
    lemma_at(t, i);
    lemma_short(t, i);
}
---- loop:1
// comment: anything
invariant_except_break
    !$b0,
    comment_end(t, i + 2) == comment_end(t, self.chars.idx()),
invariant
    self.chars.text() == t,
    i + 2 <= self.chars.idx() <= t.len(),
    self.document == old(self).document,
    self.last_position == off(t, i), self.line == line(t, i), self.character == col(t, i),
ensures
    $b0 ==> comment_end(t, i + 2) == Some(self.chars.idx()),
    !$b0 ==> comment_end(t, i + 2) is None && self.chars.idx() == t.len(),
decreases t.len() - self.chars.idx()
---- after:1
proof { lemma_off_mono(t, i, self.chars.idx()); }
==== fn Lexer::vx_word
props C01 C02 C03 C04
ret r
requires old(self).at_token($1, $2)
ensures
    final(self).document == old(self).document,
    old(self).after_kind($1, r), //@ C01 C02
    final(self).chars.idx() == old(self).after_idx($1), //@ C01 C02
    0 <= tok_rest(rest(old(self).document@, idx(old(self).document@, $1 as int))).1,
    old(self).after_end($1) <= old(self).document@.len(),
    r.1.position == off(old(self).document@, old(self).after_end($1)), //@ C01 C03
    old(self).after_pos($1, r), //@ C03
    final(self).inv(), //@ C03 C04
---- attr
#[verifier::allow_complex_invariants]
#[verifier::spinoff_prover]
---- head
hide(ascii_to); hide(line); hide(col); hide(off); hide(sized_bystr); hide(ends); hide(re_find); hide(string_end); hide(number_end); hide(hex_end);
---- entry
let ghost t = self.document@;
let ghost i = idx(t, $1 as int);
let ghost r0 = rest(t, i);
let ghost wl = run_end(r0, 0, Kind::Word);
proof {
    lemma_lengths();
    lemma_at1(t, i);
    lemma_rest(r0);
    lemma_off0(r0);
    lemma_span(self.document, i, 0);
    lemma_span(self.document, i, wl);
    if keyword(word(r0)) is Some { lemma_flat(t, i, wl); }
}
---- loop:0
invariant_except_break
    $m0 == 0,
    wl == run_end(r0, __it0.idx(), Kind::Word),
invariant
    0 <= __it0.idx() <= r0.len(),
    __it0.text() == r0,
ensures
    $m0 == off(r0, wl) || ($m0 == 0 && wl == r0.len()),
decreases r0.len() - __it0.idx()
---- after:0
proof {
    if wl > 0 { lemma_off_mono(r0, 0, wl); }
}
==== fn Lexer::vx_pattern
props C01 C02 C03 C04
ret r
requires
    old(self).at_token($1, $2),
    $3@ == rest(old(self).document@, idx(old(self).document@, $1 as int)),
    $4@ == word($3@) || (word($3@).len() == 0 && $4@ == $3@), //@ C02
    keyword(word($3@)) is None, //@ C02
ensures
    final(self).document == old(self).document,
    old(self).after_kind($1, r), //@ C01 C02
    final(self).chars.idx() == old(self).after_idx($1), //@ C01 C02
    0 <= tok_rest(rest(old(self).document@, idx(old(self).document@, $1 as int))).1,
    old(self).after_end($1) <= old(self).document@.len(),
    r.1.position == off(old(self).document@, old(self).after_end($1)), //@ C01 C03
    old(self).after_pos($1, r), //@ C03
    final(self).inv(), //@ C03 C04
---- attr
#[verifier::spinoff_prover]
---- head
hide(ascii_to); hide(line); hide(col); hide(off); hide(sized_bystr); hide(ends); hide(re_find); hide(string_end); hide(number_end); hide(hex_end); hide(keyword); hide(run_end); hide(rest);
---- entry
let ghost t = self.document@;
let ghost i = idx(t, $1 as int);
let ghost r0 = rest(t, i);
proof {
    lemma_lengths();
    lemma_at1(t, i);
    lemma_rest(r0);
    lemma_span(self.document, i, 0);
    let wl = word(r0).len() as int;
    lemma_span(self.document, i, wl);
    lemma_off_prefix(r0, wl, wl);
    lemma_span(self.document, i, 1);
    if sized_bystr(word(r0)) || word(r0) == "ByStr"@ { lemma_flat(t, i, wl); }
    if hex_end(r0) is Some { lemma_span(self.document, i, hex_end(r0)->0); lemma_flat(t, i, hex_end(r0)->0); }
    if number_end(r0) is Some { lemma_span(self.document, i, number_end(r0)->0); lemma_flat(t, i, number_end(r0)->0); }
    if string_end(r0) is Some { lemma_span(self.document, i, string_end(r0)->0); }
    if is_kind(Kind::Name, r0[0]) { lemma_span(self.document, i, run_end(r0, 0, Kind::Name)); lemma_flat(t, i, run_end(r0, 0, Kind::Name)); }
    if r0[0] == '\'' && r0.len() > 1 && upper(r0[1]) { lemma_span(self.document, i, run_end(r0, 1, Kind::Name)); lemma_flat(t, i, run_end(r0, 1, Kind::Name)); }
}
