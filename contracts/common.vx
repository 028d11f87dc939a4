==== prelude
// ---- shims shared by all units (each external_body is part of the trusted base) ----

// Two string slices with the same characters are the same value: makes `match s { "lit" => .. }`
// decide by content, which is what the compiled code does.
#[verifier::external_body]
broadcast proof fn axiom_str_view_injective(a: &str, b: &str)
    requires #[trigger] a@ == #[trigger] b@,
    ensures a == b,
{ }

struct VxFmtError;
struct VxFormatter { buf: String }

impl VxFormatter {
    fn new() -> (r: Self) ensures r.buf@ == Seq::<char>::empty() { VxFormatter { buf: String::new() } }
    fn into_string(self) -> (r: String) ensures r@ == self.buf@ { self.buf }
    #[verifier::external_body]
    fn write_str(&mut self, s: &str) -> (r: Result<(), VxFmtError>)
        ensures r is Ok, final(self).buf@ == old(self).buf@ + s@
    { unimplemented!() }
}

// Display. The sink is a String, whose write_str never fails.
trait VxFmt {
    spec fn text(&self) -> Seq<char>;
    fn fmt(&self, f: &mut VxFormatter) -> (r: Result<(), VxFmtError>)
        ensures r is Ok, final(f).buf@ == old(f).buf@ + self.text();
    fn vx_to_string(&self) -> (r: String)
        ensures r@ == self.text(),
    {
        let mut f = VxFormatter::new();
        let _ = self.fmt(&mut f);
        let r = f.into_string();
        assert(r@ =~= self.text());
        r
    }
}
impl VxFmt for str {
    spec fn text(&self) -> Seq<char> { self@ }
    fn fmt(&self, f: &mut VxFormatter) -> (r: Result<(), VxFmtError>) { f.write_str(self) }
}
impl<'a> VxFmt for &'a str {
    spec fn text(&self) -> Seq<char> { self@ }
    fn fmt(&self, f: &mut VxFormatter) -> (r: Result<(), VxFmtError>) { f.write_str(self) }
}
impl VxFmt for String {
    spec fn text(&self) -> Seq<char> { self@ }
    fn fmt(&self, f: &mut VxFormatter) -> (r: Result<(), VxFmtError>) { f.write_str(self.as_str()) }
}
impl VxFmt for char {
    spec fn text(&self) -> Seq<char> { seq![*self] }
    #[verifier::external_body]
    fn fmt(&self, f: &mut VxFormatter) -> (r: Result<(), VxFmtError>) { unimplemented!() }
}
// `{:?}` and the like: the text is not specified.
#[verifier::external_body]
fn vx_fmt_opaque<T>(x: &T, f: &mut VxFormatter) -> (r: Result<(), VxFmtError>) ensures r is Ok { unimplemented!() }

// Decimal digits of a number, as `usize`'s Display prints them and as `str::parse` reads them.
spec fn dec(n: nat) -> Seq<char> decreases n {
    if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) }
}
spec fn digit(n: nat) -> char {
    if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' }
    else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' }
}
spec fn digit_value(c: char) -> nat { (c as u32 - '0' as u32) as nat }
spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }
spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
spec fn dec_value(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { dec_value(s.drop_last()) * 10 + digit_value(s.last()) }
}
// `str::parse::<usize>`: an optional `+`, at least one digit, no overflow.
spec fn usize_of(s: Seq<char>) -> Option<nat> {
    let d = if s.len() > 0 && s[0] == '+' { s.subrange(1, s.len() as int) } else { s };
    if d.len() > 0 && all_digits(d) && dec_value(d) <= usize::MAX { Some(dec_value(d)) } else { None }
}
impl VxFmt for usize {
    spec fn text(&self) -> Seq<char> { dec(*self as nat) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut VxFormatter) -> (r: Result<(), VxFmtError>) { unimplemented!() }
}

trait VxInto<T> {
    spec fn into_ok(&self, t: T) -> bool;
    fn vx_into(self) -> (r: T) ensures self.into_ok(r);
}

impl VxInto<String> for &str {
    spec fn into_ok(&self, t: String) -> bool { t@ == self@ }
    #[verifier::external_body]
    fn vx_into(self) -> (r: String) { unimplemented!() }
}

trait VxParse: Sized {
    spec fn parse_ok(s: Seq<char>, r: Result<Self, ()>) -> bool;
    fn of_str(s: &str) -> (r: Result<Self, ()>) ensures Self::parse_ok(s@, r);
}
impl VxParse for usize {
    spec fn parse_ok(s: Seq<char>, r: Result<usize, ()>) -> bool {
        match usize_of(s) { Some(n) => r == Ok::<usize, ()>(n as usize), None => r is Err }
    }
    #[verifier::external_body]
    fn of_str(s: &str) -> (r: Result<usize, ()>) { unimplemented!() }
}
// The same for the other unsigned numbers.
spec fn unsigned_of(s: Seq<char>, max: nat) -> Option<nat> {
    let d = if s.len() > 0 && s[0] == '+' { s.subrange(1, s.len() as int) } else { s };
    if d.len() > 0 && all_digits(d) && dec_value(d) <= max { Some(dec_value(d)) } else { None }
}
impl VxParse for u8 {
    spec fn parse_ok(s: Seq<char>, r: Result<u8, ()>) -> bool {
        match unsigned_of(s, u8::MAX as nat) { Some(n) => r == Ok::<u8, ()>(n as u8), None => r is Err }
    }
    #[verifier::external_body]
    fn of_str(s: &str) -> (r: Result<u8, ()>) { unimplemented!() }
}
impl VxFmt for u8 {
    spec fn text(&self) -> Seq<char> { dec(*self as nat) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut VxFormatter) -> (r: Result<(), VxFmtError>) { unimplemented!() }
}
impl VxParse for u16 {
    spec fn parse_ok(s: Seq<char>, r: Result<u16, ()>) -> bool {
        match unsigned_of(s, u16::MAX as nat) { Some(n) => r == Ok::<u16, ()>(n as u16), None => r is Err }
    }
    #[verifier::external_body]
    fn of_str(s: &str) -> (r: Result<u16, ()>) { unimplemented!() }
}
impl VxFmt for u16 {
    spec fn text(&self) -> Seq<char> { dec(*self as nat) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut VxFormatter) -> (r: Result<(), VxFmtError>) { unimplemented!() }
}
impl VxParse for u32 {
    spec fn parse_ok(s: Seq<char>, r: Result<u32, ()>) -> bool {
        match unsigned_of(s, u32::MAX as nat) { Some(n) => r == Ok::<u32, ()>(n as u32), None => r is Err }
    }
    #[verifier::external_body]
    fn of_str(s: &str) -> (r: Result<u32, ()>) { unimplemented!() }
}
impl VxFmt for u32 {
    spec fn text(&self) -> Seq<char> { dec(*self as nat) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut VxFormatter) -> (r: Result<(), VxFmtError>) { unimplemented!() }
}
impl VxParse for u64 {
    spec fn parse_ok(s: Seq<char>, r: Result<u64, ()>) -> bool {
        match unsigned_of(s, u64::MAX as nat) { Some(n) => r == Ok::<u64, ()>(n as u64), None => r is Err }
    }
    #[verifier::external_body]
    fn of_str(s: &str) -> (r: Result<u64, ()>) { unimplemented!() }
}
impl VxFmt for u64 {
    spec fn text(&self) -> Seq<char> { dec(*self as nat) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut VxFormatter) -> (r: Result<(), VxFmtError>) { unimplemented!() }
}
impl VxParse for u128 {
    spec fn parse_ok(s: Seq<char>, r: Result<u128, ()>) -> bool {
        match unsigned_of(s, u128::MAX as nat) { Some(n) => r == Ok::<u128, ()>(n as u128), None => r is Err }
    }
    #[verifier::external_body]
    fn of_str(s: &str) -> (r: Result<u128, ()>) { unimplemented!() }
}
impl VxFmt for u128 {
    spec fn text(&self) -> Seq<char> { dec(*self as nat) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut VxFormatter) -> (r: Result<(), VxFmtError>) { unimplemented!() }
}
trait VxStr {
    spec fn chars_of(&self) -> Seq<char>;
    fn vx_starts_with(&self, p: &str) -> (r: bool) ensures r == p@.is_prefix_of(self.chars_of());
    fn vx_strip_prefix(&self, p: &str) -> (r: Option<&str>)
        ensures
            p@.is_prefix_of(self.chars_of()) ==> r is Some && r->0@ == self.chars_of().subrange(p@.len() as int, self.chars_of().len() as int),
            !p@.is_prefix_of(self.chars_of()) ==> r is None;
    fn vx_parse<T: VxParse>(&self) -> (r: Result<T, ()>) ensures T::parse_ok(self.chars_of(), r);
}
impl VxStr for str {
    spec fn chars_of(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_starts_with(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_strip_prefix(&self, p: &str) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_parse<T: VxParse>(&self) -> (r: Result<T, ()>) { unimplemented!() }
}
// A derived Clone gives an equal value.
trait VxClone: Sized {
    fn vx_clone(&self) -> (r: Self) ensures r == *self;
}
impl<T> VxClone for T {
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: Self) { unimplemented!() }
}
// The ASCII classes of characters and bytes: written out, so nothing about them is assumed.
trait VxAscii {
    spec fn s_is_ascii(&self) -> bool;
    fn vx_is_ascii(&self) -> (r: bool) ensures r == self.s_is_ascii();
    spec fn s_is_ascii_digit(&self) -> bool;
    fn vx_is_ascii_digit(&self) -> (r: bool) ensures r == self.s_is_ascii_digit();
    spec fn s_is_ascii_lowercase(&self) -> bool;
    fn vx_is_ascii_lowercase(&self) -> (r: bool) ensures r == self.s_is_ascii_lowercase();
    spec fn s_is_ascii_uppercase(&self) -> bool;
    fn vx_is_ascii_uppercase(&self) -> (r: bool) ensures r == self.s_is_ascii_uppercase();
    spec fn s_is_ascii_alphabetic(&self) -> bool;
    fn vx_is_ascii_alphabetic(&self) -> (r: bool) ensures r == self.s_is_ascii_alphabetic();
    spec fn s_is_ascii_alphanumeric(&self) -> bool;
    fn vx_is_ascii_alphanumeric(&self) -> (r: bool) ensures r == self.s_is_ascii_alphanumeric();
    spec fn s_is_ascii_hexdigit(&self) -> bool;
    fn vx_is_ascii_hexdigit(&self) -> (r: bool) ensures r == self.s_is_ascii_hexdigit();
    spec fn s_is_ascii_whitespace(&self) -> bool;
    fn vx_is_ascii_whitespace(&self) -> (r: bool) ensures r == self.s_is_ascii_whitespace();
    spec fn s_is_ascii_control(&self) -> bool;
    fn vx_is_ascii_control(&self) -> (r: bool) ensures r == self.s_is_ascii_control();
    spec fn s_is_ascii_graphic(&self) -> bool;
    fn vx_is_ascii_graphic(&self) -> (r: bool) ensures r == self.s_is_ascii_graphic();
    spec fn s_is_ascii_punctuation(&self) -> bool;
    fn vx_is_ascii_punctuation(&self) -> (r: bool) ensures r == self.s_is_ascii_punctuation();
}
impl VxAscii for char {
    spec fn s_is_ascii(&self) -> bool { *self < '\u{80}' }
    fn vx_is_ascii(&self) -> (r: bool) { *self < '\u{80}' }
    spec fn s_is_ascii_digit(&self) -> bool { '0' <= *self && *self <= '9' }
    fn vx_is_ascii_digit(&self) -> (r: bool) { '0' <= *self && *self <= '9' }
    spec fn s_is_ascii_lowercase(&self) -> bool { 'a' <= *self && *self <= 'z' }
    fn vx_is_ascii_lowercase(&self) -> (r: bool) { 'a' <= *self && *self <= 'z' }
    spec fn s_is_ascii_uppercase(&self) -> bool { 'A' <= *self && *self <= 'Z' }
    fn vx_is_ascii_uppercase(&self) -> (r: bool) { 'A' <= *self && *self <= 'Z' }
    spec fn s_is_ascii_alphabetic(&self) -> bool { ('a' <= *self && *self <= 'z') || ('A' <= *self && *self <= 'Z') }
    fn vx_is_ascii_alphabetic(&self) -> (r: bool) { ('a' <= *self && *self <= 'z') || ('A' <= *self && *self <= 'Z') }
    spec fn s_is_ascii_alphanumeric(&self) -> bool { ('a' <= *self && *self <= 'z') || ('A' <= *self && *self <= 'Z') || ('0' <= *self && *self <= '9') }
    fn vx_is_ascii_alphanumeric(&self) -> (r: bool) { ('a' <= *self && *self <= 'z') || ('A' <= *self && *self <= 'Z') || ('0' <= *self && *self <= '9') }
    spec fn s_is_ascii_hexdigit(&self) -> bool { ('a' <= *self && *self <= 'f') || ('A' <= *self && *self <= 'F') || ('0' <= *self && *self <= '9') }
    fn vx_is_ascii_hexdigit(&self) -> (r: bool) { ('a' <= *self && *self <= 'f') || ('A' <= *self && *self <= 'F') || ('0' <= *self && *self <= '9') }
    spec fn s_is_ascii_whitespace(&self) -> bool { *self == ' ' || *self == '\u{9}' || *self == '\u{a}' || *self == '\u{c}' || *self == '\u{d}' }
    fn vx_is_ascii_whitespace(&self) -> (r: bool) { *self == ' ' || *self == '\u{9}' || *self == '\u{a}' || *self == '\u{c}' || *self == '\u{d}' }
    spec fn s_is_ascii_control(&self) -> bool { *self < ' ' || *self == '\u{7f}' }
    fn vx_is_ascii_control(&self) -> (r: bool) { *self < ' ' || *self == '\u{7f}' }
    spec fn s_is_ascii_graphic(&self) -> bool { '!' <= *self && *self <= '~' }
    fn vx_is_ascii_graphic(&self) -> (r: bool) { '!' <= *self && *self <= '~' }
    spec fn s_is_ascii_punctuation(&self) -> bool { ('!' <= *self && *self <= '/') || (':' <= *self && *self <= '@') || ('[' <= *self && *self <= '`') || ('{' <= *self && *self <= '~') }
    fn vx_is_ascii_punctuation(&self) -> (r: bool) { ('!' <= *self && *self <= '/') || (':' <= *self && *self <= '@') || ('[' <= *self && *self <= '`') || ('{' <= *self && *self <= '~') }
}
impl VxAscii for u8 {
    spec fn s_is_ascii(&self) -> bool { *self < 0x80u8 }
    fn vx_is_ascii(&self) -> (r: bool) { *self < 0x80u8 }
    spec fn s_is_ascii_digit(&self) -> bool { 0x30u8 <= *self && *self <= 0x39u8 }
    fn vx_is_ascii_digit(&self) -> (r: bool) { 0x30u8 <= *self && *self <= 0x39u8 }
    spec fn s_is_ascii_lowercase(&self) -> bool { 0x61u8 <= *self && *self <= 0x7au8 }
    fn vx_is_ascii_lowercase(&self) -> (r: bool) { 0x61u8 <= *self && *self <= 0x7au8 }
    spec fn s_is_ascii_uppercase(&self) -> bool { 0x41u8 <= *self && *self <= 0x5au8 }
    fn vx_is_ascii_uppercase(&self) -> (r: bool) { 0x41u8 <= *self && *self <= 0x5au8 }
    spec fn s_is_ascii_alphabetic(&self) -> bool { (0x61u8 <= *self && *self <= 0x7au8) || (0x41u8 <= *self && *self <= 0x5au8) }
    fn vx_is_ascii_alphabetic(&self) -> (r: bool) { (0x61u8 <= *self && *self <= 0x7au8) || (0x41u8 <= *self && *self <= 0x5au8) }
    spec fn s_is_ascii_alphanumeric(&self) -> bool { (0x61u8 <= *self && *self <= 0x7au8) || (0x41u8 <= *self && *self <= 0x5au8) || (0x30u8 <= *self && *self <= 0x39u8) }
    fn vx_is_ascii_alphanumeric(&self) -> (r: bool) { (0x61u8 <= *self && *self <= 0x7au8) || (0x41u8 <= *self && *self <= 0x5au8) || (0x30u8 <= *self && *self <= 0x39u8) }
    spec fn s_is_ascii_hexdigit(&self) -> bool { (0x61u8 <= *self && *self <= 0x66u8) || (0x41u8 <= *self && *self <= 0x46u8) || (0x30u8 <= *self && *self <= 0x39u8) }
    fn vx_is_ascii_hexdigit(&self) -> (r: bool) { (0x61u8 <= *self && *self <= 0x66u8) || (0x41u8 <= *self && *self <= 0x46u8) || (0x30u8 <= *self && *self <= 0x39u8) }
    spec fn s_is_ascii_whitespace(&self) -> bool { *self == 0x20u8 || *self == 0x9u8 || *self == 0xau8 || *self == 0xcu8 || *self == 0xdu8 }
    fn vx_is_ascii_whitespace(&self) -> (r: bool) { *self == 0x20u8 || *self == 0x9u8 || *self == 0xau8 || *self == 0xcu8 || *self == 0xdu8 }
    spec fn s_is_ascii_control(&self) -> bool { *self < 0x20u8 || *self == 0x7fu8 }
    fn vx_is_ascii_control(&self) -> (r: bool) { *self < 0x20u8 || *self == 0x7fu8 }
    spec fn s_is_ascii_graphic(&self) -> bool { 0x21u8 <= *self && *self <= 0x7eu8 }
    fn vx_is_ascii_graphic(&self) -> (r: bool) { 0x21u8 <= *self && *self <= 0x7eu8 }
    spec fn s_is_ascii_punctuation(&self) -> bool { (0x21u8 <= *self && *self <= 0x2fu8) || (0x3au8 <= *self && *self <= 0x40u8) || (0x5bu8 <= *self && *self <= 0x60u8) || (0x7bu8 <= *self && *self <= 0x7eu8) }
    fn vx_is_ascii_punctuation(&self) -> (r: bool) { (0x21u8 <= *self && *self <= 0x2fu8) || (0x3au8 <= *self && *self <= 0x40u8) || (0x5bu8 <= *self && *self <= 0x60u8) || (0x7bu8 <= *self && *self <= 0x7eu8) }
}
