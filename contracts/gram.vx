==== prelude
// Written by tools/gen_gram.py out of contracts/gram.doc.
// A token as the lexer yields it, with the text of a token that has one.
ghost struct PTok { start: SourcePosition, tok: Token<Seq<char>>, end: SourcePosition }
type Toks = Seq<PTok>;
spec fn le(p: SourcePosition, q: SourcePosition) -> bool { p.position <= q.position }
// Tokens lie one after the other (unit lex proves it of the lexer's).
spec fn ordered(t: Toks) -> bool {
    forall|i: int, j: int| 0 <= i < j < t.len() ==> le((#[trigger] t[i]).end, (#[trigger] t[j]).start)
}
// What LALRPOP gives for @L and @R between the tokens b - 1 and b.
spec fn is_left(t: Toks, b: int, p: SourcePosition) -> bool { 0 <= b < t.len() ==> p == t[b].start }
spec fn is_right(t: Toks, b: int, p: SourcePosition) -> bool { 0 < b <= t.len() ==> p == t[b - 1].end }
spec fn tail<T>(s: Seq<T>) -> Seq<T> { s.subrange(1, s.len() as int) }
broadcast proof fn lemma_tail<T>(a: Seq<T>, s: Seq<T>)
    requires a.len() == 1,
    ensures #[trigger] tail(a + s) == s,
{ assert(tail(a + s) =~= s); }

#[verifier::opaque]
spec fn sem_HexNumber(t: Toks, v: WithMetaData<String>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        ({ let s = v.node; (hi == lo + 1 && t[lo].tok == Token::<Seq<char>>::HexNumber(s@)) })
    )
}
broadcast proof fn i_sem_HexNumber(t: Toks, v: WithMetaData<String>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ({ let s = v.node; (hi == lo + 1 && t[lo].tok == Token::<Seq<char>>::HexNumber(s@)) })
    ),
    ensures #[trigger] sem_HexNumber(t, v, lo, hi),
{ reveal(sem_HexNumber); }
spec fn sem_HexNumber_opt(t: Toks, v: Option<WithMetaData<String>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_HexNumber(lo, hi) && sem_HexNumber(t, x, lo, hi) } }
// the first n of them
spec fn sem_HexNumber_list(t: Toks, v: Seq<WithMetaData<String>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_HexNumber(m, hi) && lo <= m < hi && sem_HexNumber_list(t, v, n - 1, lo, m) && sem_HexNumber(t, v[n - 1], m, hi) }
}
spec fn r_HexNumber(lo: int, hi: int) -> bool { true }
spec fn r_HexNumber_opt(lo: int, hi: int) -> bool { true }
spec fn r_HexNumber_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_SignedInteger(t: Toks, v: WithMetaData<String>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        ({ let s = v.node; (hi == lo + 1 && t[lo].tok == Token::<Seq<char>>::Number(s@)) })
    )
}
broadcast proof fn i_sem_SignedInteger(t: Toks, v: WithMetaData<String>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ({ let s = v.node; (hi == lo + 1 && t[lo].tok == Token::<Seq<char>>::Number(s@)) })
    ),
    ensures #[trigger] sem_SignedInteger(t, v, lo, hi),
{ reveal(sem_SignedInteger); }
spec fn sem_SignedInteger_opt(t: Toks, v: Option<WithMetaData<String>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_SignedInteger(lo, hi) && sem_SignedInteger(t, x, lo, hi) } }
// the first n of them
spec fn sem_SignedInteger_list(t: Toks, v: Seq<WithMetaData<String>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_SignedInteger(m, hi) && lo <= m < hi && sem_SignedInteger_list(t, v, n - 1, lo, m) && sem_SignedInteger(t, v[n - 1], m, hi) }
}
spec fn r_SignedInteger(lo: int, hi: int) -> bool { true }
spec fn r_SignedInteger_opt(lo: int, hi: int) -> bool { true }
spec fn r_SignedInteger_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_RegularId(t: Toks, v: WithMetaData<String>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        ({ let s = v.node; (hi == lo + 1 && t[lo].tok == Token::<Seq<char>>::Identifier(s@)) })
    )
}
broadcast proof fn i_sem_RegularId(t: Toks, v: WithMetaData<String>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ({ let s = v.node; (hi == lo + 1 && t[lo].tok == Token::<Seq<char>>::Identifier(s@)) })
    ),
    ensures #[trigger] sem_RegularId(t, v, lo, hi),
{ reveal(sem_RegularId); }
spec fn sem_RegularId_opt(t: Toks, v: Option<WithMetaData<String>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_RegularId(lo, hi) && sem_RegularId(t, x, lo, hi) } }
// the first n of them
spec fn sem_RegularId_list(t: Toks, v: Seq<WithMetaData<String>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_RegularId(m, hi) && lo <= m < hi && sem_RegularId_list(t, v, n - 1, lo, m) && sem_RegularId(t, v[n - 1], m, hi) }
}
spec fn r_RegularId(lo: int, hi: int) -> bool { true }
spec fn r_RegularId_opt(lo: int, hi: int) -> bool { true }
spec fn r_RegularId_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_SpecialId(t: Toks, v: WithMetaData<String>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        ({ let s = v.node; (hi == lo + 1 && t[lo].tok == Token::<Seq<char>>::SpecialIdentifier(s@)) })
    )
}
broadcast proof fn i_sem_SpecialId(t: Toks, v: WithMetaData<String>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ({ let s = v.node; (hi == lo + 1 && t[lo].tok == Token::<Seq<char>>::SpecialIdentifier(s@)) })
    ),
    ensures #[trigger] sem_SpecialId(t, v, lo, hi),
{ reveal(sem_SpecialId); }
spec fn sem_SpecialId_opt(t: Toks, v: Option<WithMetaData<String>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_SpecialId(lo, hi) && sem_SpecialId(t, x, lo, hi) } }
// the first n of them
spec fn sem_SpecialId_list(t: Toks, v: Seq<WithMetaData<String>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_SpecialId(m, hi) && lo <= m < hi && sem_SpecialId_list(t, v, n - 1, lo, m) && sem_SpecialId(t, v[n - 1], m, hi) }
}
spec fn r_SpecialId(lo: int, hi: int) -> bool { true }
spec fn r_SpecialId_opt(lo: int, hi: int) -> bool { true }
spec fn r_SpecialId_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_TypeOrEnumLikeIdentifierId(t: Toks, v: WithMetaData<String>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        ({ let s = v.node; (hi == lo + 1 && t[lo].tok == Token::<Seq<char>>::CustomIdentifier(s@)) })
    )
}
broadcast proof fn i_sem_TypeOrEnumLikeIdentifierId(t: Toks, v: WithMetaData<String>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ({ let s = v.node; (hi == lo + 1 && t[lo].tok == Token::<Seq<char>>::CustomIdentifier(s@)) })
    ),
    ensures #[trigger] sem_TypeOrEnumLikeIdentifierId(t, v, lo, hi),
{ reveal(sem_TypeOrEnumLikeIdentifierId); }
spec fn sem_TypeOrEnumLikeIdentifierId_opt(t: Toks, v: Option<WithMetaData<String>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_TypeOrEnumLikeIdentifierId(lo, hi) && sem_TypeOrEnumLikeIdentifierId(t, x, lo, hi) } }
// the first n of them
spec fn sem_TypeOrEnumLikeIdentifierId_list(t: Toks, v: Seq<WithMetaData<String>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_TypeOrEnumLikeIdentifierId(m, hi) && lo <= m < hi && sem_TypeOrEnumLikeIdentifierId_list(t, v, n - 1, lo, m) && sem_TypeOrEnumLikeIdentifierId(t, v[n - 1], m, hi) }
}
spec fn r_TypeOrEnumLikeIdentifierId(lo: int, hi: int) -> bool { true }
spec fn r_TypeOrEnumLikeIdentifierId_opt(lo: int, hi: int) -> bool { true }
spec fn r_TypeOrEnumLikeIdentifierId_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_TemplateTypeId(t: Toks, v: WithMetaData<String>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        ({ let s = v.node; (hi == lo + 1 && t[lo].tok == Token::<Seq<char>>::TemplateIdentifier(s@)) })
    )
}
broadcast proof fn i_sem_TemplateTypeId(t: Toks, v: WithMetaData<String>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ({ let s = v.node; (hi == lo + 1 && t[lo].tok == Token::<Seq<char>>::TemplateIdentifier(s@)) })
    ),
    ensures #[trigger] sem_TemplateTypeId(t, v, lo, hi),
{ reveal(sem_TemplateTypeId); }
spec fn sem_TemplateTypeId_opt(t: Toks, v: Option<WithMetaData<String>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_TemplateTypeId(lo, hi) && sem_TemplateTypeId(t, x, lo, hi) } }
// the first n of them
spec fn sem_TemplateTypeId_list(t: Toks, v: Seq<WithMetaData<String>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_TemplateTypeId(m, hi) && lo <= m < hi && sem_TemplateTypeId_list(t, v, n - 1, lo, m) && sem_TemplateTypeId(t, v[n - 1], m, hi) }
}
spec fn r_TemplateTypeId(lo: int, hi: int) -> bool { true }
spec fn r_TemplateTypeId_opt(lo: int, hi: int) -> bool { true }
spec fn r_TemplateTypeId_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_StringLiteral(t: Toks, v: WithMetaData<String>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        ({ let s = v.node; (hi == lo + 1 && t[lo].tok == Token::<Seq<char>>::StringLiteral(s@)) })
    )
}
broadcast proof fn i_sem_StringLiteral(t: Toks, v: WithMetaData<String>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ({ let s = v.node; (hi == lo + 1 && t[lo].tok == Token::<Seq<char>>::StringLiteral(s@)) })
    ),
    ensures #[trigger] sem_StringLiteral(t, v, lo, hi),
{ reveal(sem_StringLiteral); }
spec fn sem_StringLiteral_opt(t: Toks, v: Option<WithMetaData<String>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_StringLiteral(lo, hi) && sem_StringLiteral(t, x, lo, hi) } }
// the first n of them
spec fn sem_StringLiteral_list(t: Toks, v: Seq<WithMetaData<String>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_StringLiteral(m, hi) && lo <= m < hi && sem_StringLiteral_list(t, v, n - 1, lo, m) && sem_StringLiteral(t, v[n - 1], m, hi) }
}
spec fn r_StringLiteral(lo: int, hi: int) -> bool { true }
spec fn r_StringLiteral_opt(lo: int, hi: int) -> bool { true }
spec fn r_StringLiteral_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_ByteString(t: Toks, v: NodeByteStr, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (match v { NodeByteStr::Type(s) => (hi == lo + 1 && t[lo].tok == Token::<Seq<char>>::ByStrWithSize(s.node@)), _ => false })
    )
}
broadcast proof fn i_sem_ByteString(t: Toks, v: NodeByteStr, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        (match v { NodeByteStr::Type(s) => (hi == lo + 1 && t[lo].tok == Token::<Seq<char>>::ByStrWithSize(s.node@)), _ => false })
    ),
    ensures #[trigger] sem_ByteString(t, v, lo, hi),
{ reveal(sem_ByteString); }
spec fn sem_ByteString_opt(t: Toks, v: Option<NodeByteStr>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_ByteString(lo, hi) && sem_ByteString(t, x, lo, hi) } }
// the first n of them
spec fn sem_ByteString_list(t: Toks, v: Seq<NodeByteStr>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_ByteString(m, hi) && lo <= m < hi && sem_ByteString_list(t, v, n - 1, lo, m) && sem_ByteString(t, v[n - 1], m, hi) }
}
spec fn r_ByteString(lo: int, hi: int) -> bool { true }
spec fn r_ByteString_opt(lo: int, hi: int) -> bool { true }
spec fn r_ByteString_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_TypeNameIdentifier(t: Toks, v: WithMetaData<NodeTypeNameIdentifier>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeTypeNameIdentifier::ByteStringType(b) => (lo < hi && r_ByteString(lo, hi) && sem_ByteString(t, b, lo, hi)), _ => false })
        || (match v.node { NodeTypeNameIdentifier::EventType => (hi == lo + 1 && t[lo].tok == Token::<Seq<char>>::EventType), _ => false })
        || (match v.node { NodeTypeNameIdentifier::TypeOrEnumLikeIdentifier(s) => (lo < hi && r_TypeOrEnumLikeIdentifierId(lo, hi) && sem_TypeOrEnumLikeIdentifierId(t, s, lo, hi)), _ => false })
    )
}
broadcast proof fn i_sem_TypeNameIdentifier(t: Toks, v: WithMetaData<NodeTypeNameIdentifier>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeTypeNameIdentifier::ByteStringType(b) => (lo < hi && r_ByteString(lo, hi) && sem_ByteString(t, b, lo, hi)), _ => false })
        || (match v.node { NodeTypeNameIdentifier::EventType => (hi == lo + 1 && t[lo].tok == Token::<Seq<char>>::EventType), _ => false })
        || (match v.node { NodeTypeNameIdentifier::TypeOrEnumLikeIdentifier(s) => (lo < hi && r_TypeOrEnumLikeIdentifierId(lo, hi) && sem_TypeOrEnumLikeIdentifierId(t, s, lo, hi)), _ => false })
    ),
    ensures #[trigger] sem_TypeNameIdentifier(t, v, lo, hi),
{ reveal(sem_ByteString); reveal(sem_TypeNameIdentifier); reveal(sem_TypeOrEnumLikeIdentifierId); }
spec fn sem_TypeNameIdentifier_opt(t: Toks, v: Option<WithMetaData<NodeTypeNameIdentifier>>, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{ match v { None => lo == hi, Some(x) => r_TypeNameIdentifier(lo, hi) && sem_TypeNameIdentifier(t, x, lo, hi) } }
// the first n of them
spec fn sem_TypeNameIdentifier_list(t: Toks, v: Seq<WithMetaData<NodeTypeNameIdentifier>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_TypeNameIdentifier(m, hi) && lo <= m < hi && sem_TypeNameIdentifier_list(t, v, n - 1, lo, m) && sem_TypeNameIdentifier(t, v[n - 1], m, hi) }
}
spec fn r_TypeNameIdentifier(lo: int, hi: int) -> bool { true }
spec fn r_TypeNameIdentifier_opt(lo: int, hi: int) -> bool { true }
spec fn r_TypeNameIdentifier_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_ImportedName(t: Toks, v: WithMetaData<NodeImportedName>, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeImportedName::RegularImport(a) => (lo < hi && r_TypeNameIdentifier(lo, hi) && sem_TypeNameIdentifier(t, a, lo, hi)), _ => false })
        || (match v.node { NodeImportedName::AliasedImport(a, b) => (exists|e0: int, s2: int| #![trigger r_TypeNameIdentifier(lo, e0), r_TypeNameIdentifier(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok == Token::<Seq<char>>::As && r_TypeNameIdentifier(lo, e0) && sem_TypeNameIdentifier(t, a, lo, e0) && r_TypeNameIdentifier(s2, hi) && sem_TypeNameIdentifier(t, b, s2, hi)), _ => false })
    )
}
broadcast proof fn i_sem_ImportedName(t: Toks, v: WithMetaData<NodeImportedName>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeImportedName::RegularImport(a) => (lo < hi && r_TypeNameIdentifier(lo, hi) && sem_TypeNameIdentifier(t, a, lo, hi)), _ => false })
        || (match v.node { NodeImportedName::AliasedImport(a, b) => (exists|e0: int, s2: int| #![trigger r_TypeNameIdentifier(lo, e0), r_TypeNameIdentifier(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok == Token::<Seq<char>>::As && r_TypeNameIdentifier(lo, e0) && sem_TypeNameIdentifier(t, a, lo, e0) && r_TypeNameIdentifier(s2, hi) && sem_TypeNameIdentifier(t, b, s2, hi)), _ => false })
    ),
    ensures #[trigger] sem_ImportedName(t, v, lo, hi),
{ reveal(sem_ImportedName); reveal(sem_TypeNameIdentifier); }
spec fn sem_ImportedName_opt(t: Toks, v: Option<WithMetaData<NodeImportedName>>, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{ match v { None => lo == hi, Some(x) => r_ImportedName(lo, hi) && sem_ImportedName(t, x, lo, hi) } }
// the first n of them
spec fn sem_ImportedName_list(t: Toks, v: Seq<WithMetaData<NodeImportedName>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_ImportedName(m, hi) && lo <= m < hi && sem_ImportedName_list(t, v, n - 1, lo, m) && sem_ImportedName(t, v[n - 1], m, hi) }
}
spec fn r_ImportedName(lo: int, hi: int) -> bool { true }
spec fn r_ImportedName_opt(lo: int, hi: int) -> bool { true }
spec fn r_ImportedName_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_ImportDeclarations(t: Toks, v: WithMetaData<NodeImportDeclarations>, lo: int, hi: int) -> bool
    decreases hi - lo, 5nat
{
    0 <= lo < hi <= t.len() && (
        { let d = v.node; r_imports(lo, hi) && sem_imports(t, d.import_list@, d.import_list@.len() as int, lo, hi) }
    )
}
broadcast proof fn i_sem_ImportDeclarations(t: Toks, v: WithMetaData<NodeImportDeclarations>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        { let d = v.node; r_imports(lo, hi) && sem_imports(t, d.import_list@, d.import_list@.len() as int, lo, hi) }
    ),
    ensures #[trigger] sem_ImportDeclarations(t, v, lo, hi),
{ reveal(sem_ImportDeclarations); }
spec fn sem_ImportDeclarations_opt(t: Toks, v: Option<WithMetaData<NodeImportDeclarations>>, lo: int, hi: int) -> bool
    decreases hi - lo, 6nat
{ match v { None => lo == hi, Some(x) => r_ImportDeclarations(lo, hi) && sem_ImportDeclarations(t, x, lo, hi) } }
// the first n of them
spec fn sem_ImportDeclarations_list(t: Toks, v: Seq<WithMetaData<NodeImportDeclarations>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 7nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_ImportDeclarations(m, hi) && lo <= m < hi && sem_ImportDeclarations_list(t, v, n - 1, lo, m) && sem_ImportDeclarations(t, v[n - 1], m, hi) }
}
spec fn r_ImportDeclarations(lo: int, hi: int) -> bool { true }
spec fn r_ImportDeclarations_opt(lo: int, hi: int) -> bool { true }
spec fn r_ImportDeclarations_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_MetaIdentifier(t: Toks, v: WithMetaData<NodeMetaIdentifier>, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeMetaIdentifier::MetaName(a) => (lo < hi && r_TypeNameIdentifier(lo, hi) && sem_TypeNameIdentifier(t, a, lo, hi)), _ => false })
        || (match v.node { NodeMetaIdentifier::MetaNameInNamespace(a, b) => (exists|e0: int, s2: int| #![trigger r_TypeNameIdentifier(lo, e0), r_TypeNameIdentifier(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok == Token::<Seq<char>>::Dot && r_TypeNameIdentifier(lo, e0) && sem_TypeNameIdentifier(t, a, lo, e0) && r_TypeNameIdentifier(s2, hi) && sem_TypeNameIdentifier(t, b, s2, hi)), _ => false })
        || (match v.node { NodeMetaIdentifier::MetaNameInHexspace(a, b) => (exists|e0: int, s2: int| #![trigger r_HexNumber(lo, e0), r_TypeNameIdentifier(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok == Token::<Seq<char>>::Dot && r_HexNumber(lo, e0) && sem_HexNumber(t, a, lo, e0) && r_TypeNameIdentifier(s2, hi) && sem_TypeNameIdentifier(t, b, s2, hi)), _ => false })
        || (match v.node { NodeMetaIdentifier::ByteString => (hi == lo + 1 && t[lo].tok == Token::<Seq<char>>::ByStr), _ => false })
    )
}
broadcast proof fn i_sem_MetaIdentifier(t: Toks, v: WithMetaData<NodeMetaIdentifier>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeMetaIdentifier::MetaName(a) => (lo < hi && r_TypeNameIdentifier(lo, hi) && sem_TypeNameIdentifier(t, a, lo, hi)), _ => false })
        || (match v.node { NodeMetaIdentifier::MetaNameInNamespace(a, b) => (exists|e0: int, s2: int| #![trigger r_TypeNameIdentifier(lo, e0), r_TypeNameIdentifier(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok == Token::<Seq<char>>::Dot && r_TypeNameIdentifier(lo, e0) && sem_TypeNameIdentifier(t, a, lo, e0) && r_TypeNameIdentifier(s2, hi) && sem_TypeNameIdentifier(t, b, s2, hi)), _ => false })
        || (match v.node { NodeMetaIdentifier::MetaNameInHexspace(a, b) => (exists|e0: int, s2: int| #![trigger r_HexNumber(lo, e0), r_TypeNameIdentifier(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok == Token::<Seq<char>>::Dot && r_HexNumber(lo, e0) && sem_HexNumber(t, a, lo, e0) && r_TypeNameIdentifier(s2, hi) && sem_TypeNameIdentifier(t, b, s2, hi)), _ => false })
        || (match v.node { NodeMetaIdentifier::ByteString => (hi == lo + 1 && t[lo].tok == Token::<Seq<char>>::ByStr), _ => false })
    ),
    ensures #[trigger] sem_MetaIdentifier(t, v, lo, hi),
{ reveal(sem_HexNumber); reveal(sem_MetaIdentifier); reveal(sem_TypeNameIdentifier); }
spec fn sem_MetaIdentifier_opt(t: Toks, v: Option<WithMetaData<NodeMetaIdentifier>>, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{ match v { None => lo == hi, Some(x) => r_MetaIdentifier(lo, hi) && sem_MetaIdentifier(t, x, lo, hi) } }
// the first n of them
spec fn sem_MetaIdentifier_list(t: Toks, v: Seq<WithMetaData<NodeMetaIdentifier>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_MetaIdentifier(m, hi) && lo <= m < hi && sem_MetaIdentifier_list(t, v, n - 1, lo, m) && sem_MetaIdentifier(t, v[n - 1], m, hi) }
}
spec fn r_MetaIdentifier(lo: int, hi: int) -> bool { true }
spec fn r_MetaIdentifier_opt(lo: int, hi: int) -> bool { true }
spec fn r_MetaIdentifier_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_VariableIdentifier(t: Toks, v: WithMetaData<NodeVariableIdentifier>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeVariableIdentifier::VariableName(a) => (lo < hi && r_RegularId(lo, hi) && sem_RegularId(t, a, lo, hi)), _ => false })
        || (match v.node { NodeVariableIdentifier::SpecialIdentifier(a) => (lo < hi && r_SpecialId(lo, hi) && sem_SpecialId(t, a, lo, hi)), _ => false })
        || (match v.node { NodeVariableIdentifier::VariableInNamespace(a, b) => (exists|e0: int, s2: int| #![trigger r_TypeNameIdentifier(lo, e0), r_RegularId(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok == Token::<Seq<char>>::Dot && r_TypeNameIdentifier(lo, e0) && sem_TypeNameIdentifier(t, a, lo, e0) && r_RegularId(s2, hi) && sem_RegularId(t, b, s2, hi)), _ => false })
    )
}
broadcast proof fn i_sem_VariableIdentifier(t: Toks, v: WithMetaData<NodeVariableIdentifier>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeVariableIdentifier::VariableName(a) => (lo < hi && r_RegularId(lo, hi) && sem_RegularId(t, a, lo, hi)), _ => false })
        || (match v.node { NodeVariableIdentifier::SpecialIdentifier(a) => (lo < hi && r_SpecialId(lo, hi) && sem_SpecialId(t, a, lo, hi)), _ => false })
        || (match v.node { NodeVariableIdentifier::VariableInNamespace(a, b) => (exists|e0: int, s2: int| #![trigger r_TypeNameIdentifier(lo, e0), r_RegularId(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok == Token::<Seq<char>>::Dot && r_TypeNameIdentifier(lo, e0) && sem_TypeNameIdentifier(t, a, lo, e0) && r_RegularId(s2, hi) && sem_RegularId(t, b, s2, hi)), _ => false })
    ),
    ensures #[trigger] sem_VariableIdentifier(t, v, lo, hi),
{ reveal(sem_RegularId); reveal(sem_SpecialId); reveal(sem_TypeNameIdentifier); reveal(sem_VariableIdentifier); }
spec fn sem_VariableIdentifier_opt(t: Toks, v: Option<WithMetaData<NodeVariableIdentifier>>, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{ match v { None => lo == hi, Some(x) => r_VariableIdentifier(lo, hi) && sem_VariableIdentifier(t, x, lo, hi) } }
// the first n of them
spec fn sem_VariableIdentifier_list(t: Toks, v: Seq<WithMetaData<NodeVariableIdentifier>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_VariableIdentifier(m, hi) && lo <= m < hi && sem_VariableIdentifier_list(t, v, n - 1, lo, m) && sem_VariableIdentifier(t, v[n - 1], m, hi) }
}
spec fn r_VariableIdentifier(lo: int, hi: int) -> bool { true }
spec fn r_VariableIdentifier_opt(lo: int, hi: int) -> bool { true }
spec fn r_VariableIdentifier_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_BuiltinArguments(t: Toks, v: WithMetaData<NodeBuiltinArguments>, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{
    0 <= lo < hi <= t.len() && (
        ({ let b = v.node; (lo < hi && r_VariableIdentifier_list(lo, hi) && sem_VariableIdentifier_list(t, b.arguments@, b.arguments@.len() as int, lo, hi)) })
        || ({ let b = v.node; (b.arguments@.len() == 0) && (hi == lo + 2 && t[lo].tok == Token::<Seq<char>>::OpenParen && t[lo + 1].tok == Token::<Seq<char>>::CloseParen) })
    )
}
broadcast proof fn i_sem_BuiltinArguments(t: Toks, v: WithMetaData<NodeBuiltinArguments>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ({ let b = v.node; (lo < hi && r_VariableIdentifier_list(lo, hi) && sem_VariableIdentifier_list(t, b.arguments@, b.arguments@.len() as int, lo, hi)) })
        || ({ let b = v.node; (b.arguments@.len() == 0) && (hi == lo + 2 && t[lo].tok == Token::<Seq<char>>::OpenParen && t[lo + 1].tok == Token::<Seq<char>>::CloseParen) })
    ),
    ensures #[trigger] sem_BuiltinArguments(t, v, lo, hi),
{ reveal(sem_BuiltinArguments); }
spec fn sem_BuiltinArguments_opt(t: Toks, v: Option<WithMetaData<NodeBuiltinArguments>>, lo: int, hi: int) -> bool
    decreases hi - lo, 5nat
{ match v { None => lo == hi, Some(x) => r_BuiltinArguments(lo, hi) && sem_BuiltinArguments(t, x, lo, hi) } }
// the first n of them
spec fn sem_BuiltinArguments_list(t: Toks, v: Seq<WithMetaData<NodeBuiltinArguments>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 6nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_BuiltinArguments(m, hi) && lo <= m < hi && sem_BuiltinArguments_list(t, v, n - 1, lo, m) && sem_BuiltinArguments(t, v[n - 1], m, hi) }
}
spec fn r_BuiltinArguments(lo: int, hi: int) -> bool { true }
spec fn r_BuiltinArguments_opt(lo: int, hi: int) -> bool { true }
spec fn r_BuiltinArguments_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_RemainingTypes(t: Toks, v: WithMetaData<NodeScillaType>, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeScillaType::GenericTypeWithArgs(m, a) => (exists|e0: int| #![trigger r_MetaIdentifier(lo, e0), r_TypeArgument_list(e0, hi)] lo < e0 && e0 <= hi && lo <= e0 <= hi && r_MetaIdentifier(lo, e0) && sem_MetaIdentifier(t, m, lo, e0) && r_TypeArgument_list(e0, hi) && sem_TypeArgument_list(t, a@, a@.len() as int, e0, hi)), _ => false })
        || (match v.node { NodeScillaType::MapType(k, w) => (exists|s1: int, e1: int| #![trigger r_TypeMapKey(s1, e1), r_TypeMapValue(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 < hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::Map && r_TypeMapKey(s1, e1) && sem_TypeMapKey(t, k, s1, e1) && r_TypeMapValue(e1, hi) && sem_TypeMapValue(t, w, e1, hi)), _ => false })
        || (match v.node { NodeScillaType::EnclosedType(a) => (exists|s1: int, e1: int| #![trigger r_ScillaType(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::OpenParen && t[e1].tok == Token::<Seq<char>>::CloseParen && r_ScillaType(s1, e1) && sem_ScillaType(t, *a, s1, e1)), _ => false })
        || (match v.node { NodeScillaType::ScillaAddresseType(a) => (lo < hi && r_AddressType(lo, hi) && sem_AddressType(t, *a, lo, hi)), _ => false })
        || (match v.node { NodeScillaType::PolyFunctionType(a, b) => (exists|s1: int, e1: int, s3: int| #![trigger r_TemplateTypeId(s1, e1), r_RemainingTypes(s3, hi)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && t[lo].tok == Token::<Seq<char>>::Forall && t[e1].tok == Token::<Seq<char>>::Dot && r_TemplateTypeId(s1, e1) && sem_TemplateTypeId(t, a, s1, e1) && r_RemainingTypes(s3, hi) && sem_RemainingTypes(t, *b, s3, hi)), _ => false })
        || (match v.node { NodeScillaType::TypeVarType(a) => (lo < hi && r_TemplateTypeId(lo, hi) && sem_TemplateTypeId(t, a, lo, hi)), _ => false })
    )
}
broadcast proof fn i_sem_RemainingTypes(t: Toks, v: WithMetaData<NodeScillaType>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeScillaType::GenericTypeWithArgs(m, a) => (exists|e0: int| #![trigger r_MetaIdentifier(lo, e0), r_TypeArgument_list(e0, hi)] lo < e0 && e0 <= hi && lo <= e0 <= hi && r_MetaIdentifier(lo, e0) && sem_MetaIdentifier(t, m, lo, e0) && r_TypeArgument_list(e0, hi) && sem_TypeArgument_list(t, a@, a@.len() as int, e0, hi)), _ => false })
        || (match v.node { NodeScillaType::MapType(k, w) => (exists|s1: int, e1: int| #![trigger r_TypeMapKey(s1, e1), r_TypeMapValue(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 < hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::Map && r_TypeMapKey(s1, e1) && sem_TypeMapKey(t, k, s1, e1) && r_TypeMapValue(e1, hi) && sem_TypeMapValue(t, w, e1, hi)), _ => false })
        || (match v.node { NodeScillaType::EnclosedType(a) => (exists|s1: int, e1: int| #![trigger r_ScillaType(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::OpenParen && t[e1].tok == Token::<Seq<char>>::CloseParen && r_ScillaType(s1, e1) && sem_ScillaType(t, *a, s1, e1)), _ => false })
        || (match v.node { NodeScillaType::ScillaAddresseType(a) => (lo < hi && r_AddressType(lo, hi) && sem_AddressType(t, *a, lo, hi)), _ => false })
        || (match v.node { NodeScillaType::PolyFunctionType(a, b) => (exists|s1: int, e1: int, s3: int| #![trigger r_TemplateTypeId(s1, e1), r_RemainingTypes(s3, hi)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && t[lo].tok == Token::<Seq<char>>::Forall && t[e1].tok == Token::<Seq<char>>::Dot && r_TemplateTypeId(s1, e1) && sem_TemplateTypeId(t, a, s1, e1) && r_RemainingTypes(s3, hi) && sem_RemainingTypes(t, *b, s3, hi)), _ => false })
        || (match v.node { NodeScillaType::TypeVarType(a) => (lo < hi && r_TemplateTypeId(lo, hi) && sem_TemplateTypeId(t, a, lo, hi)), _ => false })
    ),
    ensures #[trigger] sem_RemainingTypes(t, v, lo, hi),
{ reveal(sem_AddressType); reveal(sem_MetaIdentifier); reveal(sem_RemainingTypes); reveal(sem_ScillaType); reveal(sem_TemplateTypeId); reveal(sem_TypeMapKey); reveal(sem_TypeMapValue); }
spec fn sem_RemainingTypes_opt(t: Toks, v: Option<WithMetaData<NodeScillaType>>, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{ match v { None => lo == hi, Some(x) => r_RemainingTypes(lo, hi) && sem_RemainingTypes(t, x, lo, hi) } }
// the first n of them
spec fn sem_RemainingTypes_list(t: Toks, v: Seq<WithMetaData<NodeScillaType>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 5nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_RemainingTypes(m, hi) && lo <= m < hi && sem_RemainingTypes_list(t, v, n - 1, lo, m) && sem_RemainingTypes(t, v[n - 1], m, hi) }
}
spec fn r_RemainingTypes(lo: int, hi: int) -> bool { true }
spec fn r_RemainingTypes_opt(lo: int, hi: int) -> bool { true }
spec fn r_RemainingTypes_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_FunctionSignature(t: Toks, v: WithMetaData<NodeScillaType>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeScillaType::FunctionType(a, b) => (exists|e0: int, s2: int| #![trigger r_RemainingTypes(lo, e0), r_FunctionSignature(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok == Token::<Seq<char>>::Arrow && r_RemainingTypes(lo, e0) && sem_RemainingTypes(t, *a, lo, e0) && r_FunctionSignature(s2, hi) && sem_FunctionSignature(t, *b, s2, hi)), _ => false })
        || (match v.node { NodeScillaType::FunctionType(a, b) => (exists|e0: int, s2: int| #![trigger r_RemainingTypes(lo, e0), r_RemainingTypes(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok == Token::<Seq<char>>::Arrow && r_RemainingTypes(lo, e0) && sem_RemainingTypes(t, *a, lo, e0) && r_RemainingTypes(s2, hi) && sem_RemainingTypes(t, *b, s2, hi)), _ => false })
    )
}
broadcast proof fn i_sem_FunctionSignature(t: Toks, v: WithMetaData<NodeScillaType>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeScillaType::FunctionType(a, b) => (exists|e0: int, s2: int| #![trigger r_RemainingTypes(lo, e0), r_FunctionSignature(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok == Token::<Seq<char>>::Arrow && r_RemainingTypes(lo, e0) && sem_RemainingTypes(t, *a, lo, e0) && r_FunctionSignature(s2, hi) && sem_FunctionSignature(t, *b, s2, hi)), _ => false })
        || (match v.node { NodeScillaType::FunctionType(a, b) => (exists|e0: int, s2: int| #![trigger r_RemainingTypes(lo, e0), r_RemainingTypes(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok == Token::<Seq<char>>::Arrow && r_RemainingTypes(lo, e0) && sem_RemainingTypes(t, *a, lo, e0) && r_RemainingTypes(s2, hi) && sem_RemainingTypes(t, *b, s2, hi)), _ => false })
    ),
    ensures #[trigger] sem_FunctionSignature(t, v, lo, hi),
{ reveal(sem_FunctionSignature); reveal(sem_RemainingTypes); }
spec fn sem_FunctionSignature_opt(t: Toks, v: Option<WithMetaData<NodeScillaType>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_FunctionSignature(lo, hi) && sem_FunctionSignature(t, x, lo, hi) } }
// the first n of them
spec fn sem_FunctionSignature_list(t: Toks, v: Seq<WithMetaData<NodeScillaType>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_FunctionSignature(m, hi) && lo <= m < hi && sem_FunctionSignature_list(t, v, n - 1, lo, m) && sem_FunctionSignature(t, v[n - 1], m, hi) }
}
spec fn r_FunctionSignature(lo: int, hi: int) -> bool { true }
spec fn r_FunctionSignature_opt(lo: int, hi: int) -> bool { true }
spec fn r_FunctionSignature_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_ScillaType(t: Toks, v: WithMetaData<NodeScillaType>, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{
    0 <= lo < hi <= t.len() && (
        ((lo < hi && r_FunctionSignature(lo, hi) && sem_FunctionSignature(t, v, lo, hi)))
        || ((lo < hi && r_RemainingTypes(lo, hi) && sem_RemainingTypes(t, v, lo, hi)))
    )
}
broadcast proof fn i_sem_ScillaType(t: Toks, v: WithMetaData<NodeScillaType>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ((lo < hi && r_FunctionSignature(lo, hi) && sem_FunctionSignature(t, v, lo, hi)))
        || ((lo < hi && r_RemainingTypes(lo, hi) && sem_RemainingTypes(t, v, lo, hi)))
    ),
    ensures #[trigger] sem_ScillaType(t, v, lo, hi),
{ reveal(sem_FunctionSignature); reveal(sem_RemainingTypes); reveal(sem_ScillaType); }
spec fn sem_ScillaType_opt(t: Toks, v: Option<WithMetaData<NodeScillaType>>, lo: int, hi: int) -> bool
    decreases hi - lo, 5nat
{ match v { None => lo == hi, Some(x) => r_ScillaType(lo, hi) && sem_ScillaType(t, x, lo, hi) } }
// the first n of them
spec fn sem_ScillaType_list(t: Toks, v: Seq<WithMetaData<NodeScillaType>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 6nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_ScillaType(m, hi) && lo <= m < hi && sem_ScillaType_list(t, v, n - 1, lo, m) && sem_ScillaType(t, v[n - 1], m, hi) }
}
spec fn r_ScillaType(lo: int, hi: int) -> bool { true }
spec fn r_ScillaType_opt(lo: int, hi: int) -> bool { true }
spec fn r_ScillaType_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_TypeArgument(t: Toks, v: WithMetaData<NodeTypeArgument>, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeTypeArgument::EnclosedTypeArgument(a) => (exists|s1: int, e1: int| #![trigger r_ScillaType(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::OpenParen && t[e1].tok == Token::<Seq<char>>::CloseParen && r_ScillaType(s1, e1) && sem_ScillaType(t, *a, s1, e1)), _ => false })
        || (match v.node { NodeTypeArgument::GenericTypeArgument(a) => (lo < hi && r_MetaIdentifier(lo, hi) && sem_MetaIdentifier(t, a, lo, hi)), _ => false })
        || (match v.node { NodeTypeArgument::TemplateTypeArgument(a) => (lo < hi && r_TemplateTypeId(lo, hi) && sem_TemplateTypeId(t, a, lo, hi)), _ => false })
        || (match v.node { NodeTypeArgument::AddressTypeArgument(a) => (lo < hi && r_AddressType(lo, hi) && sem_AddressType(t, a, lo, hi)), _ => false })
        || (match v.node { NodeTypeArgument::MapTypeArgument(a, b) => (exists|s1: int, e1: int| #![trigger r_TypeMapKey(s1, e1), r_TypeMapValue(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 < hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::Map && r_TypeMapKey(s1, e1) && sem_TypeMapKey(t, a, s1, e1) && r_TypeMapValue(e1, hi) && sem_TypeMapValue(t, b, e1, hi)), _ => false })
    )
}
broadcast proof fn i_sem_TypeArgument(t: Toks, v: WithMetaData<NodeTypeArgument>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeTypeArgument::EnclosedTypeArgument(a) => (exists|s1: int, e1: int| #![trigger r_ScillaType(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::OpenParen && t[e1].tok == Token::<Seq<char>>::CloseParen && r_ScillaType(s1, e1) && sem_ScillaType(t, *a, s1, e1)), _ => false })
        || (match v.node { NodeTypeArgument::GenericTypeArgument(a) => (lo < hi && r_MetaIdentifier(lo, hi) && sem_MetaIdentifier(t, a, lo, hi)), _ => false })
        || (match v.node { NodeTypeArgument::TemplateTypeArgument(a) => (lo < hi && r_TemplateTypeId(lo, hi) && sem_TemplateTypeId(t, a, lo, hi)), _ => false })
        || (match v.node { NodeTypeArgument::AddressTypeArgument(a) => (lo < hi && r_AddressType(lo, hi) && sem_AddressType(t, a, lo, hi)), _ => false })
        || (match v.node { NodeTypeArgument::MapTypeArgument(a, b) => (exists|s1: int, e1: int| #![trigger r_TypeMapKey(s1, e1), r_TypeMapValue(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 < hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::Map && r_TypeMapKey(s1, e1) && sem_TypeMapKey(t, a, s1, e1) && r_TypeMapValue(e1, hi) && sem_TypeMapValue(t, b, e1, hi)), _ => false })
    ),
    ensures #[trigger] sem_TypeArgument(t, v, lo, hi),
{ reveal(sem_AddressType); reveal(sem_MetaIdentifier); reveal(sem_ScillaType); reveal(sem_TemplateTypeId); reveal(sem_TypeArgument); reveal(sem_TypeMapKey); reveal(sem_TypeMapValue); }
spec fn sem_TypeArgument_opt(t: Toks, v: Option<WithMetaData<NodeTypeArgument>>, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{ match v { None => lo == hi, Some(x) => r_TypeArgument(lo, hi) && sem_TypeArgument(t, x, lo, hi) } }
// the first n of them
spec fn sem_TypeArgument_list(t: Toks, v: Seq<WithMetaData<NodeTypeArgument>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 5nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_TypeArgument(m, hi) && lo <= m < hi && sem_TypeArgument_list(t, v, n - 1, lo, m) && sem_TypeArgument(t, v[n - 1], m, hi) }
}
spec fn r_TypeArgument(lo: int, hi: int) -> bool { true }
spec fn r_TypeArgument_opt(lo: int, hi: int) -> bool { true }
spec fn r_TypeArgument_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_AddressType(t: Toks, v: WithMetaData<NodeAddressType>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        ({ let a = v.node; (a.type_name.node@.len() == 0 && a.address_fields@.len() == 0) && (exists|e0: int| #![trigger r_TypeNameIdentifier(lo, e0)] lo < e0 && hi == e0 + 2 && lo <= e0 <= hi && t[e0].tok == Token::<Seq<char>>::With && t[e0 + 1].tok == Token::<Seq<char>>::End && r_TypeNameIdentifier(lo, e0) && sem_TypeNameIdentifier(t, a.identifier, lo, e0)) })
        || ({ let a = v.node; (a.type_name.node@ == "contract"@ && a.address_fields@.len() == 0) && (exists|e0: int| #![trigger r_TypeNameIdentifier(lo, e0)] lo < e0 && hi == e0 + 3 && lo <= e0 <= hi && t[e0].tok == Token::<Seq<char>>::With && t[e0 + 1].tok == Token::<Seq<char>>::Contract && t[e0 + 2].tok == Token::<Seq<char>>::End && r_TypeNameIdentifier(lo, e0) && sem_TypeNameIdentifier(t, a.identifier, lo, e0)) })
        || ({ let a = v.node; (a.type_name.node@ == "contract"@) && (exists|e0: int, s3: int, e3: int| #![trigger r_TypeNameIdentifier(lo, e0), r_AddressTypeFieldList(s3, e3)] lo < e0 && s3 == e0 + 2 && s3 < e3 && hi == e3 + 1 && lo <= e0 <= hi && lo <= s3 <= hi && lo <= e3 <= hi && t[e0].tok == Token::<Seq<char>>::With && t[e0 + 1].tok == Token::<Seq<char>>::Contract && t[e3].tok == Token::<Seq<char>>::End && r_TypeNameIdentifier(lo, e0) && sem_TypeNameIdentifier(t, a.identifier, lo, e0) && r_AddressTypeFieldList(s3, e3) && sem_AddressTypeFieldList(t, a.address_fields, s3, e3)) })
        || ({ let a = v.node; (a.type_name.node@ == "library"@ && a.address_fields@.len() == 0) && (exists|e0: int| #![trigger r_TypeNameIdentifier(lo, e0)] lo < e0 && hi == e0 + 3 && lo <= e0 <= hi && t[e0].tok == Token::<Seq<char>>::With && t[e0 + 1].tok == Token::<Seq<char>>::Library && t[e0 + 2].tok == Token::<Seq<char>>::End && r_TypeNameIdentifier(lo, e0) && sem_TypeNameIdentifier(t, a.identifier, lo, e0)) })
        || ({ let a = v.node; (a.address_fields@.len() == 0) && (exists|e0: int, s2: int, e2: int| #![trigger r_TypeNameIdentifier(lo, e0), r_SpecialId(s2, e2)] lo < e0 && s2 == e0 + 1 && s2 < e2 && hi == e2 + 1 && lo <= e0 <= hi && lo <= s2 <= hi && lo <= e2 <= hi && t[e0].tok == Token::<Seq<char>>::With && t[e2].tok == Token::<Seq<char>>::End && r_TypeNameIdentifier(lo, e0) && sem_TypeNameIdentifier(t, a.identifier, lo, e0) && r_SpecialId(s2, e2) && sem_SpecialId(t, a.type_name, s2, e2)) })
    )
}
broadcast proof fn i_sem_AddressType(t: Toks, v: WithMetaData<NodeAddressType>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ({ let a = v.node; (a.type_name.node@.len() == 0 && a.address_fields@.len() == 0) && (exists|e0: int| #![trigger r_TypeNameIdentifier(lo, e0)] lo < e0 && hi == e0 + 2 && lo <= e0 <= hi && t[e0].tok == Token::<Seq<char>>::With && t[e0 + 1].tok == Token::<Seq<char>>::End && r_TypeNameIdentifier(lo, e0) && sem_TypeNameIdentifier(t, a.identifier, lo, e0)) })
        || ({ let a = v.node; (a.type_name.node@ == "contract"@ && a.address_fields@.len() == 0) && (exists|e0: int| #![trigger r_TypeNameIdentifier(lo, e0)] lo < e0 && hi == e0 + 3 && lo <= e0 <= hi && t[e0].tok == Token::<Seq<char>>::With && t[e0 + 1].tok == Token::<Seq<char>>::Contract && t[e0 + 2].tok == Token::<Seq<char>>::End && r_TypeNameIdentifier(lo, e0) && sem_TypeNameIdentifier(t, a.identifier, lo, e0)) })
        || ({ let a = v.node; (a.type_name.node@ == "contract"@) && (exists|e0: int, s3: int, e3: int| #![trigger r_TypeNameIdentifier(lo, e0), r_AddressTypeFieldList(s3, e3)] lo < e0 && s3 == e0 + 2 && s3 < e3 && hi == e3 + 1 && lo <= e0 <= hi && lo <= s3 <= hi && lo <= e3 <= hi && t[e0].tok == Token::<Seq<char>>::With && t[e0 + 1].tok == Token::<Seq<char>>::Contract && t[e3].tok == Token::<Seq<char>>::End && r_TypeNameIdentifier(lo, e0) && sem_TypeNameIdentifier(t, a.identifier, lo, e0) && r_AddressTypeFieldList(s3, e3) && sem_AddressTypeFieldList(t, a.address_fields, s3, e3)) })
        || ({ let a = v.node; (a.type_name.node@ == "library"@ && a.address_fields@.len() == 0) && (exists|e0: int| #![trigger r_TypeNameIdentifier(lo, e0)] lo < e0 && hi == e0 + 3 && lo <= e0 <= hi && t[e0].tok == Token::<Seq<char>>::With && t[e0 + 1].tok == Token::<Seq<char>>::Library && t[e0 + 2].tok == Token::<Seq<char>>::End && r_TypeNameIdentifier(lo, e0) && sem_TypeNameIdentifier(t, a.identifier, lo, e0)) })
        || ({ let a = v.node; (a.address_fields@.len() == 0) && (exists|e0: int, s2: int, e2: int| #![trigger r_TypeNameIdentifier(lo, e0), r_SpecialId(s2, e2)] lo < e0 && s2 == e0 + 1 && s2 < e2 && hi == e2 + 1 && lo <= e0 <= hi && lo <= s2 <= hi && lo <= e2 <= hi && t[e0].tok == Token::<Seq<char>>::With && t[e2].tok == Token::<Seq<char>>::End && r_TypeNameIdentifier(lo, e0) && sem_TypeNameIdentifier(t, a.identifier, lo, e0) && r_SpecialId(s2, e2) && sem_SpecialId(t, a.type_name, s2, e2)) })
    ),
    ensures #[trigger] sem_AddressType(t, v, lo, hi),
{ reveal(sem_AddressType); reveal(sem_AddressTypeFieldList); reveal(sem_SpecialId); reveal(sem_TypeNameIdentifier); }
spec fn sem_AddressType_opt(t: Toks, v: Option<WithMetaData<NodeAddressType>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_AddressType(lo, hi) && sem_AddressType(t, x, lo, hi) } }
// the first n of them
spec fn sem_AddressType_list(t: Toks, v: Seq<WithMetaData<NodeAddressType>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_AddressType(m, hi) && lo <= m < hi && sem_AddressType_list(t, v, n - 1, lo, m) && sem_AddressType(t, v[n - 1], m, hi) }
}
spec fn r_AddressType(lo: int, hi: int) -> bool { true }
spec fn r_AddressType_opt(lo: int, hi: int) -> bool { true }
spec fn r_AddressType_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_AddressTypeFieldList(t: Toks, v: Vec<WithMetaData<NodeAddressTypeField>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{
    0 <= lo < hi <= t.len() && (
        ({ let f = v; (f@.len() >= 1) && (exists|e0: int| #![trigger r_AddressTypeField(lo, e0), r_NextAddressTypeField_list(e0, hi)] lo < e0 && e0 <= hi && lo <= e0 <= hi && r_AddressTypeField(lo, e0) && sem_AddressTypeField(t, f@[0], lo, e0) && r_NextAddressTypeField_list(e0, hi) && sem_NextAddressTypeField_list(t, tail(f@), tail(f@).len() as int, e0, hi)) })
    )
}
broadcast proof fn i_sem_AddressTypeFieldList(t: Toks, v: Vec<WithMetaData<NodeAddressTypeField>>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ({ let f = v; (f@.len() >= 1) && (exists|e0: int| #![trigger r_AddressTypeField(lo, e0), r_NextAddressTypeField_list(e0, hi)] lo < e0 && e0 <= hi && lo <= e0 <= hi && r_AddressTypeField(lo, e0) && sem_AddressTypeField(t, f@[0], lo, e0) && r_NextAddressTypeField_list(e0, hi) && sem_NextAddressTypeField_list(t, tail(f@), tail(f@).len() as int, e0, hi)) })
    ),
    ensures #[trigger] sem_AddressTypeFieldList(t, v, lo, hi),
{ reveal(sem_AddressTypeField); reveal(sem_AddressTypeFieldList); }
spec fn sem_AddressTypeFieldList_opt(t: Toks, v: Option<Vec<WithMetaData<NodeAddressTypeField>>>, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{ match v { None => lo == hi, Some(x) => r_AddressTypeFieldList(lo, hi) && sem_AddressTypeFieldList(t, x, lo, hi) } }
// the first n of them
spec fn sem_AddressTypeFieldList_list(t: Toks, v: Seq<Vec<WithMetaData<NodeAddressTypeField>>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_AddressTypeFieldList(m, hi) && lo <= m < hi && sem_AddressTypeFieldList_list(t, v, n - 1, lo, m) && sem_AddressTypeFieldList(t, v[n - 1], m, hi) }
}
spec fn r_AddressTypeFieldList(lo: int, hi: int) -> bool { true }
spec fn r_AddressTypeFieldList_opt(lo: int, hi: int) -> bool { true }
spec fn r_AddressTypeFieldList_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_NextAddressTypeField(t: Toks, v: WithMetaData<NodeAddressTypeField>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        ((exists|s1: int| #![trigger r_AddressTypeField(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok == Token::<Seq<char>>::Comma && r_AddressTypeField(s1, hi) && sem_AddressTypeField(t, v, s1, hi)))
    )
}
broadcast proof fn i_sem_NextAddressTypeField(t: Toks, v: WithMetaData<NodeAddressTypeField>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ((exists|s1: int| #![trigger r_AddressTypeField(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok == Token::<Seq<char>>::Comma && r_AddressTypeField(s1, hi) && sem_AddressTypeField(t, v, s1, hi)))
    ),
    ensures #[trigger] sem_NextAddressTypeField(t, v, lo, hi),
{ reveal(sem_AddressTypeField); reveal(sem_NextAddressTypeField); }
spec fn sem_NextAddressTypeField_opt(t: Toks, v: Option<WithMetaData<NodeAddressTypeField>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_NextAddressTypeField(lo, hi) && sem_NextAddressTypeField(t, x, lo, hi) } }
// the first n of them
spec fn sem_NextAddressTypeField_list(t: Toks, v: Seq<WithMetaData<NodeAddressTypeField>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_NextAddressTypeField(m, hi) && lo <= m < hi && sem_NextAddressTypeField_list(t, v, n - 1, lo, m) && sem_NextAddressTypeField(t, v[n - 1], m, hi) }
}
spec fn r_NextAddressTypeField(lo: int, hi: int) -> bool { true }
spec fn r_NextAddressTypeField_opt(lo: int, hi: int) -> bool { true }
spec fn r_NextAddressTypeField_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_AddressTypeField(t: Toks, v: WithMetaData<NodeAddressTypeField>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        ({ let f = v.node; (exists|s1: int, e1: int, s3: int| #![trigger r_VariableIdentifier(s1, e1), r_ScillaType(s3, hi)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && t[lo].tok == Token::<Seq<char>>::Field && t[e1].tok == Token::<Seq<char>>::Colon && r_VariableIdentifier(s1, e1) && sem_VariableIdentifier(t, f.identifier, s1, e1) && r_ScillaType(s3, hi) && sem_ScillaType(t, f.type_name, s3, hi)) })
    )
}
broadcast proof fn i_sem_AddressTypeField(t: Toks, v: WithMetaData<NodeAddressTypeField>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ({ let f = v.node; (exists|s1: int, e1: int, s3: int| #![trigger r_VariableIdentifier(s1, e1), r_ScillaType(s3, hi)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && t[lo].tok == Token::<Seq<char>>::Field && t[e1].tok == Token::<Seq<char>>::Colon && r_VariableIdentifier(s1, e1) && sem_VariableIdentifier(t, f.identifier, s1, e1) && r_ScillaType(s3, hi) && sem_ScillaType(t, f.type_name, s3, hi)) })
    ),
    ensures #[trigger] sem_AddressTypeField(t, v, lo, hi),
{ reveal(sem_AddressTypeField); reveal(sem_ScillaType); reveal(sem_VariableIdentifier); }
spec fn sem_AddressTypeField_opt(t: Toks, v: Option<WithMetaData<NodeAddressTypeField>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_AddressTypeField(lo, hi) && sem_AddressTypeField(t, x, lo, hi) } }
// the first n of them
spec fn sem_AddressTypeField_list(t: Toks, v: Seq<WithMetaData<NodeAddressTypeField>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_AddressTypeField(m, hi) && lo <= m < hi && sem_AddressTypeField_list(t, v, n - 1, lo, m) && sem_AddressTypeField(t, v[n - 1], m, hi) }
}
spec fn r_AddressTypeField(lo: int, hi: int) -> bool { true }
spec fn r_AddressTypeField_opt(lo: int, hi: int) -> bool { true }
spec fn r_AddressTypeField_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_TypeMapKey(t: Toks, v: WithMetaData<NodeTypeMapKey>, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeTypeMapKey::GenericMapKey(a) => (lo < hi && r_MetaIdentifier(lo, hi) && sem_MetaIdentifier(t, a, lo, hi)), _ => false })
        || (match v.node { NodeTypeMapKey::EnclosedGenericId(a) => (exists|s1: int, e1: int| #![trigger r_MetaIdentifier(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::OpenParen && t[e1].tok == Token::<Seq<char>>::CloseParen && r_MetaIdentifier(s1, e1) && sem_MetaIdentifier(t, a, s1, e1)), _ => false })
        || (match v.node { NodeTypeMapKey::EnclosedAddressMapKeyType(a) => (exists|s1: int, e1: int| #![trigger r_AddressType(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::OpenParen && t[e1].tok == Token::<Seq<char>>::CloseParen && r_AddressType(s1, e1) && sem_AddressType(t, a, s1, e1)), _ => false })
        || (match v.node { NodeTypeMapKey::AddressMapKeyType(a) => (lo < hi && r_AddressType(lo, hi) && sem_AddressType(t, a, lo, hi)), _ => false })
    )
}
broadcast proof fn i_sem_TypeMapKey(t: Toks, v: WithMetaData<NodeTypeMapKey>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeTypeMapKey::GenericMapKey(a) => (lo < hi && r_MetaIdentifier(lo, hi) && sem_MetaIdentifier(t, a, lo, hi)), _ => false })
        || (match v.node { NodeTypeMapKey::EnclosedGenericId(a) => (exists|s1: int, e1: int| #![trigger r_MetaIdentifier(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::OpenParen && t[e1].tok == Token::<Seq<char>>::CloseParen && r_MetaIdentifier(s1, e1) && sem_MetaIdentifier(t, a, s1, e1)), _ => false })
        || (match v.node { NodeTypeMapKey::EnclosedAddressMapKeyType(a) => (exists|s1: int, e1: int| #![trigger r_AddressType(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::OpenParen && t[e1].tok == Token::<Seq<char>>::CloseParen && r_AddressType(s1, e1) && sem_AddressType(t, a, s1, e1)), _ => false })
        || (match v.node { NodeTypeMapKey::AddressMapKeyType(a) => (lo < hi && r_AddressType(lo, hi) && sem_AddressType(t, a, lo, hi)), _ => false })
    ),
    ensures #[trigger] sem_TypeMapKey(t, v, lo, hi),
{ reveal(sem_AddressType); reveal(sem_MetaIdentifier); reveal(sem_TypeMapKey); }
spec fn sem_TypeMapKey_opt(t: Toks, v: Option<WithMetaData<NodeTypeMapKey>>, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{ match v { None => lo == hi, Some(x) => r_TypeMapKey(lo, hi) && sem_TypeMapKey(t, x, lo, hi) } }
// the first n of them
spec fn sem_TypeMapKey_list(t: Toks, v: Seq<WithMetaData<NodeTypeMapKey>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 5nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_TypeMapKey(m, hi) && lo <= m < hi && sem_TypeMapKey_list(t, v, n - 1, lo, m) && sem_TypeMapKey(t, v[n - 1], m, hi) }
}
spec fn r_TypeMapKey(lo: int, hi: int) -> bool { true }
spec fn r_TypeMapKey_opt(lo: int, hi: int) -> bool { true }
spec fn r_TypeMapKey_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_TypeMapValue(t: Toks, v: WithMetaData<NodeTypeMapValue>, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeTypeMapValue::MapValueTypeOrEnumLikeIdentifier(a) => (lo < hi && r_MetaIdentifier(lo, hi) && sem_MetaIdentifier(t, a, lo, hi)), _ => false })
        || (match v.node { NodeTypeMapValue::MapKeyValue(e) => (exists|s1: int, e1: int| #![trigger r_TypeMapKey(s1, e1), r_TypeMapValue(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 < hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::Map && r_TypeMapKey(s1, e1) && sem_TypeMapKey(t, e.node.key, s1, e1) && r_TypeMapValue(e1, hi) && sem_TypeMapValue(t, e.node.value, e1, hi)), _ => false })
        || (match v.node { NodeTypeMapValue::MapValueParenthesizedType(a) => (exists|s1: int, e1: int| #![trigger r_TypeMapValueAllowingTypeArguments(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::OpenParen && t[e1].tok == Token::<Seq<char>>::CloseParen && r_TypeMapValueAllowingTypeArguments(s1, e1) && sem_TypeMapValueAllowingTypeArguments(t, *a, s1, e1)), _ => false })
        || (match v.node { NodeTypeMapValue::MapValueAddressType(a) => (lo < hi && r_AddressType(lo, hi) && sem_AddressType(t, *a, lo, hi)), _ => false })
    )
}
broadcast proof fn i_sem_TypeMapValue(t: Toks, v: WithMetaData<NodeTypeMapValue>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeTypeMapValue::MapValueTypeOrEnumLikeIdentifier(a) => (lo < hi && r_MetaIdentifier(lo, hi) && sem_MetaIdentifier(t, a, lo, hi)), _ => false })
        || (match v.node { NodeTypeMapValue::MapKeyValue(e) => (exists|s1: int, e1: int| #![trigger r_TypeMapKey(s1, e1), r_TypeMapValue(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 < hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::Map && r_TypeMapKey(s1, e1) && sem_TypeMapKey(t, e.node.key, s1, e1) && r_TypeMapValue(e1, hi) && sem_TypeMapValue(t, e.node.value, e1, hi)), _ => false })
        || (match v.node { NodeTypeMapValue::MapValueParenthesizedType(a) => (exists|s1: int, e1: int| #![trigger r_TypeMapValueAllowingTypeArguments(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::OpenParen && t[e1].tok == Token::<Seq<char>>::CloseParen && r_TypeMapValueAllowingTypeArguments(s1, e1) && sem_TypeMapValueAllowingTypeArguments(t, *a, s1, e1)), _ => false })
        || (match v.node { NodeTypeMapValue::MapValueAddressType(a) => (lo < hi && r_AddressType(lo, hi) && sem_AddressType(t, *a, lo, hi)), _ => false })
    ),
    ensures #[trigger] sem_TypeMapValue(t, v, lo, hi),
{ reveal(sem_AddressType); reveal(sem_MetaIdentifier); reveal(sem_TypeMapKey); reveal(sem_TypeMapValue); reveal(sem_TypeMapValueAllowingTypeArguments); }
spec fn sem_TypeMapValue_opt(t: Toks, v: Option<WithMetaData<NodeTypeMapValue>>, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{ match v { None => lo == hi, Some(x) => r_TypeMapValue(lo, hi) && sem_TypeMapValue(t, x, lo, hi) } }
// the first n of them
spec fn sem_TypeMapValue_list(t: Toks, v: Seq<WithMetaData<NodeTypeMapValue>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 5nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_TypeMapValue(m, hi) && lo <= m < hi && sem_TypeMapValue_list(t, v, n - 1, lo, m) && sem_TypeMapValue(t, v[n - 1], m, hi) }
}
spec fn r_TypeMapValue(lo: int, hi: int) -> bool { true }
spec fn r_TypeMapValue_opt(lo: int, hi: int) -> bool { true }
spec fn r_TypeMapValue_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_TypeMapValueArguments(t: Toks, v: WithMetaData<NodeTypeMapValueArguments>, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeTypeMapValueArguments::EnclosedTypeMapValue(a) => (exists|s1: int, e1: int| #![trigger r_TypeMapValueAllowingTypeArguments(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::OpenParen && t[e1].tok == Token::<Seq<char>>::CloseParen && r_TypeMapValueAllowingTypeArguments(s1, e1) && sem_TypeMapValueAllowingTypeArguments(t, *a, s1, e1)), _ => false })
        || (match v.node { NodeTypeMapValueArguments::GenericMapValueArgument(a) => (lo < hi && r_MetaIdentifier(lo, hi) && sem_MetaIdentifier(t, a, lo, hi)), _ => false })
        || (match v.node { NodeTypeMapValueArguments::MapKeyValueType(a, b) => (exists|s1: int, e1: int| #![trigger r_TypeMapKey(s1, e1), r_TypeMapValue(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 < hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::Map && r_TypeMapKey(s1, e1) && sem_TypeMapKey(t, a, s1, e1) && r_TypeMapValue(e1, hi) && sem_TypeMapValue(t, b, e1, hi)), _ => false })
    )
}
broadcast proof fn i_sem_TypeMapValueArguments(t: Toks, v: WithMetaData<NodeTypeMapValueArguments>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeTypeMapValueArguments::EnclosedTypeMapValue(a) => (exists|s1: int, e1: int| #![trigger r_TypeMapValueAllowingTypeArguments(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::OpenParen && t[e1].tok == Token::<Seq<char>>::CloseParen && r_TypeMapValueAllowingTypeArguments(s1, e1) && sem_TypeMapValueAllowingTypeArguments(t, *a, s1, e1)), _ => false })
        || (match v.node { NodeTypeMapValueArguments::GenericMapValueArgument(a) => (lo < hi && r_MetaIdentifier(lo, hi) && sem_MetaIdentifier(t, a, lo, hi)), _ => false })
        || (match v.node { NodeTypeMapValueArguments::MapKeyValueType(a, b) => (exists|s1: int, e1: int| #![trigger r_TypeMapKey(s1, e1), r_TypeMapValue(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 < hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::Map && r_TypeMapKey(s1, e1) && sem_TypeMapKey(t, a, s1, e1) && r_TypeMapValue(e1, hi) && sem_TypeMapValue(t, b, e1, hi)), _ => false })
    ),
    ensures #[trigger] sem_TypeMapValueArguments(t, v, lo, hi),
{ reveal(sem_MetaIdentifier); reveal(sem_TypeMapKey); reveal(sem_TypeMapValue); reveal(sem_TypeMapValueAllowingTypeArguments); reveal(sem_TypeMapValueArguments); }
spec fn sem_TypeMapValueArguments_opt(t: Toks, v: Option<WithMetaData<NodeTypeMapValueArguments>>, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{ match v { None => lo == hi, Some(x) => r_TypeMapValueArguments(lo, hi) && sem_TypeMapValueArguments(t, x, lo, hi) } }
// the first n of them
spec fn sem_TypeMapValueArguments_list(t: Toks, v: Seq<WithMetaData<NodeTypeMapValueArguments>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 5nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_TypeMapValueArguments(m, hi) && lo <= m < hi && sem_TypeMapValueArguments_list(t, v, n - 1, lo, m) && sem_TypeMapValueArguments(t, v[n - 1], m, hi) }
}
spec fn r_TypeMapValueArguments(lo: int, hi: int) -> bool { true }
spec fn r_TypeMapValueArguments_opt(lo: int, hi: int) -> bool { true }
spec fn r_TypeMapValueArguments_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_TypeMapValueAllowingTypeArguments(t: Toks, v: WithMetaData<NodeTypeMapValueAllowingTypeArguments>, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeTypeMapValueAllowingTypeArguments::TypeMapValueWithArgs(m, a) => (exists|e0: int| #![trigger r_MetaIdentifier(lo, e0), r_TypeMapValueArguments_list(e0, hi)] lo < e0 && e0 < hi && lo <= e0 <= hi && r_MetaIdentifier(lo, e0) && sem_MetaIdentifier(t, m, lo, e0) && r_TypeMapValueArguments_list(e0, hi) && sem_TypeMapValueArguments_list(t, a@, a@.len() as int, e0, hi)), _ => false })
        || (match v.node { NodeTypeMapValueAllowingTypeArguments::TypeMapValueNoArgs(a) => (lo < hi && r_TypeMapValue(lo, hi) && sem_TypeMapValue(t, a, lo, hi)), _ => false })
    )
}
broadcast proof fn i_sem_TypeMapValueAllowingTypeArguments(t: Toks, v: WithMetaData<NodeTypeMapValueAllowingTypeArguments>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeTypeMapValueAllowingTypeArguments::TypeMapValueWithArgs(m, a) => (exists|e0: int| #![trigger r_MetaIdentifier(lo, e0), r_TypeMapValueArguments_list(e0, hi)] lo < e0 && e0 < hi && lo <= e0 <= hi && r_MetaIdentifier(lo, e0) && sem_MetaIdentifier(t, m, lo, e0) && r_TypeMapValueArguments_list(e0, hi) && sem_TypeMapValueArguments_list(t, a@, a@.len() as int, e0, hi)), _ => false })
        || (match v.node { NodeTypeMapValueAllowingTypeArguments::TypeMapValueNoArgs(a) => (lo < hi && r_TypeMapValue(lo, hi) && sem_TypeMapValue(t, a, lo, hi)), _ => false })
    ),
    ensures #[trigger] sem_TypeMapValueAllowingTypeArguments(t, v, lo, hi),
{ reveal(sem_MetaIdentifier); reveal(sem_TypeMapValue); reveal(sem_TypeMapValueAllowingTypeArguments); }
spec fn sem_TypeMapValueAllowingTypeArguments_opt(t: Toks, v: Option<WithMetaData<NodeTypeMapValueAllowingTypeArguments>>, lo: int, hi: int) -> bool
    decreases hi - lo, 5nat
{ match v { None => lo == hi, Some(x) => r_TypeMapValueAllowingTypeArguments(lo, hi) && sem_TypeMapValueAllowingTypeArguments(t, x, lo, hi) } }
// the first n of them
spec fn sem_TypeMapValueAllowingTypeArguments_list(t: Toks, v: Seq<WithMetaData<NodeTypeMapValueAllowingTypeArguments>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 6nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_TypeMapValueAllowingTypeArguments(m, hi) && lo <= m < hi && sem_TypeMapValueAllowingTypeArguments_list(t, v, n - 1, lo, m) && sem_TypeMapValueAllowingTypeArguments(t, v[n - 1], m, hi) }
}
spec fn r_TypeMapValueAllowingTypeArguments(lo: int, hi: int) -> bool { true }
spec fn r_TypeMapValueAllowingTypeArguments_opt(lo: int, hi: int) -> bool { true }
spec fn r_TypeMapValueAllowingTypeArguments_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_Program(t: Toks, v: NodeProgram, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        ({ let p = v; (exists|s1: int, e1: int, e2: int, e3: int| #![trigger r_SignedInteger(s1, e1), r_ImportDeclarations_opt(e1, e2), r_LibraryDefinition_opt(e2, e3), r_ContractDefinition(e3, hi)] s1 == lo + 1 && s1 < e1 && e1 <= e2 && e2 <= e3 && e3 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && lo <= e3 <= hi && t[lo].tok == Token::<Seq<char>>::ScillaVersion && r_SignedInteger(s1, e1) && sem_SignedInteger(t, p.version, s1, e1) && r_ImportDeclarations_opt(e1, e2) && sem_ImportDeclarations_opt(t, p.import_declarations, e1, e2) && r_LibraryDefinition_opt(e2, e3) && sem_LibraryDefinition_opt(t, p.library_definition, e2, e3) && r_ContractDefinition(e3, hi) && sem_ContractDefinition(t, p.contract_definition, e3, hi)) })
    )
}
broadcast proof fn i_sem_Program(t: Toks, v: NodeProgram, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ({ let p = v; (exists|s1: int, e1: int, e2: int, e3: int| #![trigger r_SignedInteger(s1, e1), r_ImportDeclarations_opt(e1, e2), r_LibraryDefinition_opt(e2, e3), r_ContractDefinition(e3, hi)] s1 == lo + 1 && s1 < e1 && e1 <= e2 && e2 <= e3 && e3 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && lo <= e3 <= hi && t[lo].tok == Token::<Seq<char>>::ScillaVersion && r_SignedInteger(s1, e1) && sem_SignedInteger(t, p.version, s1, e1) && r_ImportDeclarations_opt(e1, e2) && sem_ImportDeclarations_opt(t, p.import_declarations, e1, e2) && r_LibraryDefinition_opt(e2, e3) && sem_LibraryDefinition_opt(t, p.library_definition, e2, e3) && r_ContractDefinition(e3, hi) && sem_ContractDefinition(t, p.contract_definition, e3, hi)) })
    ),
    ensures #[trigger] sem_Program(t, v, lo, hi),
{ reveal(sem_ContractDefinition); reveal(sem_Program); reveal(sem_SignedInteger); }
spec fn sem_Program_opt(t: Toks, v: Option<NodeProgram>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_Program(lo, hi) && sem_Program(t, x, lo, hi) } }
// the first n of them
spec fn sem_Program_list(t: Toks, v: Seq<NodeProgram>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_Program(m, hi) && lo <= m < hi && sem_Program_list(t, v, n - 1, lo, m) && sem_Program(t, v[n - 1], m, hi) }
}
spec fn r_Program(lo: int, hi: int) -> bool { true }
spec fn r_Program_opt(lo: int, hi: int) -> bool { true }
spec fn r_Program_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_LibraryDefinition(t: Toks, v: WithMetaData<NodeLibraryDefinition>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        ({ let l = v.node; (exists|s1: int, e1: int| #![trigger r_TypeNameIdentifier(s1, e1), r_LibrarySingleDefinition_list(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 <= hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::Library && r_TypeNameIdentifier(s1, e1) && sem_TypeNameIdentifier(t, l.name, s1, e1) && r_LibrarySingleDefinition_list(e1, hi) && sem_LibrarySingleDefinition_list(t, l.definitions@, l.definitions@.len() as int, e1, hi)) })
    )
}
broadcast proof fn i_sem_LibraryDefinition(t: Toks, v: WithMetaData<NodeLibraryDefinition>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ({ let l = v.node; (exists|s1: int, e1: int| #![trigger r_TypeNameIdentifier(s1, e1), r_LibrarySingleDefinition_list(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 <= hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::Library && r_TypeNameIdentifier(s1, e1) && sem_TypeNameIdentifier(t, l.name, s1, e1) && r_LibrarySingleDefinition_list(e1, hi) && sem_LibrarySingleDefinition_list(t, l.definitions@, l.definitions@.len() as int, e1, hi)) })
    ),
    ensures #[trigger] sem_LibraryDefinition(t, v, lo, hi),
{ reveal(sem_LibraryDefinition); reveal(sem_TypeNameIdentifier); }
spec fn sem_LibraryDefinition_opt(t: Toks, v: Option<WithMetaData<NodeLibraryDefinition>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_LibraryDefinition(lo, hi) && sem_LibraryDefinition(t, x, lo, hi) } }
// the first n of them
spec fn sem_LibraryDefinition_list(t: Toks, v: Seq<WithMetaData<NodeLibraryDefinition>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_LibraryDefinition(m, hi) && lo <= m < hi && sem_LibraryDefinition_list(t, v, n - 1, lo, m) && sem_LibraryDefinition(t, v[n - 1], m, hi) }
}
spec fn r_LibraryDefinition(lo: int, hi: int) -> bool { true }
spec fn r_LibraryDefinition_opt(lo: int, hi: int) -> bool { true }
spec fn r_LibraryDefinition_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_LibrarySingleDefinition(t: Toks, v: WithMetaData<NodeLibrarySingleDefinition>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeLibrarySingleDefinition::LetDefinition { variable_name, type_annotation, expression } => (exists|s1: int, e1: int, e2: int, s4: int| #![trigger r_RegularId(s1, e1), r_TypeAnnotation_opt(e1, e2), r_FullExpression(s4, hi)] s1 == lo + 1 && s1 < e1 && e1 <= e2 && s4 == e2 + 1 && s4 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && lo <= s4 <= hi && t[lo].tok == Token::<Seq<char>>::Let && t[e2].tok == Token::<Seq<char>>::Equals && r_RegularId(s1, e1) && sem_RegularId(t, variable_name, s1, e1) && r_TypeAnnotation_opt(e1, e2) && sem_TypeAnnotation_opt(t, type_annotation, e1, e2) && r_FullExpression(s4, hi) && sem_FullExpression(t, expression, s4, hi)), _ => false })
        || (match v.node { NodeLibrarySingleDefinition::TypeDefinition(a, None) => (exists|s1: int| #![trigger r_TypeNameIdentifier(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok == Token::<Seq<char>>::Type && r_TypeNameIdentifier(s1, hi) && sem_TypeNameIdentifier(t, a, s1, hi)), _ => false })
        || (match v.node { NodeLibrarySingleDefinition::TypeDefinition(a, Some(c)) => (exists|s1: int, e1: int, s3: int| #![trigger r_TypeNameIdentifier(s1, e1), r_TypeAlternativeClause_list(s3, hi)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && t[lo].tok == Token::<Seq<char>>::Type && t[e1].tok == Token::<Seq<char>>::Equals && r_TypeNameIdentifier(s1, e1) && sem_TypeNameIdentifier(t, a, s1, e1) && r_TypeAlternativeClause_list(s3, hi) && sem_TypeAlternativeClause_list(t, c@, c@.len() as int, s3, hi)), _ => false })
    )
}
broadcast proof fn i_sem_LibrarySingleDefinition(t: Toks, v: WithMetaData<NodeLibrarySingleDefinition>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeLibrarySingleDefinition::LetDefinition { variable_name, type_annotation, expression } => (exists|s1: int, e1: int, e2: int, s4: int| #![trigger r_RegularId(s1, e1), r_TypeAnnotation_opt(e1, e2), r_FullExpression(s4, hi)] s1 == lo + 1 && s1 < e1 && e1 <= e2 && s4 == e2 + 1 && s4 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && lo <= s4 <= hi && t[lo].tok == Token::<Seq<char>>::Let && t[e2].tok == Token::<Seq<char>>::Equals && r_RegularId(s1, e1) && sem_RegularId(t, variable_name, s1, e1) && r_TypeAnnotation_opt(e1, e2) && sem_TypeAnnotation_opt(t, type_annotation, e1, e2) && r_FullExpression(s4, hi) && sem_FullExpression(t, expression, s4, hi)), _ => false })
        || (match v.node { NodeLibrarySingleDefinition::TypeDefinition(a, None) => (exists|s1: int| #![trigger r_TypeNameIdentifier(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok == Token::<Seq<char>>::Type && r_TypeNameIdentifier(s1, hi) && sem_TypeNameIdentifier(t, a, s1, hi)), _ => false })
        || (match v.node { NodeLibrarySingleDefinition::TypeDefinition(a, Some(c)) => (exists|s1: int, e1: int, s3: int| #![trigger r_TypeNameIdentifier(s1, e1), r_TypeAlternativeClause_list(s3, hi)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && t[lo].tok == Token::<Seq<char>>::Type && t[e1].tok == Token::<Seq<char>>::Equals && r_TypeNameIdentifier(s1, e1) && sem_TypeNameIdentifier(t, a, s1, e1) && r_TypeAlternativeClause_list(s3, hi) && sem_TypeAlternativeClause_list(t, c@, c@.len() as int, s3, hi)), _ => false })
    ),
    ensures #[trigger] sem_LibrarySingleDefinition(t, v, lo, hi),
{ reveal(sem_FullExpression); reveal(sem_LibrarySingleDefinition); reveal(sem_RegularId); reveal(sem_TypeNameIdentifier); }
spec fn sem_LibrarySingleDefinition_opt(t: Toks, v: Option<WithMetaData<NodeLibrarySingleDefinition>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_LibrarySingleDefinition(lo, hi) && sem_LibrarySingleDefinition(t, x, lo, hi) } }
// the first n of them
spec fn sem_LibrarySingleDefinition_list(t: Toks, v: Seq<WithMetaData<NodeLibrarySingleDefinition>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_LibrarySingleDefinition(m, hi) && lo <= m < hi && sem_LibrarySingleDefinition_list(t, v, n - 1, lo, m) && sem_LibrarySingleDefinition(t, v[n - 1], m, hi) }
}
spec fn r_LibrarySingleDefinition(lo: int, hi: int) -> bool { true }
spec fn r_LibrarySingleDefinition_opt(lo: int, hi: int) -> bool { true }
spec fn r_LibrarySingleDefinition_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_TypedIdentifier(t: Toks, v: WithMetaData<NodeTypedIdentifier>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        ({ let i = v.node; (exists|e0: int| #![trigger r_RegularId(lo, e0), r_TypeAnnotation(e0, hi)] lo < e0 && e0 < hi && lo <= e0 <= hi && r_RegularId(lo, e0) && sem_RegularId(t, i.identifier_name, lo, e0) && r_TypeAnnotation(e0, hi) && sem_TypeAnnotation(t, i.annotation, e0, hi)) })
    )
}
broadcast proof fn i_sem_TypedIdentifier(t: Toks, v: WithMetaData<NodeTypedIdentifier>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ({ let i = v.node; (exists|e0: int| #![trigger r_RegularId(lo, e0), r_TypeAnnotation(e0, hi)] lo < e0 && e0 < hi && lo <= e0 <= hi && r_RegularId(lo, e0) && sem_RegularId(t, i.identifier_name, lo, e0) && r_TypeAnnotation(e0, hi) && sem_TypeAnnotation(t, i.annotation, e0, hi)) })
    ),
    ensures #[trigger] sem_TypedIdentifier(t, v, lo, hi),
{ reveal(sem_RegularId); reveal(sem_TypeAnnotation); reveal(sem_TypedIdentifier); }
spec fn sem_TypedIdentifier_opt(t: Toks, v: Option<WithMetaData<NodeTypedIdentifier>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_TypedIdentifier(lo, hi) && sem_TypedIdentifier(t, x, lo, hi) } }
// the first n of them
spec fn sem_TypedIdentifier_list(t: Toks, v: Seq<WithMetaData<NodeTypedIdentifier>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_TypedIdentifier(m, hi) && lo <= m < hi && sem_TypedIdentifier_list(t, v, n - 1, lo, m) && sem_TypedIdentifier(t, v[n - 1], m, hi) }
}
spec fn r_TypedIdentifier(lo: int, hi: int) -> bool { true }
spec fn r_TypedIdentifier_opt(lo: int, hi: int) -> bool { true }
spec fn r_TypedIdentifier_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_TypeAnnotation(t: Toks, v: WithMetaData<NodeTypeAnnotation>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        ({ let a = v.node; (exists|s1: int| #![trigger r_ScillaType(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok == Token::<Seq<char>>::Colon && r_ScillaType(s1, hi) && sem_ScillaType(t, a.type_name, s1, hi)) })
    )
}
broadcast proof fn i_sem_TypeAnnotation(t: Toks, v: WithMetaData<NodeTypeAnnotation>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ({ let a = v.node; (exists|s1: int| #![trigger r_ScillaType(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok == Token::<Seq<char>>::Colon && r_ScillaType(s1, hi) && sem_ScillaType(t, a.type_name, s1, hi)) })
    ),
    ensures #[trigger] sem_TypeAnnotation(t, v, lo, hi),
{ reveal(sem_ScillaType); reveal(sem_TypeAnnotation); }
spec fn sem_TypeAnnotation_opt(t: Toks, v: Option<WithMetaData<NodeTypeAnnotation>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_TypeAnnotation(lo, hi) && sem_TypeAnnotation(t, x, lo, hi) } }
// the first n of them
spec fn sem_TypeAnnotation_list(t: Toks, v: Seq<WithMetaData<NodeTypeAnnotation>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_TypeAnnotation(m, hi) && lo <= m < hi && sem_TypeAnnotation_list(t, v, n - 1, lo, m) && sem_TypeAnnotation(t, v[n - 1], m, hi) }
}
spec fn r_TypeAnnotation(lo: int, hi: int) -> bool { true }
spec fn r_TypeAnnotation_opt(lo: int, hi: int) -> bool { true }
spec fn r_TypeAnnotation_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_TypeAlternativeClause(t: Toks, v: WithMetaData<NodeTypeAlternativeClause>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeTypeAlternativeClause::ClauseType(a) => (exists|s1: int| #![trigger r_TypeNameIdentifier(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok == Token::<Seq<char>>::Pipe && r_TypeNameIdentifier(s1, hi) && sem_TypeNameIdentifier(t, a, s1, hi)), _ => false })
        || (match v.node { NodeTypeAlternativeClause::ClauseTypeWithArgs(a, b) => (exists|s1: int, e1: int, s3: int| #![trigger r_TypeNameIdentifier(s1, e1), r_TypeArgument_list(s3, hi)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && t[lo].tok == Token::<Seq<char>>::Pipe && t[e1].tok == Token::<Seq<char>>::Of && r_TypeNameIdentifier(s1, e1) && sem_TypeNameIdentifier(t, a, s1, e1) && r_TypeArgument_list(s3, hi) && sem_TypeArgument_list(t, b@, b@.len() as int, s3, hi)), _ => false })
    )
}
broadcast proof fn i_sem_TypeAlternativeClause(t: Toks, v: WithMetaData<NodeTypeAlternativeClause>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeTypeAlternativeClause::ClauseType(a) => (exists|s1: int| #![trigger r_TypeNameIdentifier(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok == Token::<Seq<char>>::Pipe && r_TypeNameIdentifier(s1, hi) && sem_TypeNameIdentifier(t, a, s1, hi)), _ => false })
        || (match v.node { NodeTypeAlternativeClause::ClauseTypeWithArgs(a, b) => (exists|s1: int, e1: int, s3: int| #![trigger r_TypeNameIdentifier(s1, e1), r_TypeArgument_list(s3, hi)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && t[lo].tok == Token::<Seq<char>>::Pipe && t[e1].tok == Token::<Seq<char>>::Of && r_TypeNameIdentifier(s1, e1) && sem_TypeNameIdentifier(t, a, s1, e1) && r_TypeArgument_list(s3, hi) && sem_TypeArgument_list(t, b@, b@.len() as int, s3, hi)), _ => false })
    ),
    ensures #[trigger] sem_TypeAlternativeClause(t, v, lo, hi),
{ reveal(sem_TypeAlternativeClause); reveal(sem_TypeNameIdentifier); }
spec fn sem_TypeAlternativeClause_opt(t: Toks, v: Option<WithMetaData<NodeTypeAlternativeClause>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_TypeAlternativeClause(lo, hi) && sem_TypeAlternativeClause(t, x, lo, hi) } }
// the first n of them
spec fn sem_TypeAlternativeClause_list(t: Toks, v: Seq<WithMetaData<NodeTypeAlternativeClause>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_TypeAlternativeClause(m, hi) && lo <= m < hi && sem_TypeAlternativeClause_list(t, v, n - 1, lo, m) && sem_TypeAlternativeClause(t, v[n - 1], m, hi) }
}
spec fn r_TypeAlternativeClause(lo: int, hi: int) -> bool { true }
spec fn r_TypeAlternativeClause_opt(lo: int, hi: int) -> bool { true }
spec fn r_TypeAlternativeClause_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_ContractTypeArguments(t: Toks, v: WithMetaData<NodeContractTypeArguments>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        ({ let a = v.node; (exists|s1: int, e1: int| #![trigger r_TypeArgument_list(s1, e1)] s1 == lo + 1 && s1 <= e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::OpenBrace && t[e1].tok == Token::<Seq<char>>::CloseBrace && r_TypeArgument_list(s1, e1) && sem_TypeArgument_list(t, a.type_arguments@, a.type_arguments@.len() as int, s1, e1)) })
    )
}
broadcast proof fn i_sem_ContractTypeArguments(t: Toks, v: WithMetaData<NodeContractTypeArguments>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ({ let a = v.node; (exists|s1: int, e1: int| #![trigger r_TypeArgument_list(s1, e1)] s1 == lo + 1 && s1 <= e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::OpenBrace && t[e1].tok == Token::<Seq<char>>::CloseBrace && r_TypeArgument_list(s1, e1) && sem_TypeArgument_list(t, a.type_arguments@, a.type_arguments@.len() as int, s1, e1)) })
    ),
    ensures #[trigger] sem_ContractTypeArguments(t, v, lo, hi),
{ reveal(sem_ContractTypeArguments); }
spec fn sem_ContractTypeArguments_opt(t: Toks, v: Option<WithMetaData<NodeContractTypeArguments>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_ContractTypeArguments(lo, hi) && sem_ContractTypeArguments(t, x, lo, hi) } }
// the first n of them
spec fn sem_ContractTypeArguments_list(t: Toks, v: Seq<WithMetaData<NodeContractTypeArguments>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_ContractTypeArguments(m, hi) && lo <= m < hi && sem_ContractTypeArguments_list(t, v, n - 1, lo, m) && sem_ContractTypeArguments(t, v[n - 1], m, hi) }
}
spec fn r_ContractTypeArguments(lo: int, hi: int) -> bool { true }
spec fn r_ContractTypeArguments_opt(lo: int, hi: int) -> bool { true }
spec fn r_ContractTypeArguments_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_FullExpression(t: Toks, v: WithMetaData<NodeFullExpression>, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeFullExpression::LocalVariableDeclaration { identifier_name, type_annotation, expression, containing_expression } => (exists|s1: int, e1: int, e2: int, s4: int, e4: int, s6: int| #![trigger r_RegularId(s1, e1), r_TypeAnnotation_opt(e1, e2), r_FullExpression(s4, e4), r_FullExpression(s6, hi)] s1 == lo + 1 && s1 < e1 && e1 <= e2 && s4 == e2 + 1 && s4 < e4 && s6 == e4 + 1 && s6 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && lo <= s4 <= hi && lo <= e4 <= hi && lo <= s6 <= hi && t[lo].tok == Token::<Seq<char>>::Let && t[e2].tok == Token::<Seq<char>>::Equals && t[e4].tok == Token::<Seq<char>>::In && r_RegularId(s1, e1) && sem_RegularId(t, identifier_name, s1, e1) && r_TypeAnnotation_opt(e1, e2) && sem_TypeAnnotation_opt(t, type_annotation, e1, e2) && r_FullExpression(s4, e4) && sem_FullExpression(t, *expression, s4, e4) && r_FullExpression(s6, hi) && sem_FullExpression(t, *containing_expression, s6, hi)), _ => false })
        || (match v.node { NodeFullExpression::FunctionDeclaration { identier_value, type_annotation, expression } => (exists|s2: int, e2: int, e3: int, s6: int| #![trigger r_RegularId(s2, e2), r_TypeAnnotation(e2, e3), r_FullExpression(s6, hi)] s2 == lo + 2 && s2 < e2 && e2 < e3 && s6 == e3 + 2 && s6 < hi && lo <= s2 <= hi && lo <= e2 <= hi && lo <= e3 <= hi && lo <= s6 <= hi && t[lo].tok == Token::<Seq<char>>::Fun && t[lo + 1].tok == Token::<Seq<char>>::OpenParen && t[e3].tok == Token::<Seq<char>>::CloseParen && t[e3 + 1].tok == Token::<Seq<char>>::DoubleArrow && r_RegularId(s2, e2) && sem_RegularId(t, identier_value, s2, e2) && r_TypeAnnotation(e2, e3) && sem_TypeAnnotation(t, type_annotation, e2, e3) && r_FullExpression(s6, hi) && sem_FullExpression(t, *expression, s6, hi)), _ => false })
        || (match v.node { NodeFullExpression::FunctionCall { function_name, argument_list } => (exists|e0: int| #![trigger r_VariableIdentifier(lo, e0), r_VariableIdentifier_list(e0, hi)] lo < e0 && e0 < hi && lo <= e0 <= hi && r_VariableIdentifier(lo, e0) && sem_VariableIdentifier(t, function_name, lo, e0) && r_VariableIdentifier_list(e0, hi) && sem_VariableIdentifier_list(t, argument_list@, argument_list@.len() as int, e0, hi)), _ => false })
        || (match v.node { NodeFullExpression::ExpressionAtomic(a) => (lo < hi && r_AtomicExpression(lo, hi) && sem_AtomicExpression(t, *a, lo, hi)), _ => false })
        || (match v.node { NodeFullExpression::ExpressionBuiltin { b, targs, xs } => (exists|s1: int, e1: int, e2: int| #![trigger r_RegularId(s1, e1), r_ContractTypeArguments_opt(e1, e2), r_BuiltinArguments(e2, hi)] s1 == lo + 1 && s1 < e1 && e1 <= e2 && e2 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && t[lo].tok == Token::<Seq<char>>::Builtin && r_RegularId(s1, e1) && sem_RegularId(t, b, s1, e1) && r_ContractTypeArguments_opt(e1, e2) && sem_ContractTypeArguments_opt(t, targs, e1, e2) && r_BuiltinArguments(e2, hi) && sem_BuiltinArguments(t, xs, e2, hi)), _ => false })
        || (match v.node { NodeFullExpression::Message(m) => (m@.len() >= 1) && (exists|s1: int, e1: int, e2: int| #![trigger r_MessageEntry(s1, e1), r_NextMessageEntry_list(e1, e2)] s1 == lo + 1 && s1 < e1 && e1 <= e2 && hi == e2 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && t[lo].tok == Token::<Seq<char>>::OpenBrace && t[e2].tok == Token::<Seq<char>>::CloseBrace && r_MessageEntry(s1, e1) && sem_MessageEntry(t, m@[0], s1, e1) && r_NextMessageEntry_list(e1, e2) && sem_NextMessageEntry_list(t, tail(m@), tail(m@).len() as int, e1, e2)), _ => false })
        || (match v.node { NodeFullExpression::Match { match_expression, clauses } => (exists|s1: int, e1: int, s3: int, e3: int| #![trigger r_VariableIdentifier(s1, e1), r_PatternMatchExpressionClause_list(s3, e3)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < e3 && hi == e3 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && lo <= e3 <= hi && t[lo].tok == Token::<Seq<char>>::Match && t[e1].tok == Token::<Seq<char>>::With && t[e3].tok == Token::<Seq<char>>::End && r_VariableIdentifier(s1, e1) && sem_VariableIdentifier(t, match_expression, s1, e1) && r_PatternMatchExpressionClause_list(s3, e3) && sem_PatternMatchExpressionClause_list(t, clauses@, clauses@.len() as int, s3, e3)), _ => false })
        || (match v.node { NodeFullExpression::ConstructorCall { identifier_name, contract_type_arguments, argument_list } => (exists|e0: int, e1: int| #![trigger r_MetaIdentifier(lo, e0), r_ContractTypeArguments_opt(e0, e1), r_VariableIdentifier_list(e1, hi)] lo < e0 && e0 <= e1 && e1 <= hi && lo <= e0 <= hi && lo <= e1 <= hi && r_MetaIdentifier(lo, e0) && sem_MetaIdentifier(t, identifier_name, lo, e0) && r_ContractTypeArguments_opt(e0, e1) && sem_ContractTypeArguments_opt(t, contract_type_arguments, e0, e1) && r_VariableIdentifier_list(e1, hi) && sem_VariableIdentifier_list(t, argument_list@, argument_list@.len() as int, e1, hi)), _ => false })
        || (match v.node { NodeFullExpression::TemplateFunction { identifier_name, expression } => (exists|s1: int, e1: int, s3: int| #![trigger r_TemplateTypeId(s1, e1), r_FullExpression(s3, hi)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && t[lo].tok == Token::<Seq<char>>::Tfun && t[e1].tok == Token::<Seq<char>>::DoubleArrow && r_TemplateTypeId(s1, e1) && sem_TemplateTypeId(t, identifier_name, s1, e1) && r_FullExpression(s3, hi) && sem_FullExpression(t, *expression, s3, hi)), _ => false })
        || (match v.node { NodeFullExpression::TApp { identifier_name, type_arguments } => (exists|s1: int, e1: int| #![trigger r_VariableIdentifier(s1, e1), r_TypeArgument_list(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 < hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::At && r_VariableIdentifier(s1, e1) && sem_VariableIdentifier(t, identifier_name, s1, e1) && r_TypeArgument_list(e1, hi) && sem_TypeArgument_list(t, type_arguments@, type_arguments@.len() as int, e1, hi)), _ => false })
    )
}
broadcast proof fn i_sem_FullExpression(t: Toks, v: WithMetaData<NodeFullExpression>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeFullExpression::LocalVariableDeclaration { identifier_name, type_annotation, expression, containing_expression } => (exists|s1: int, e1: int, e2: int, s4: int, e4: int, s6: int| #![trigger r_RegularId(s1, e1), r_TypeAnnotation_opt(e1, e2), r_FullExpression(s4, e4), r_FullExpression(s6, hi)] s1 == lo + 1 && s1 < e1 && e1 <= e2 && s4 == e2 + 1 && s4 < e4 && s6 == e4 + 1 && s6 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && lo <= s4 <= hi && lo <= e4 <= hi && lo <= s6 <= hi && t[lo].tok == Token::<Seq<char>>::Let && t[e2].tok == Token::<Seq<char>>::Equals && t[e4].tok == Token::<Seq<char>>::In && r_RegularId(s1, e1) && sem_RegularId(t, identifier_name, s1, e1) && r_TypeAnnotation_opt(e1, e2) && sem_TypeAnnotation_opt(t, type_annotation, e1, e2) && r_FullExpression(s4, e4) && sem_FullExpression(t, *expression, s4, e4) && r_FullExpression(s6, hi) && sem_FullExpression(t, *containing_expression, s6, hi)), _ => false })
        || (match v.node { NodeFullExpression::FunctionDeclaration { identier_value, type_annotation, expression } => (exists|s2: int, e2: int, e3: int, s6: int| #![trigger r_RegularId(s2, e2), r_TypeAnnotation(e2, e3), r_FullExpression(s6, hi)] s2 == lo + 2 && s2 < e2 && e2 < e3 && s6 == e3 + 2 && s6 < hi && lo <= s2 <= hi && lo <= e2 <= hi && lo <= e3 <= hi && lo <= s6 <= hi && t[lo].tok == Token::<Seq<char>>::Fun && t[lo + 1].tok == Token::<Seq<char>>::OpenParen && t[e3].tok == Token::<Seq<char>>::CloseParen && t[e3 + 1].tok == Token::<Seq<char>>::DoubleArrow && r_RegularId(s2, e2) && sem_RegularId(t, identier_value, s2, e2) && r_TypeAnnotation(e2, e3) && sem_TypeAnnotation(t, type_annotation, e2, e3) && r_FullExpression(s6, hi) && sem_FullExpression(t, *expression, s6, hi)), _ => false })
        || (match v.node { NodeFullExpression::FunctionCall { function_name, argument_list } => (exists|e0: int| #![trigger r_VariableIdentifier(lo, e0), r_VariableIdentifier_list(e0, hi)] lo < e0 && e0 < hi && lo <= e0 <= hi && r_VariableIdentifier(lo, e0) && sem_VariableIdentifier(t, function_name, lo, e0) && r_VariableIdentifier_list(e0, hi) && sem_VariableIdentifier_list(t, argument_list@, argument_list@.len() as int, e0, hi)), _ => false })
        || (match v.node { NodeFullExpression::ExpressionAtomic(a) => (lo < hi && r_AtomicExpression(lo, hi) && sem_AtomicExpression(t, *a, lo, hi)), _ => false })
        || (match v.node { NodeFullExpression::ExpressionBuiltin { b, targs, xs } => (exists|s1: int, e1: int, e2: int| #![trigger r_RegularId(s1, e1), r_ContractTypeArguments_opt(e1, e2), r_BuiltinArguments(e2, hi)] s1 == lo + 1 && s1 < e1 && e1 <= e2 && e2 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && t[lo].tok == Token::<Seq<char>>::Builtin && r_RegularId(s1, e1) && sem_RegularId(t, b, s1, e1) && r_ContractTypeArguments_opt(e1, e2) && sem_ContractTypeArguments_opt(t, targs, e1, e2) && r_BuiltinArguments(e2, hi) && sem_BuiltinArguments(t, xs, e2, hi)), _ => false })
        || (match v.node { NodeFullExpression::Message(m) => (m@.len() >= 1) && (exists|s1: int, e1: int, e2: int| #![trigger r_MessageEntry(s1, e1), r_NextMessageEntry_list(e1, e2)] s1 == lo + 1 && s1 < e1 && e1 <= e2 && hi == e2 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && t[lo].tok == Token::<Seq<char>>::OpenBrace && t[e2].tok == Token::<Seq<char>>::CloseBrace && r_MessageEntry(s1, e1) && sem_MessageEntry(t, m@[0], s1, e1) && r_NextMessageEntry_list(e1, e2) && sem_NextMessageEntry_list(t, tail(m@), tail(m@).len() as int, e1, e2)), _ => false })
        || (match v.node { NodeFullExpression::Match { match_expression, clauses } => (exists|s1: int, e1: int, s3: int, e3: int| #![trigger r_VariableIdentifier(s1, e1), r_PatternMatchExpressionClause_list(s3, e3)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < e3 && hi == e3 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && lo <= e3 <= hi && t[lo].tok == Token::<Seq<char>>::Match && t[e1].tok == Token::<Seq<char>>::With && t[e3].tok == Token::<Seq<char>>::End && r_VariableIdentifier(s1, e1) && sem_VariableIdentifier(t, match_expression, s1, e1) && r_PatternMatchExpressionClause_list(s3, e3) && sem_PatternMatchExpressionClause_list(t, clauses@, clauses@.len() as int, s3, e3)), _ => false })
        || (match v.node { NodeFullExpression::ConstructorCall { identifier_name, contract_type_arguments, argument_list } => (exists|e0: int, e1: int| #![trigger r_MetaIdentifier(lo, e0), r_ContractTypeArguments_opt(e0, e1), r_VariableIdentifier_list(e1, hi)] lo < e0 && e0 <= e1 && e1 <= hi && lo <= e0 <= hi && lo <= e1 <= hi && r_MetaIdentifier(lo, e0) && sem_MetaIdentifier(t, identifier_name, lo, e0) && r_ContractTypeArguments_opt(e0, e1) && sem_ContractTypeArguments_opt(t, contract_type_arguments, e0, e1) && r_VariableIdentifier_list(e1, hi) && sem_VariableIdentifier_list(t, argument_list@, argument_list@.len() as int, e1, hi)), _ => false })
        || (match v.node { NodeFullExpression::TemplateFunction { identifier_name, expression } => (exists|s1: int, e1: int, s3: int| #![trigger r_TemplateTypeId(s1, e1), r_FullExpression(s3, hi)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && t[lo].tok == Token::<Seq<char>>::Tfun && t[e1].tok == Token::<Seq<char>>::DoubleArrow && r_TemplateTypeId(s1, e1) && sem_TemplateTypeId(t, identifier_name, s1, e1) && r_FullExpression(s3, hi) && sem_FullExpression(t, *expression, s3, hi)), _ => false })
        || (match v.node { NodeFullExpression::TApp { identifier_name, type_arguments } => (exists|s1: int, e1: int| #![trigger r_VariableIdentifier(s1, e1), r_TypeArgument_list(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 < hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::At && r_VariableIdentifier(s1, e1) && sem_VariableIdentifier(t, identifier_name, s1, e1) && r_TypeArgument_list(e1, hi) && sem_TypeArgument_list(t, type_arguments@, type_arguments@.len() as int, e1, hi)), _ => false })
    ),
    ensures #[trigger] sem_FullExpression(t, v, lo, hi),
{ reveal(sem_AtomicExpression); reveal(sem_BuiltinArguments); reveal(sem_FullExpression); reveal(sem_MessageEntry); reveal(sem_MetaIdentifier); reveal(sem_RegularId); reveal(sem_TemplateTypeId); reveal(sem_TypeAnnotation); reveal(sem_VariableIdentifier); }
spec fn sem_FullExpression_opt(t: Toks, v: Option<WithMetaData<NodeFullExpression>>, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{ match v { None => lo == hi, Some(x) => r_FullExpression(lo, hi) && sem_FullExpression(t, x, lo, hi) } }
// the first n of them
spec fn sem_FullExpression_list(t: Toks, v: Seq<WithMetaData<NodeFullExpression>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 5nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_FullExpression(m, hi) && lo <= m < hi && sem_FullExpression_list(t, v, n - 1, lo, m) && sem_FullExpression(t, v[n - 1], m, hi) }
}
spec fn r_FullExpression(lo: int, hi: int) -> bool { true }
spec fn r_FullExpression_opt(lo: int, hi: int) -> bool { true }
spec fn r_FullExpression_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_PatternMatchExpressionClause(t: Toks, v: WithMetaData<NodePatternMatchExpressionClause>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        ({ let c = v.node; (exists|s1: int, e1: int, s3: int| #![trigger r_Pattern(s1, e1), r_FullExpression(s3, hi)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && t[lo].tok == Token::<Seq<char>>::Pipe && t[e1].tok == Token::<Seq<char>>::DoubleArrow && r_Pattern(s1, e1) && sem_Pattern(t, c.pattern, s1, e1) && r_FullExpression(s3, hi) && sem_FullExpression(t, c.expression, s3, hi)) })
    )
}
broadcast proof fn i_sem_PatternMatchExpressionClause(t: Toks, v: WithMetaData<NodePatternMatchExpressionClause>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ({ let c = v.node; (exists|s1: int, e1: int, s3: int| #![trigger r_Pattern(s1, e1), r_FullExpression(s3, hi)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && t[lo].tok == Token::<Seq<char>>::Pipe && t[e1].tok == Token::<Seq<char>>::DoubleArrow && r_Pattern(s1, e1) && sem_Pattern(t, c.pattern, s1, e1) && r_FullExpression(s3, hi) && sem_FullExpression(t, c.expression, s3, hi)) })
    ),
    ensures #[trigger] sem_PatternMatchExpressionClause(t, v, lo, hi),
{ reveal(sem_FullExpression); reveal(sem_Pattern); reveal(sem_PatternMatchExpressionClause); }
spec fn sem_PatternMatchExpressionClause_opt(t: Toks, v: Option<WithMetaData<NodePatternMatchExpressionClause>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_PatternMatchExpressionClause(lo, hi) && sem_PatternMatchExpressionClause(t, x, lo, hi) } }
// the first n of them
spec fn sem_PatternMatchExpressionClause_list(t: Toks, v: Seq<WithMetaData<NodePatternMatchExpressionClause>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_PatternMatchExpressionClause(m, hi) && lo <= m < hi && sem_PatternMatchExpressionClause_list(t, v, n - 1, lo, m) && sem_PatternMatchExpressionClause(t, v[n - 1], m, hi) }
}
spec fn r_PatternMatchExpressionClause(lo: int, hi: int) -> bool { true }
spec fn r_PatternMatchExpressionClause_opt(lo: int, hi: int) -> bool { true }
spec fn r_PatternMatchExpressionClause_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_Pattern(t: Toks, v: WithMetaData<NodePattern>, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{
    0 <= lo < hi <= t.len() && (
        (match v.node { NodePattern::Wildcard => (hi == lo + 1 && t[lo].tok == Token::<Seq<char>>::Underscore), _ => false })
        || (match v.node { NodePattern::Binder(a) => (lo < hi && r_RegularId(lo, hi) && sem_RegularId(t, a, lo, hi)), _ => false })
        || (match v.node { NodePattern::Constructor(a, b) => (exists|e0: int| #![trigger r_MetaIdentifier(lo, e0), r_ArgumentPattern_list(e0, hi)] lo < e0 && e0 <= hi && lo <= e0 <= hi && r_MetaIdentifier(lo, e0) && sem_MetaIdentifier(t, a, lo, e0) && r_ArgumentPattern_list(e0, hi) && sem_ArgumentPattern_list(t, b@, b@.len() as int, e0, hi)), _ => false })
    )
}
broadcast proof fn i_sem_Pattern(t: Toks, v: WithMetaData<NodePattern>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        (match v.node { NodePattern::Wildcard => (hi == lo + 1 && t[lo].tok == Token::<Seq<char>>::Underscore), _ => false })
        || (match v.node { NodePattern::Binder(a) => (lo < hi && r_RegularId(lo, hi) && sem_RegularId(t, a, lo, hi)), _ => false })
        || (match v.node { NodePattern::Constructor(a, b) => (exists|e0: int| #![trigger r_MetaIdentifier(lo, e0), r_ArgumentPattern_list(e0, hi)] lo < e0 && e0 <= hi && lo <= e0 <= hi && r_MetaIdentifier(lo, e0) && sem_MetaIdentifier(t, a, lo, e0) && r_ArgumentPattern_list(e0, hi) && sem_ArgumentPattern_list(t, b@, b@.len() as int, e0, hi)), _ => false })
    ),
    ensures #[trigger] sem_Pattern(t, v, lo, hi),
{ reveal(sem_MetaIdentifier); reveal(sem_Pattern); reveal(sem_RegularId); }
spec fn sem_Pattern_opt(t: Toks, v: Option<WithMetaData<NodePattern>>, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{ match v { None => lo == hi, Some(x) => r_Pattern(lo, hi) && sem_Pattern(t, x, lo, hi) } }
// the first n of them
spec fn sem_Pattern_list(t: Toks, v: Seq<WithMetaData<NodePattern>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 5nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_Pattern(m, hi) && lo <= m < hi && sem_Pattern_list(t, v, n - 1, lo, m) && sem_Pattern(t, v[n - 1], m, hi) }
}
spec fn r_Pattern(lo: int, hi: int) -> bool { true }
spec fn r_Pattern_opt(lo: int, hi: int) -> bool { true }
spec fn r_Pattern_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_ArgumentPattern(t: Toks, v: WithMetaData<NodeArgumentPattern>, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeArgumentPattern::WildcardArgument => (hi == lo + 1 && t[lo].tok == Token::<Seq<char>>::Underscore), _ => false })
        || (match v.node { NodeArgumentPattern::BinderArgument(a) => (lo < hi && r_RegularId(lo, hi) && sem_RegularId(t, a, lo, hi)), _ => false })
        || (match v.node { NodeArgumentPattern::ConstructorArgument(a) => (lo < hi && r_MetaIdentifier(lo, hi) && sem_MetaIdentifier(t, a, lo, hi)), _ => false })
        || (match v.node { NodeArgumentPattern::PatternArgument(a) => (exists|s1: int, e1: int| #![trigger r_Pattern(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::OpenParen && t[e1].tok == Token::<Seq<char>>::CloseParen && r_Pattern(s1, e1) && sem_Pattern(t, *a, s1, e1)), _ => false })
    )
}
broadcast proof fn i_sem_ArgumentPattern(t: Toks, v: WithMetaData<NodeArgumentPattern>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeArgumentPattern::WildcardArgument => (hi == lo + 1 && t[lo].tok == Token::<Seq<char>>::Underscore), _ => false })
        || (match v.node { NodeArgumentPattern::BinderArgument(a) => (lo < hi && r_RegularId(lo, hi) && sem_RegularId(t, a, lo, hi)), _ => false })
        || (match v.node { NodeArgumentPattern::ConstructorArgument(a) => (lo < hi && r_MetaIdentifier(lo, hi) && sem_MetaIdentifier(t, a, lo, hi)), _ => false })
        || (match v.node { NodeArgumentPattern::PatternArgument(a) => (exists|s1: int, e1: int| #![trigger r_Pattern(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::OpenParen && t[e1].tok == Token::<Seq<char>>::CloseParen && r_Pattern(s1, e1) && sem_Pattern(t, *a, s1, e1)), _ => false })
    ),
    ensures #[trigger] sem_ArgumentPattern(t, v, lo, hi),
{ reveal(sem_ArgumentPattern); reveal(sem_MetaIdentifier); reveal(sem_Pattern); reveal(sem_RegularId); }
spec fn sem_ArgumentPattern_opt(t: Toks, v: Option<WithMetaData<NodeArgumentPattern>>, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{ match v { None => lo == hi, Some(x) => r_ArgumentPattern(lo, hi) && sem_ArgumentPattern(t, x, lo, hi) } }
// the first n of them
spec fn sem_ArgumentPattern_list(t: Toks, v: Seq<WithMetaData<NodeArgumentPattern>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 5nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_ArgumentPattern(m, hi) && lo <= m < hi && sem_ArgumentPattern_list(t, v, n - 1, lo, m) && sem_ArgumentPattern(t, v[n - 1], m, hi) }
}
spec fn r_ArgumentPattern(lo: int, hi: int) -> bool { true }
spec fn r_ArgumentPattern_opt(lo: int, hi: int) -> bool { true }
spec fn r_ArgumentPattern_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_NextMessageEntry(t: Toks, v: WithMetaData<NodeMessageEntry>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        ((exists|s1: int| #![trigger r_MessageEntry(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok == Token::<Seq<char>>::Semicolon && r_MessageEntry(s1, hi) && sem_MessageEntry(t, v, s1, hi)))
    )
}
broadcast proof fn i_sem_NextMessageEntry(t: Toks, v: WithMetaData<NodeMessageEntry>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ((exists|s1: int| #![trigger r_MessageEntry(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok == Token::<Seq<char>>::Semicolon && r_MessageEntry(s1, hi) && sem_MessageEntry(t, v, s1, hi)))
    ),
    ensures #[trigger] sem_NextMessageEntry(t, v, lo, hi),
{ reveal(sem_MessageEntry); reveal(sem_NextMessageEntry); }
spec fn sem_NextMessageEntry_opt(t: Toks, v: Option<WithMetaData<NodeMessageEntry>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_NextMessageEntry(lo, hi) && sem_NextMessageEntry(t, x, lo, hi) } }
// the first n of them
spec fn sem_NextMessageEntry_list(t: Toks, v: Seq<WithMetaData<NodeMessageEntry>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_NextMessageEntry(m, hi) && lo <= m < hi && sem_NextMessageEntry_list(t, v, n - 1, lo, m) && sem_NextMessageEntry(t, v[n - 1], m, hi) }
}
spec fn r_NextMessageEntry(lo: int, hi: int) -> bool { true }
spec fn r_NextMessageEntry_opt(lo: int, hi: int) -> bool { true }
spec fn r_NextMessageEntry_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_MessageEntry(t: Toks, v: WithMetaData<NodeMessageEntry>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeMessageEntry::MessageLiteral(a, b) => (exists|e0: int, s2: int| #![trigger r_VariableIdentifier(lo, e0), r_ValueLiteral(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok == Token::<Seq<char>>::Colon && r_VariableIdentifier(lo, e0) && sem_VariableIdentifier(t, a, lo, e0) && r_ValueLiteral(s2, hi) && sem_ValueLiteral(t, b, s2, hi)), _ => false })
        || (match v.node { NodeMessageEntry::MessageVariable(a, b) => (exists|e0: int, s2: int| #![trigger r_VariableIdentifier(lo, e0), r_VariableIdentifier(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok == Token::<Seq<char>>::Colon && r_VariableIdentifier(lo, e0) && sem_VariableIdentifier(t, a, lo, e0) && r_VariableIdentifier(s2, hi) && sem_VariableIdentifier(t, b, s2, hi)), _ => false })
    )
}
broadcast proof fn i_sem_MessageEntry(t: Toks, v: WithMetaData<NodeMessageEntry>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeMessageEntry::MessageLiteral(a, b) => (exists|e0: int, s2: int| #![trigger r_VariableIdentifier(lo, e0), r_ValueLiteral(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok == Token::<Seq<char>>::Colon && r_VariableIdentifier(lo, e0) && sem_VariableIdentifier(t, a, lo, e0) && r_ValueLiteral(s2, hi) && sem_ValueLiteral(t, b, s2, hi)), _ => false })
        || (match v.node { NodeMessageEntry::MessageVariable(a, b) => (exists|e0: int, s2: int| #![trigger r_VariableIdentifier(lo, e0), r_VariableIdentifier(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok == Token::<Seq<char>>::Colon && r_VariableIdentifier(lo, e0) && sem_VariableIdentifier(t, a, lo, e0) && r_VariableIdentifier(s2, hi) && sem_VariableIdentifier(t, b, s2, hi)), _ => false })
    ),
    ensures #[trigger] sem_MessageEntry(t, v, lo, hi),
{ reveal(sem_MessageEntry); reveal(sem_ValueLiteral); reveal(sem_VariableIdentifier); }
spec fn sem_MessageEntry_opt(t: Toks, v: Option<WithMetaData<NodeMessageEntry>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_MessageEntry(lo, hi) && sem_MessageEntry(t, x, lo, hi) } }
// the first n of them
spec fn sem_MessageEntry_list(t: Toks, v: Seq<WithMetaData<NodeMessageEntry>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_MessageEntry(m, hi) && lo <= m < hi && sem_MessageEntry_list(t, v, n - 1, lo, m) && sem_MessageEntry(t, v[n - 1], m, hi) }
}
spec fn r_MessageEntry(lo: int, hi: int) -> bool { true }
spec fn r_MessageEntry_opt(lo: int, hi: int) -> bool { true }
spec fn r_MessageEntry_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_AtomicExpression(t: Toks, v: WithMetaData<NodeAtomicExpression>, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeAtomicExpression::AtomicSid(a) => (lo < hi && r_VariableIdentifier(lo, hi) && sem_VariableIdentifier(t, a, lo, hi)), _ => false })
        || (match v.node { NodeAtomicExpression::AtomicLit(a) => (lo < hi && r_ValueLiteral(lo, hi) && sem_ValueLiteral(t, a, lo, hi)), _ => false })
    )
}
broadcast proof fn i_sem_AtomicExpression(t: Toks, v: WithMetaData<NodeAtomicExpression>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeAtomicExpression::AtomicSid(a) => (lo < hi && r_VariableIdentifier(lo, hi) && sem_VariableIdentifier(t, a, lo, hi)), _ => false })
        || (match v.node { NodeAtomicExpression::AtomicLit(a) => (lo < hi && r_ValueLiteral(lo, hi) && sem_ValueLiteral(t, a, lo, hi)), _ => false })
    ),
    ensures #[trigger] sem_AtomicExpression(t, v, lo, hi),
{ reveal(sem_AtomicExpression); reveal(sem_ValueLiteral); reveal(sem_VariableIdentifier); }
spec fn sem_AtomicExpression_opt(t: Toks, v: Option<WithMetaData<NodeAtomicExpression>>, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{ match v { None => lo == hi, Some(x) => r_AtomicExpression(lo, hi) && sem_AtomicExpression(t, x, lo, hi) } }
// the first n of them
spec fn sem_AtomicExpression_list(t: Toks, v: Seq<WithMetaData<NodeAtomicExpression>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_AtomicExpression(m, hi) && lo <= m < hi && sem_AtomicExpression_list(t, v, n - 1, lo, m) && sem_AtomicExpression(t, v[n - 1], m, hi) }
}
spec fn r_AtomicExpression(lo: int, hi: int) -> bool { true }
spec fn r_AtomicExpression_opt(lo: int, hi: int) -> bool { true }
spec fn r_AtomicExpression_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_ValueLiteral(t: Toks, v: WithMetaData<NodeValueLiteral>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeValueLiteral::LiteralInt(a, b) => (exists|e0: int| #![trigger r_TypeNameIdentifier(lo, e0), r_SignedInteger(e0, hi)] lo < e0 && e0 < hi && lo <= e0 <= hi && r_TypeNameIdentifier(lo, e0) && sem_TypeNameIdentifier(t, a, lo, e0) && r_SignedInteger(e0, hi) && sem_SignedInteger(t, b, e0, hi)), _ => false })
        || (match v.node { NodeValueLiteral::LiteralHex(a) => (lo < hi && r_HexNumber(lo, hi) && sem_HexNumber(t, a, lo, hi)), _ => false })
        || (match v.node { NodeValueLiteral::LiteralString(a) => (lo < hi && r_StringLiteral(lo, hi) && sem_StringLiteral(t, a, lo, hi)), _ => false })
        || (match v.node { NodeValueLiteral::LiteralEmptyMap(a, b) => (exists|s1: int, e1: int| #![trigger r_TypeMapKey(s1, e1), r_TypeMapValue(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 < hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::Emp && r_TypeMapKey(s1, e1) && sem_TypeMapKey(t, a, s1, e1) && r_TypeMapValue(e1, hi) && sem_TypeMapValue(t, b, e1, hi)), _ => false })
    )
}
broadcast proof fn i_sem_ValueLiteral(t: Toks, v: WithMetaData<NodeValueLiteral>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeValueLiteral::LiteralInt(a, b) => (exists|e0: int| #![trigger r_TypeNameIdentifier(lo, e0), r_SignedInteger(e0, hi)] lo < e0 && e0 < hi && lo <= e0 <= hi && r_TypeNameIdentifier(lo, e0) && sem_TypeNameIdentifier(t, a, lo, e0) && r_SignedInteger(e0, hi) && sem_SignedInteger(t, b, e0, hi)), _ => false })
        || (match v.node { NodeValueLiteral::LiteralHex(a) => (lo < hi && r_HexNumber(lo, hi) && sem_HexNumber(t, a, lo, hi)), _ => false })
        || (match v.node { NodeValueLiteral::LiteralString(a) => (lo < hi && r_StringLiteral(lo, hi) && sem_StringLiteral(t, a, lo, hi)), _ => false })
        || (match v.node { NodeValueLiteral::LiteralEmptyMap(a, b) => (exists|s1: int, e1: int| #![trigger r_TypeMapKey(s1, e1), r_TypeMapValue(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 < hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::Emp && r_TypeMapKey(s1, e1) && sem_TypeMapKey(t, a, s1, e1) && r_TypeMapValue(e1, hi) && sem_TypeMapValue(t, b, e1, hi)), _ => false })
    ),
    ensures #[trigger] sem_ValueLiteral(t, v, lo, hi),
{ reveal(sem_HexNumber); reveal(sem_SignedInteger); reveal(sem_StringLiteral); reveal(sem_TypeMapKey); reveal(sem_TypeMapValue); reveal(sem_TypeNameIdentifier); reveal(sem_ValueLiteral); }
spec fn sem_ValueLiteral_opt(t: Toks, v: Option<WithMetaData<NodeValueLiteral>>, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{ match v { None => lo == hi, Some(x) => r_ValueLiteral(lo, hi) && sem_ValueLiteral(t, x, lo, hi) } }
// the first n of them
spec fn sem_ValueLiteral_list(t: Toks, v: Seq<WithMetaData<NodeValueLiteral>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_ValueLiteral(m, hi) && lo <= m < hi && sem_ValueLiteral_list(t, v, n - 1, lo, m) && sem_ValueLiteral(t, v[n - 1], m, hi) }
}
spec fn r_ValueLiteral(lo: int, hi: int) -> bool { true }
spec fn r_ValueLiteral_opt(lo: int, hi: int) -> bool { true }
spec fn r_ValueLiteral_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_Statement(t: Toks, v: NodeStatement, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{
    0 <= lo < hi <= t.len() && (
        (match v { NodeStatement::Load { left_hand_side, right_hand_side } => (exists|e0: int, s2: int| #![trigger r_RegularId(lo, e0), r_VariableIdentifier(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok == Token::<Seq<char>>::LeftArrow && r_RegularId(lo, e0) && sem_RegularId(t, left_hand_side, lo, e0) && r_VariableIdentifier(s2, hi) && sem_VariableIdentifier(t, right_hand_side, s2, hi)), _ => false })
        || (match v { NodeStatement::RemoteFetch(a) => (lo < hi && r_RemoteFetchStatement(lo, hi) && sem_RemoteFetchStatement(t, *a, lo, hi)), _ => false })
        || (match v { NodeStatement::Store { left_hand_side, right_hand_side } => (exists|e0: int, s2: int| #![trigger r_RegularId(lo, e0), r_VariableIdentifier(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok == Token::<Seq<char>>::ColonEquals && r_RegularId(lo, e0) && sem_RegularId(t, left_hand_side, lo, e0) && r_VariableIdentifier(s2, hi) && sem_VariableIdentifier(t, right_hand_side, s2, hi)), _ => false })
        || (match v { NodeStatement::Bind { left_hand_side, right_hand_side } => (exists|e0: int, s2: int| #![trigger r_RegularId(lo, e0), r_FullExpression(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok == Token::<Seq<char>>::Equals && r_RegularId(lo, e0) && sem_RegularId(t, left_hand_side, lo, e0) && r_FullExpression(s2, hi) && sem_FullExpression(t, *right_hand_side, s2, hi)), _ => false })
        || (match v { NodeStatement::ReadFromBC { left_hand_side, type_name, arguments } => (exists|e0: int, s3: int, e3: int| #![trigger r_RegularId(lo, e0), r_TypeNameIdentifier(s3, e3), r_BlockchainFetchArguments_opt(e3, hi)] lo < e0 && s3 == e0 + 2 && s3 < e3 && e3 <= hi && lo <= e0 <= hi && lo <= s3 <= hi && lo <= e3 <= hi && t[e0].tok == Token::<Seq<char>>::LeftArrow && t[e0 + 1].tok == Token::<Seq<char>>::Ampersand && r_RegularId(lo, e0) && sem_RegularId(t, left_hand_side, lo, e0) && r_TypeNameIdentifier(s3, e3) && sem_TypeNameIdentifier(t, type_name, s3, e3) && r_BlockchainFetchArguments_opt(e3, hi) && sem_BlockchainFetchArguments_opt(t, arguments, e3, hi)), _ => false })
        || (match v { NodeStatement::MapGet { left_hand_side, right_hand_side, keys } => (exists|e0: int, s2: int, e2: int| #![trigger r_RegularId(lo, e0), r_RegularId(s2, e2), r_MapAccess_list(e2, hi)] lo < e0 && s2 == e0 + 1 && s2 < e2 && e2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && lo <= e2 <= hi && t[e0].tok == Token::<Seq<char>>::LeftArrow && r_RegularId(lo, e0) && sem_RegularId(t, left_hand_side, lo, e0) && r_RegularId(s2, e2) && sem_RegularId(t, right_hand_side, s2, e2) && r_MapAccess_list(e2, hi) && sem_MapAccess_list(t, keys@, keys@.len() as int, e2, hi)), _ => false })
        || (match v { NodeStatement::MapGetExists { left_hand_side, right_hand_side, keys } => (exists|e0: int, s3: int, e3: int| #![trigger r_RegularId(lo, e0), r_RegularId(s3, e3), r_MapAccess_list(e3, hi)] lo < e0 && s3 == e0 + 2 && s3 < e3 && e3 < hi && lo <= e0 <= hi && lo <= s3 <= hi && lo <= e3 <= hi && t[e0].tok == Token::<Seq<char>>::LeftArrow && t[e0 + 1].tok == Token::<Seq<char>>::Exists && r_RegularId(lo, e0) && sem_RegularId(t, left_hand_side, lo, e0) && r_RegularId(s3, e3) && sem_RegularId(t, right_hand_side, s3, e3) && r_MapAccess_list(e3, hi) && sem_MapAccess_list(t, keys@, keys@.len() as int, e3, hi)), _ => false })
        || (match v { NodeStatement::MapUpdate { left_hand_side, keys, right_hand_side } => (exists|e0: int, e1: int, s3: int| #![trigger r_RegularId(lo, e0), r_MapAccess_list(e0, e1), r_VariableIdentifier(s3, hi)] lo < e0 && e0 < e1 && s3 == e1 + 1 && s3 < hi && lo <= e0 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && t[e1].tok == Token::<Seq<char>>::ColonEquals && r_RegularId(lo, e0) && sem_RegularId(t, left_hand_side, lo, e0) && r_MapAccess_list(e0, e1) && sem_MapAccess_list(t, keys@, keys@.len() as int, e0, e1) && r_VariableIdentifier(s3, hi) && sem_VariableIdentifier(t, right_hand_side, s3, hi)), _ => false })
        || (match v { NodeStatement::MapUpdateDelete { left_hand_side, keys } => (exists|s1: int, e1: int| #![trigger r_RegularId(s1, e1), r_MapAccess_list(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 < hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::Delete && r_RegularId(s1, e1) && sem_RegularId(t, left_hand_side, s1, e1) && r_MapAccess_list(e1, hi) && sem_MapAccess_list(t, keys@, keys@.len() as int, e1, hi)), _ => false })
        || (match v { NodeStatement::Accept => (hi == lo + 1 && t[lo].tok == Token::<Seq<char>>::Accept), _ => false })
        || (match v { NodeStatement::Send { identifier_name } => (exists|s1: int| #![trigger r_VariableIdentifier(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok == Token::<Seq<char>>::Send && r_VariableIdentifier(s1, hi) && sem_VariableIdentifier(t, identifier_name, s1, hi)), _ => false })
        || (match v { NodeStatement::CreateEvnt { identifier_name } => (exists|s1: int| #![trigger r_VariableIdentifier(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok == Token::<Seq<char>>::Event && r_VariableIdentifier(s1, hi) && sem_VariableIdentifier(t, identifier_name, s1, hi)), _ => false })
        || (match v { NodeStatement::Throw { error_variable } => (exists|s1: int| #![trigger r_VariableIdentifier_opt(s1, hi)] s1 == lo + 1 && s1 <= hi && lo <= s1 <= hi && t[lo].tok == Token::<Seq<char>>::Throw && r_VariableIdentifier_opt(s1, hi) && sem_VariableIdentifier_opt(t, error_variable, s1, hi)), _ => false })
        || (match v { NodeStatement::MatchStmt { variable, clauses } => (exists|s1: int, e1: int, s3: int, e3: int| #![trigger r_VariableIdentifier(s1, e1), r_PatternMatchClause_list(s3, e3)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < e3 && hi == e3 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && lo <= e3 <= hi && t[lo].tok == Token::<Seq<char>>::Match && t[e1].tok == Token::<Seq<char>>::With && t[e3].tok == Token::<Seq<char>>::End && r_VariableIdentifier(s1, e1) && sem_VariableIdentifier(t, variable, s1, e1) && r_PatternMatchClause_list(s3, e3) && sem_PatternMatchClause_list(t, clauses@, clauses@.len() as int, s3, e3)), _ => false })
        || (match v { NodeStatement::CallProc { component_id, arguments } => (exists|e0: int| #![trigger r_ComponentId(lo, e0), r_VariableIdentifier_list(e0, hi)] lo < e0 && e0 <= hi && lo <= e0 <= hi && r_ComponentId(lo, e0) && sem_ComponentId(t, component_id, lo, e0) && r_VariableIdentifier_list(e0, hi) && sem_VariableIdentifier_list(t, arguments@, arguments@.len() as int, e0, hi)), _ => false })
        || (match v { NodeStatement::Iterate { identifier_name, component_id } => (exists|s1: int, e1: int| #![trigger r_VariableIdentifier(s1, e1), r_ComponentId(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 < hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::Forall && r_VariableIdentifier(s1, e1) && sem_VariableIdentifier(t, identifier_name, s1, e1) && r_ComponentId(e1, hi) && sem_ComponentId(t, component_id, e1, hi)), _ => false })
    )
}
broadcast proof fn i_sem_Statement(t: Toks, v: NodeStatement, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        (match v { NodeStatement::Load { left_hand_side, right_hand_side } => (exists|e0: int, s2: int| #![trigger r_RegularId(lo, e0), r_VariableIdentifier(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok == Token::<Seq<char>>::LeftArrow && r_RegularId(lo, e0) && sem_RegularId(t, left_hand_side, lo, e0) && r_VariableIdentifier(s2, hi) && sem_VariableIdentifier(t, right_hand_side, s2, hi)), _ => false })
        || (match v { NodeStatement::RemoteFetch(a) => (lo < hi && r_RemoteFetchStatement(lo, hi) && sem_RemoteFetchStatement(t, *a, lo, hi)), _ => false })
        || (match v { NodeStatement::Store { left_hand_side, right_hand_side } => (exists|e0: int, s2: int| #![trigger r_RegularId(lo, e0), r_VariableIdentifier(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok == Token::<Seq<char>>::ColonEquals && r_RegularId(lo, e0) && sem_RegularId(t, left_hand_side, lo, e0) && r_VariableIdentifier(s2, hi) && sem_VariableIdentifier(t, right_hand_side, s2, hi)), _ => false })
        || (match v { NodeStatement::Bind { left_hand_side, right_hand_side } => (exists|e0: int, s2: int| #![trigger r_RegularId(lo, e0), r_FullExpression(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok == Token::<Seq<char>>::Equals && r_RegularId(lo, e0) && sem_RegularId(t, left_hand_side, lo, e0) && r_FullExpression(s2, hi) && sem_FullExpression(t, *right_hand_side, s2, hi)), _ => false })
        || (match v { NodeStatement::ReadFromBC { left_hand_side, type_name, arguments } => (exists|e0: int, s3: int, e3: int| #![trigger r_RegularId(lo, e0), r_TypeNameIdentifier(s3, e3), r_BlockchainFetchArguments_opt(e3, hi)] lo < e0 && s3 == e0 + 2 && s3 < e3 && e3 <= hi && lo <= e0 <= hi && lo <= s3 <= hi && lo <= e3 <= hi && t[e0].tok == Token::<Seq<char>>::LeftArrow && t[e0 + 1].tok == Token::<Seq<char>>::Ampersand && r_RegularId(lo, e0) && sem_RegularId(t, left_hand_side, lo, e0) && r_TypeNameIdentifier(s3, e3) && sem_TypeNameIdentifier(t, type_name, s3, e3) && r_BlockchainFetchArguments_opt(e3, hi) && sem_BlockchainFetchArguments_opt(t, arguments, e3, hi)), _ => false })
        || (match v { NodeStatement::MapGet { left_hand_side, right_hand_side, keys } => (exists|e0: int, s2: int, e2: int| #![trigger r_RegularId(lo, e0), r_RegularId(s2, e2), r_MapAccess_list(e2, hi)] lo < e0 && s2 == e0 + 1 && s2 < e2 && e2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && lo <= e2 <= hi && t[e0].tok == Token::<Seq<char>>::LeftArrow && r_RegularId(lo, e0) && sem_RegularId(t, left_hand_side, lo, e0) && r_RegularId(s2, e2) && sem_RegularId(t, right_hand_side, s2, e2) && r_MapAccess_list(e2, hi) && sem_MapAccess_list(t, keys@, keys@.len() as int, e2, hi)), _ => false })
        || (match v { NodeStatement::MapGetExists { left_hand_side, right_hand_side, keys } => (exists|e0: int, s3: int, e3: int| #![trigger r_RegularId(lo, e0), r_RegularId(s3, e3), r_MapAccess_list(e3, hi)] lo < e0 && s3 == e0 + 2 && s3 < e3 && e3 < hi && lo <= e0 <= hi && lo <= s3 <= hi && lo <= e3 <= hi && t[e0].tok == Token::<Seq<char>>::LeftArrow && t[e0 + 1].tok == Token::<Seq<char>>::Exists && r_RegularId(lo, e0) && sem_RegularId(t, left_hand_side, lo, e0) && r_RegularId(s3, e3) && sem_RegularId(t, right_hand_side, s3, e3) && r_MapAccess_list(e3, hi) && sem_MapAccess_list(t, keys@, keys@.len() as int, e3, hi)), _ => false })
        || (match v { NodeStatement::MapUpdate { left_hand_side, keys, right_hand_side } => (exists|e0: int, e1: int, s3: int| #![trigger r_RegularId(lo, e0), r_MapAccess_list(e0, e1), r_VariableIdentifier(s3, hi)] lo < e0 && e0 < e1 && s3 == e1 + 1 && s3 < hi && lo <= e0 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && t[e1].tok == Token::<Seq<char>>::ColonEquals && r_RegularId(lo, e0) && sem_RegularId(t, left_hand_side, lo, e0) && r_MapAccess_list(e0, e1) && sem_MapAccess_list(t, keys@, keys@.len() as int, e0, e1) && r_VariableIdentifier(s3, hi) && sem_VariableIdentifier(t, right_hand_side, s3, hi)), _ => false })
        || (match v { NodeStatement::MapUpdateDelete { left_hand_side, keys } => (exists|s1: int, e1: int| #![trigger r_RegularId(s1, e1), r_MapAccess_list(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 < hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::Delete && r_RegularId(s1, e1) && sem_RegularId(t, left_hand_side, s1, e1) && r_MapAccess_list(e1, hi) && sem_MapAccess_list(t, keys@, keys@.len() as int, e1, hi)), _ => false })
        || (match v { NodeStatement::Accept => (hi == lo + 1 && t[lo].tok == Token::<Seq<char>>::Accept), _ => false })
        || (match v { NodeStatement::Send { identifier_name } => (exists|s1: int| #![trigger r_VariableIdentifier(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok == Token::<Seq<char>>::Send && r_VariableIdentifier(s1, hi) && sem_VariableIdentifier(t, identifier_name, s1, hi)), _ => false })
        || (match v { NodeStatement::CreateEvnt { identifier_name } => (exists|s1: int| #![trigger r_VariableIdentifier(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok == Token::<Seq<char>>::Event && r_VariableIdentifier(s1, hi) && sem_VariableIdentifier(t, identifier_name, s1, hi)), _ => false })
        || (match v { NodeStatement::Throw { error_variable } => (exists|s1: int| #![trigger r_VariableIdentifier_opt(s1, hi)] s1 == lo + 1 && s1 <= hi && lo <= s1 <= hi && t[lo].tok == Token::<Seq<char>>::Throw && r_VariableIdentifier_opt(s1, hi) && sem_VariableIdentifier_opt(t, error_variable, s1, hi)), _ => false })
        || (match v { NodeStatement::MatchStmt { variable, clauses } => (exists|s1: int, e1: int, s3: int, e3: int| #![trigger r_VariableIdentifier(s1, e1), r_PatternMatchClause_list(s3, e3)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < e3 && hi == e3 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && lo <= e3 <= hi && t[lo].tok == Token::<Seq<char>>::Match && t[e1].tok == Token::<Seq<char>>::With && t[e3].tok == Token::<Seq<char>>::End && r_VariableIdentifier(s1, e1) && sem_VariableIdentifier(t, variable, s1, e1) && r_PatternMatchClause_list(s3, e3) && sem_PatternMatchClause_list(t, clauses@, clauses@.len() as int, s3, e3)), _ => false })
        || (match v { NodeStatement::CallProc { component_id, arguments } => (exists|e0: int| #![trigger r_ComponentId(lo, e0), r_VariableIdentifier_list(e0, hi)] lo < e0 && e0 <= hi && lo <= e0 <= hi && r_ComponentId(lo, e0) && sem_ComponentId(t, component_id, lo, e0) && r_VariableIdentifier_list(e0, hi) && sem_VariableIdentifier_list(t, arguments@, arguments@.len() as int, e0, hi)), _ => false })
        || (match v { NodeStatement::Iterate { identifier_name, component_id } => (exists|s1: int, e1: int| #![trigger r_VariableIdentifier(s1, e1), r_ComponentId(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 < hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::Forall && r_VariableIdentifier(s1, e1) && sem_VariableIdentifier(t, identifier_name, s1, e1) && r_ComponentId(e1, hi) && sem_ComponentId(t, component_id, e1, hi)), _ => false })
    ),
    ensures #[trigger] sem_Statement(t, v, lo, hi),
{ reveal(sem_ComponentId); reveal(sem_FullExpression); reveal(sem_RegularId); reveal(sem_RemoteFetchStatement); reveal(sem_Statement); reveal(sem_TypeNameIdentifier); reveal(sem_VariableIdentifier); }
spec fn sem_Statement_opt(t: Toks, v: Option<NodeStatement>, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{ match v { None => lo == hi, Some(x) => r_Statement(lo, hi) && sem_Statement(t, x, lo, hi) } }
// the first n of them
spec fn sem_Statement_list(t: Toks, v: Seq<NodeStatement>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 5nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_Statement(m, hi) && lo <= m < hi && sem_Statement_list(t, v, n - 1, lo, m) && sem_Statement(t, v[n - 1], m, hi) }
}
spec fn r_Statement(lo: int, hi: int) -> bool { true }
spec fn r_Statement_opt(lo: int, hi: int) -> bool { true }
spec fn r_Statement_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_NextStatement(t: Toks, v: NodeStatement, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        ((exists|s1: int| #![trigger r_Statement(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok == Token::<Seq<char>>::Semicolon && r_Statement(s1, hi) && sem_Statement(t, v, s1, hi)))
    )
}
broadcast proof fn i_sem_NextStatement(t: Toks, v: NodeStatement, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ((exists|s1: int| #![trigger r_Statement(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok == Token::<Seq<char>>::Semicolon && r_Statement(s1, hi) && sem_Statement(t, v, s1, hi)))
    ),
    ensures #[trigger] sem_NextStatement(t, v, lo, hi),
{ reveal(sem_NextStatement); reveal(sem_Statement); }
spec fn sem_NextStatement_opt(t: Toks, v: Option<NodeStatement>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_NextStatement(lo, hi) && sem_NextStatement(t, x, lo, hi) } }
// the first n of them
spec fn sem_NextStatement_list(t: Toks, v: Seq<NodeStatement>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_NextStatement(m, hi) && lo <= m < hi && sem_NextStatement_list(t, v, n - 1, lo, m) && sem_NextStatement(t, v[n - 1], m, hi) }
}
spec fn r_NextStatement(lo: int, hi: int) -> bool { true }
spec fn r_NextStatement_opt(lo: int, hi: int) -> bool { true }
spec fn r_NextStatement_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_StatementBlock(t: Toks, v: WithMetaData<NodeStatementBlock>, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{
    0 <= lo < hi <= t.len() && (
        ({ let b = v.node; (b.statements@.len() >= 1) && (exists|e0: int| #![trigger r_Statement(lo, e0), r_NextStatement_list(e0, hi)] lo < e0 && e0 <= hi && lo <= e0 <= hi && r_Statement(lo, e0) && sem_Statement(t, b.statements@[0], lo, e0) && r_NextStatement_list(e0, hi) && sem_NextStatement_list(t, tail(b.statements@), tail(b.statements@).len() as int, e0, hi)) })
    )
}
broadcast proof fn i_sem_StatementBlock(t: Toks, v: WithMetaData<NodeStatementBlock>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ({ let b = v.node; (b.statements@.len() >= 1) && (exists|e0: int| #![trigger r_Statement(lo, e0), r_NextStatement_list(e0, hi)] lo < e0 && e0 <= hi && lo <= e0 <= hi && r_Statement(lo, e0) && sem_Statement(t, b.statements@[0], lo, e0) && r_NextStatement_list(e0, hi) && sem_NextStatement_list(t, tail(b.statements@), tail(b.statements@).len() as int, e0, hi)) })
    ),
    ensures #[trigger] sem_StatementBlock(t, v, lo, hi),
{ reveal(sem_Statement); reveal(sem_StatementBlock); }
spec fn sem_StatementBlock_opt(t: Toks, v: Option<WithMetaData<NodeStatementBlock>>, lo: int, hi: int) -> bool
    decreases hi - lo, 5nat
{ match v { None => lo == hi, Some(x) => r_StatementBlock(lo, hi) && sem_StatementBlock(t, x, lo, hi) } }
// the first n of them
spec fn sem_StatementBlock_list(t: Toks, v: Seq<WithMetaData<NodeStatementBlock>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 6nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_StatementBlock(m, hi) && lo <= m < hi && sem_StatementBlock_list(t, v, n - 1, lo, m) && sem_StatementBlock(t, v[n - 1], m, hi) }
}
spec fn r_StatementBlock(lo: int, hi: int) -> bool { true }
spec fn r_StatementBlock_opt(lo: int, hi: int) -> bool { true }
spec fn r_StatementBlock_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_BlockchainFetchArguments(t: Toks, v: NodeBlockchainFetchArguments, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        ({ let a = v; (exists|s1: int, e1: int| #![trigger r_VariableIdentifier_list(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::OpenParen && t[e1].tok == Token::<Seq<char>>::CloseParen && r_VariableIdentifier_list(s1, e1) && sem_VariableIdentifier_list(t, a.arguments@, a.arguments@.len() as int, s1, e1)) })
    )
}
broadcast proof fn i_sem_BlockchainFetchArguments(t: Toks, v: NodeBlockchainFetchArguments, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ({ let a = v; (exists|s1: int, e1: int| #![trigger r_VariableIdentifier_list(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::OpenParen && t[e1].tok == Token::<Seq<char>>::CloseParen && r_VariableIdentifier_list(s1, e1) && sem_VariableIdentifier_list(t, a.arguments@, a.arguments@.len() as int, s1, e1)) })
    ),
    ensures #[trigger] sem_BlockchainFetchArguments(t, v, lo, hi),
{ reveal(sem_BlockchainFetchArguments); }
spec fn sem_BlockchainFetchArguments_opt(t: Toks, v: Option<NodeBlockchainFetchArguments>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_BlockchainFetchArguments(lo, hi) && sem_BlockchainFetchArguments(t, x, lo, hi) } }
// the first n of them
spec fn sem_BlockchainFetchArguments_list(t: Toks, v: Seq<NodeBlockchainFetchArguments>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_BlockchainFetchArguments(m, hi) && lo <= m < hi && sem_BlockchainFetchArguments_list(t, v, n - 1, lo, m) && sem_BlockchainFetchArguments(t, v[n - 1], m, hi) }
}
spec fn r_BlockchainFetchArguments(lo: int, hi: int) -> bool { true }
spec fn r_BlockchainFetchArguments_opt(lo: int, hi: int) -> bool { true }
spec fn r_BlockchainFetchArguments_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_ComponentId(t: Toks, v: WithMetaData<NodeComponentId>, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeComponentId::WithTypeLikeName(a) => (lo < hi && r_TypeNameIdentifier(lo, hi) && sem_TypeNameIdentifier(t, a, lo, hi)), _ => false })
        || (match v.node { NodeComponentId::WithRegularId(a) => (lo < hi && r_RegularId(lo, hi) && sem_RegularId(t, a, lo, hi)), _ => false })
    )
}
broadcast proof fn i_sem_ComponentId(t: Toks, v: WithMetaData<NodeComponentId>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeComponentId::WithTypeLikeName(a) => (lo < hi && r_TypeNameIdentifier(lo, hi) && sem_TypeNameIdentifier(t, a, lo, hi)), _ => false })
        || (match v.node { NodeComponentId::WithRegularId(a) => (lo < hi && r_RegularId(lo, hi) && sem_RegularId(t, a, lo, hi)), _ => false })
    ),
    ensures #[trigger] sem_ComponentId(t, v, lo, hi),
{ reveal(sem_ComponentId); reveal(sem_RegularId); reveal(sem_TypeNameIdentifier); }
spec fn sem_ComponentId_opt(t: Toks, v: Option<WithMetaData<NodeComponentId>>, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{ match v { None => lo == hi, Some(x) => r_ComponentId(lo, hi) && sem_ComponentId(t, x, lo, hi) } }
// the first n of them
spec fn sem_ComponentId_list(t: Toks, v: Seq<WithMetaData<NodeComponentId>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_ComponentId(m, hi) && lo <= m < hi && sem_ComponentId_list(t, v, n - 1, lo, m) && sem_ComponentId(t, v[n - 1], m, hi) }
}
spec fn r_ComponentId(lo: int, hi: int) -> bool { true }
spec fn r_ComponentId_opt(lo: int, hi: int) -> bool { true }
spec fn r_ComponentId_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_PatternMatchClause(t: Toks, v: WithMetaData<NodePatternMatchClause>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        ({ let c = v.node; (exists|s1: int, e1: int, s3: int| #![trigger r_Pattern(s1, e1), r_StatementBlock_opt(s3, hi)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 <= hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && t[lo].tok == Token::<Seq<char>>::Pipe && t[e1].tok == Token::<Seq<char>>::DoubleArrow && r_Pattern(s1, e1) && sem_Pattern(t, *c.pattern_expression, s1, e1) && r_StatementBlock_opt(s3, hi) && sem_StatementBlock_opt(t, c.statement_block, s3, hi)) })
    )
}
broadcast proof fn i_sem_PatternMatchClause(t: Toks, v: WithMetaData<NodePatternMatchClause>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ({ let c = v.node; (exists|s1: int, e1: int, s3: int| #![trigger r_Pattern(s1, e1), r_StatementBlock_opt(s3, hi)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 <= hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && t[lo].tok == Token::<Seq<char>>::Pipe && t[e1].tok == Token::<Seq<char>>::DoubleArrow && r_Pattern(s1, e1) && sem_Pattern(t, *c.pattern_expression, s1, e1) && r_StatementBlock_opt(s3, hi) && sem_StatementBlock_opt(t, c.statement_block, s3, hi)) })
    ),
    ensures #[trigger] sem_PatternMatchClause(t, v, lo, hi),
{ reveal(sem_Pattern); reveal(sem_PatternMatchClause); }
spec fn sem_PatternMatchClause_opt(t: Toks, v: Option<WithMetaData<NodePatternMatchClause>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_PatternMatchClause(lo, hi) && sem_PatternMatchClause(t, x, lo, hi) } }
// the first n of them
spec fn sem_PatternMatchClause_list(t: Toks, v: Seq<WithMetaData<NodePatternMatchClause>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_PatternMatchClause(m, hi) && lo <= m < hi && sem_PatternMatchClause_list(t, v, n - 1, lo, m) && sem_PatternMatchClause(t, v[n - 1], m, hi) }
}
spec fn r_PatternMatchClause(lo: int, hi: int) -> bool { true }
spec fn r_PatternMatchClause_opt(lo: int, hi: int) -> bool { true }
spec fn r_PatternMatchClause_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_RemoteFetchStatement(t: Toks, v: NodeRemoteFetchStatement, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (match v { NodeRemoteFetchStatement::ReadStateMutable(a, b, c) => (exists|e0: int, s3: int, e3: int, s5: int| #![trigger r_RegularId(lo, e0), r_RegularId(s3, e3), r_VariableIdentifier(s5, hi)] lo < e0 && s3 == e0 + 2 && s3 < e3 && s5 == e3 + 1 && s5 < hi && lo <= e0 <= hi && lo <= s3 <= hi && lo <= e3 <= hi && lo <= s5 <= hi && t[e0].tok == Token::<Seq<char>>::LeftArrow && t[e0 + 1].tok == Token::<Seq<char>>::Ampersand && t[e3].tok == Token::<Seq<char>>::Dot && r_RegularId(lo, e0) && sem_RegularId(t, a, lo, e0) && r_RegularId(s3, e3) && sem_RegularId(t, b, s3, e3) && r_VariableIdentifier(s5, hi) && sem_VariableIdentifier(t, c, s5, hi)), _ => false })
        || (match v { NodeRemoteFetchStatement::ReadStateMutableSpecialId(a, b, c) => (exists|e0: int, s3: int, e3: int, s5: int| #![trigger r_RegularId(lo, e0), r_SpecialId(s3, e3), r_SpecialId(s5, hi)] lo < e0 && s3 == e0 + 2 && s3 < e3 && s5 == e3 + 1 && s5 < hi && lo <= e0 <= hi && lo <= s3 <= hi && lo <= e3 <= hi && lo <= s5 <= hi && t[e0].tok == Token::<Seq<char>>::LeftArrow && t[e0 + 1].tok == Token::<Seq<char>>::Ampersand && t[e3].tok == Token::<Seq<char>>::Dot && r_RegularId(lo, e0) && sem_RegularId(t, a, lo, e0) && r_SpecialId(s3, e3) && sem_SpecialId(t, b, s3, e3) && r_SpecialId(s5, hi) && sem_SpecialId(t, c, s5, hi)), _ => false })
        || (match v { NodeRemoteFetchStatement::ReadStateMutableMapAccess(a, b, c, d) => (exists|e0: int, s3: int, e3: int, s5: int, e5: int| #![trigger r_RegularId(lo, e0), r_RegularId(s3, e3), r_RegularId(s5, e5), r_MapAccess_list(e5, hi)] lo < e0 && s3 == e0 + 2 && s3 < e3 && s5 == e3 + 1 && s5 < e5 && e5 < hi && lo <= e0 <= hi && lo <= s3 <= hi && lo <= e3 <= hi && lo <= s5 <= hi && lo <= e5 <= hi && t[e0].tok == Token::<Seq<char>>::LeftArrow && t[e0 + 1].tok == Token::<Seq<char>>::Ampersand && t[e3].tok == Token::<Seq<char>>::Dot && r_RegularId(lo, e0) && sem_RegularId(t, a, lo, e0) && r_RegularId(s3, e3) && sem_RegularId(t, b, s3, e3) && r_RegularId(s5, e5) && sem_RegularId(t, c, s5, e5) && r_MapAccess_list(e5, hi) && sem_MapAccess_list(t, d@, d@.len() as int, e5, hi)), _ => false })
        || (match v { NodeRemoteFetchStatement::ReadStateMutableMapAccessExists(a, b, c, d) => (exists|e0: int, s4: int, e4: int, s6: int, e6: int| #![trigger r_RegularId(lo, e0), r_RegularId(s4, e4), r_RegularId(s6, e6), r_MapAccess_list(e6, hi)] lo < e0 && s4 == e0 + 3 && s4 < e4 && s6 == e4 + 1 && s6 < e6 && e6 < hi && lo <= e0 <= hi && lo <= s4 <= hi && lo <= e4 <= hi && lo <= s6 <= hi && lo <= e6 <= hi && t[e0].tok == Token::<Seq<char>>::LeftArrow && t[e0 + 1].tok == Token::<Seq<char>>::Ampersand && t[e0 + 2].tok == Token::<Seq<char>>::Exists && t[e4].tok == Token::<Seq<char>>::Dot && r_RegularId(lo, e0) && sem_RegularId(t, a, lo, e0) && r_RegularId(s4, e4) && sem_RegularId(t, b, s4, e4) && r_RegularId(s6, e6) && sem_RegularId(t, c, s6, e6) && r_MapAccess_list(e6, hi) && sem_MapAccess_list(t, d@, d@.len() as int, e6, hi)), _ => false })
        || (match v { NodeRemoteFetchStatement::ReadStateMutableCastAddress(a, b, c) => (exists|e0: int, s3: int, e3: int, s5: int| #![trigger r_RegularId(lo, e0), r_VariableIdentifier(s3, e3), r_AddressType(s5, hi)] lo < e0 && s3 == e0 + 2 && s3 < e3 && s5 == e3 + 1 && s5 < hi && lo <= e0 <= hi && lo <= s3 <= hi && lo <= e3 <= hi && lo <= s5 <= hi && t[e0].tok == Token::<Seq<char>>::LeftArrow && t[e0 + 1].tok == Token::<Seq<char>>::Ampersand && t[e3].tok == Token::<Seq<char>>::As && r_RegularId(lo, e0) && sem_RegularId(t, a, lo, e0) && r_VariableIdentifier(s3, e3) && sem_VariableIdentifier(t, b, s3, e3) && r_AddressType(s5, hi) && sem_AddressType(t, c, s5, hi)), _ => false })
    )
}
broadcast proof fn i_sem_RemoteFetchStatement(t: Toks, v: NodeRemoteFetchStatement, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        (match v { NodeRemoteFetchStatement::ReadStateMutable(a, b, c) => (exists|e0: int, s3: int, e3: int, s5: int| #![trigger r_RegularId(lo, e0), r_RegularId(s3, e3), r_VariableIdentifier(s5, hi)] lo < e0 && s3 == e0 + 2 && s3 < e3 && s5 == e3 + 1 && s5 < hi && lo <= e0 <= hi && lo <= s3 <= hi && lo <= e3 <= hi && lo <= s5 <= hi && t[e0].tok == Token::<Seq<char>>::LeftArrow && t[e0 + 1].tok == Token::<Seq<char>>::Ampersand && t[e3].tok == Token::<Seq<char>>::Dot && r_RegularId(lo, e0) && sem_RegularId(t, a, lo, e0) && r_RegularId(s3, e3) && sem_RegularId(t, b, s3, e3) && r_VariableIdentifier(s5, hi) && sem_VariableIdentifier(t, c, s5, hi)), _ => false })
        || (match v { NodeRemoteFetchStatement::ReadStateMutableSpecialId(a, b, c) => (exists|e0: int, s3: int, e3: int, s5: int| #![trigger r_RegularId(lo, e0), r_SpecialId(s3, e3), r_SpecialId(s5, hi)] lo < e0 && s3 == e0 + 2 && s3 < e3 && s5 == e3 + 1 && s5 < hi && lo <= e0 <= hi && lo <= s3 <= hi && lo <= e3 <= hi && lo <= s5 <= hi && t[e0].tok == Token::<Seq<char>>::LeftArrow && t[e0 + 1].tok == Token::<Seq<char>>::Ampersand && t[e3].tok == Token::<Seq<char>>::Dot && r_RegularId(lo, e0) && sem_RegularId(t, a, lo, e0) && r_SpecialId(s3, e3) && sem_SpecialId(t, b, s3, e3) && r_SpecialId(s5, hi) && sem_SpecialId(t, c, s5, hi)), _ => false })
        || (match v { NodeRemoteFetchStatement::ReadStateMutableMapAccess(a, b, c, d) => (exists|e0: int, s3: int, e3: int, s5: int, e5: int| #![trigger r_RegularId(lo, e0), r_RegularId(s3, e3), r_RegularId(s5, e5), r_MapAccess_list(e5, hi)] lo < e0 && s3 == e0 + 2 && s3 < e3 && s5 == e3 + 1 && s5 < e5 && e5 < hi && lo <= e0 <= hi && lo <= s3 <= hi && lo <= e3 <= hi && lo <= s5 <= hi && lo <= e5 <= hi && t[e0].tok == Token::<Seq<char>>::LeftArrow && t[e0 + 1].tok == Token::<Seq<char>>::Ampersand && t[e3].tok == Token::<Seq<char>>::Dot && r_RegularId(lo, e0) && sem_RegularId(t, a, lo, e0) && r_RegularId(s3, e3) && sem_RegularId(t, b, s3, e3) && r_RegularId(s5, e5) && sem_RegularId(t, c, s5, e5) && r_MapAccess_list(e5, hi) && sem_MapAccess_list(t, d@, d@.len() as int, e5, hi)), _ => false })
        || (match v { NodeRemoteFetchStatement::ReadStateMutableMapAccessExists(a, b, c, d) => (exists|e0: int, s4: int, e4: int, s6: int, e6: int| #![trigger r_RegularId(lo, e0), r_RegularId(s4, e4), r_RegularId(s6, e6), r_MapAccess_list(e6, hi)] lo < e0 && s4 == e0 + 3 && s4 < e4 && s6 == e4 + 1 && s6 < e6 && e6 < hi && lo <= e0 <= hi && lo <= s4 <= hi && lo <= e4 <= hi && lo <= s6 <= hi && lo <= e6 <= hi && t[e0].tok == Token::<Seq<char>>::LeftArrow && t[e0 + 1].tok == Token::<Seq<char>>::Ampersand && t[e0 + 2].tok == Token::<Seq<char>>::Exists && t[e4].tok == Token::<Seq<char>>::Dot && r_RegularId(lo, e0) && sem_RegularId(t, a, lo, e0) && r_RegularId(s4, e4) && sem_RegularId(t, b, s4, e4) && r_RegularId(s6, e6) && sem_RegularId(t, c, s6, e6) && r_MapAccess_list(e6, hi) && sem_MapAccess_list(t, d@, d@.len() as int, e6, hi)), _ => false })
        || (match v { NodeRemoteFetchStatement::ReadStateMutableCastAddress(a, b, c) => (exists|e0: int, s3: int, e3: int, s5: int| #![trigger r_RegularId(lo, e0), r_VariableIdentifier(s3, e3), r_AddressType(s5, hi)] lo < e0 && s3 == e0 + 2 && s3 < e3 && s5 == e3 + 1 && s5 < hi && lo <= e0 <= hi && lo <= s3 <= hi && lo <= e3 <= hi && lo <= s5 <= hi && t[e0].tok == Token::<Seq<char>>::LeftArrow && t[e0 + 1].tok == Token::<Seq<char>>::Ampersand && t[e3].tok == Token::<Seq<char>>::As && r_RegularId(lo, e0) && sem_RegularId(t, a, lo, e0) && r_VariableIdentifier(s3, e3) && sem_VariableIdentifier(t, b, s3, e3) && r_AddressType(s5, hi) && sem_AddressType(t, c, s5, hi)), _ => false })
    ),
    ensures #[trigger] sem_RemoteFetchStatement(t, v, lo, hi),
{ reveal(sem_AddressType); reveal(sem_RegularId); reveal(sem_RemoteFetchStatement); reveal(sem_SpecialId); reveal(sem_VariableIdentifier); }
spec fn sem_RemoteFetchStatement_opt(t: Toks, v: Option<NodeRemoteFetchStatement>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_RemoteFetchStatement(lo, hi) && sem_RemoteFetchStatement(t, x, lo, hi) } }
// the first n of them
spec fn sem_RemoteFetchStatement_list(t: Toks, v: Seq<NodeRemoteFetchStatement>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_RemoteFetchStatement(m, hi) && lo <= m < hi && sem_RemoteFetchStatement_list(t, v, n - 1, lo, m) && sem_RemoteFetchStatement(t, v[n - 1], m, hi) }
}
spec fn r_RemoteFetchStatement(lo: int, hi: int) -> bool { true }
spec fn r_RemoteFetchStatement_opt(lo: int, hi: int) -> bool { true }
spec fn r_RemoteFetchStatement_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_MapAccess(t: Toks, v: WithMetaData<NodeMapAccess>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        ({ let m = v.node; (exists|s1: int, e1: int| #![trigger r_VariableIdentifier(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::OpenBracket && t[e1].tok == Token::<Seq<char>>::CloseBracket && r_VariableIdentifier(s1, e1) && sem_VariableIdentifier(t, m.identifier_name, s1, e1)) })
    )
}
broadcast proof fn i_sem_MapAccess(t: Toks, v: WithMetaData<NodeMapAccess>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ({ let m = v.node; (exists|s1: int, e1: int| #![trigger r_VariableIdentifier(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::OpenBracket && t[e1].tok == Token::<Seq<char>>::CloseBracket && r_VariableIdentifier(s1, e1) && sem_VariableIdentifier(t, m.identifier_name, s1, e1)) })
    ),
    ensures #[trigger] sem_MapAccess(t, v, lo, hi),
{ reveal(sem_MapAccess); reveal(sem_VariableIdentifier); }
spec fn sem_MapAccess_opt(t: Toks, v: Option<WithMetaData<NodeMapAccess>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_MapAccess(lo, hi) && sem_MapAccess(t, x, lo, hi) } }
// the first n of them
spec fn sem_MapAccess_list(t: Toks, v: Seq<WithMetaData<NodeMapAccess>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_MapAccess(m, hi) && lo <= m < hi && sem_MapAccess_list(t, v, n - 1, lo, m) && sem_MapAccess(t, v[n - 1], m, hi) }
}
spec fn r_MapAccess(lo: int, hi: int) -> bool { true }
spec fn r_MapAccess_opt(lo: int, hi: int) -> bool { true }
spec fn r_MapAccess_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_ParameterPair(t: Toks, v: WithMetaData<NodeParameterPair>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{
    0 <= lo < hi <= t.len() && (
        ({ let p = v.node; (lo < hi && r_TypedIdentifier(lo, hi) && sem_TypedIdentifier(t, p.identifier_with_type, lo, hi)) })
    )
}
broadcast proof fn i_sem_ParameterPair(t: Toks, v: WithMetaData<NodeParameterPair>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ({ let p = v.node; (lo < hi && r_TypedIdentifier(lo, hi) && sem_TypedIdentifier(t, p.identifier_with_type, lo, hi)) })
    ),
    ensures #[trigger] sem_ParameterPair(t, v, lo, hi),
{ reveal(sem_ParameterPair); reveal(sem_TypedIdentifier); }
spec fn sem_ParameterPair_opt(t: Toks, v: Option<WithMetaData<NodeParameterPair>>, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{ match v { None => lo == hi, Some(x) => r_ParameterPair(lo, hi) && sem_ParameterPair(t, x, lo, hi) } }
// the first n of them
spec fn sem_ParameterPair_list(t: Toks, v: Seq<WithMetaData<NodeParameterPair>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_ParameterPair(m, hi) && lo <= m < hi && sem_ParameterPair_list(t, v, n - 1, lo, m) && sem_ParameterPair(t, v[n - 1], m, hi) }
}
spec fn r_ParameterPair(lo: int, hi: int) -> bool { true }
spec fn r_ParameterPair_opt(lo: int, hi: int) -> bool { true }
spec fn r_ParameterPair_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_NextParameterPair(t: Toks, v: WithMetaData<NodeParameterPair>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        ((exists|s1: int| #![trigger r_ParameterPair(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok == Token::<Seq<char>>::Comma && r_ParameterPair(s1, hi) && sem_ParameterPair(t, v, s1, hi)))
    )
}
broadcast proof fn i_sem_NextParameterPair(t: Toks, v: WithMetaData<NodeParameterPair>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ((exists|s1: int| #![trigger r_ParameterPair(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok == Token::<Seq<char>>::Comma && r_ParameterPair(s1, hi) && sem_ParameterPair(t, v, s1, hi)))
    ),
    ensures #[trigger] sem_NextParameterPair(t, v, lo, hi),
{ reveal(sem_NextParameterPair); reveal(sem_ParameterPair); }
spec fn sem_NextParameterPair_opt(t: Toks, v: Option<WithMetaData<NodeParameterPair>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_NextParameterPair(lo, hi) && sem_NextParameterPair(t, x, lo, hi) } }
// the first n of them
spec fn sem_NextParameterPair_list(t: Toks, v: Seq<WithMetaData<NodeParameterPair>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_NextParameterPair(m, hi) && lo <= m < hi && sem_NextParameterPair_list(t, v, n - 1, lo, m) && sem_NextParameterPair(t, v[n - 1], m, hi) }
}
spec fn r_NextParameterPair(lo: int, hi: int) -> bool { true }
spec fn r_NextParameterPair_opt(lo: int, hi: int) -> bool { true }
spec fn r_NextParameterPair_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_ComponentParameters(t: Toks, v: WithMetaData<NodeComponentParameters>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        ({ let p = v.node; (p.parameters@.len() == 0) && (hi == lo + 2 && t[lo].tok == Token::<Seq<char>>::OpenParen && t[lo + 1].tok == Token::<Seq<char>>::CloseParen) })
        || ({ let p = v.node; (p.parameters@.len() >= 1) && (exists|s1: int, e1: int, e2: int| #![trigger r_ParameterPair(s1, e1), r_NextParameterPair_list(e1, e2)] s1 == lo + 1 && s1 < e1 && e1 <= e2 && hi == e2 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && t[lo].tok == Token::<Seq<char>>::OpenParen && t[e2].tok == Token::<Seq<char>>::CloseParen && r_ParameterPair(s1, e1) && sem_ParameterPair(t, p.parameters@[0], s1, e1) && r_NextParameterPair_list(e1, e2) && sem_NextParameterPair_list(t, tail(p.parameters@), tail(p.parameters@).len() as int, e1, e2)) })
    )
}
broadcast proof fn i_sem_ComponentParameters(t: Toks, v: WithMetaData<NodeComponentParameters>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ({ let p = v.node; (p.parameters@.len() == 0) && (hi == lo + 2 && t[lo].tok == Token::<Seq<char>>::OpenParen && t[lo + 1].tok == Token::<Seq<char>>::CloseParen) })
        || ({ let p = v.node; (p.parameters@.len() >= 1) && (exists|s1: int, e1: int, e2: int| #![trigger r_ParameterPair(s1, e1), r_NextParameterPair_list(e1, e2)] s1 == lo + 1 && s1 < e1 && e1 <= e2 && hi == e2 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && t[lo].tok == Token::<Seq<char>>::OpenParen && t[e2].tok == Token::<Seq<char>>::CloseParen && r_ParameterPair(s1, e1) && sem_ParameterPair(t, p.parameters@[0], s1, e1) && r_NextParameterPair_list(e1, e2) && sem_NextParameterPair_list(t, tail(p.parameters@), tail(p.parameters@).len() as int, e1, e2)) })
    ),
    ensures #[trigger] sem_ComponentParameters(t, v, lo, hi),
{ reveal(sem_ComponentParameters); reveal(sem_ParameterPair); }
spec fn sem_ComponentParameters_opt(t: Toks, v: Option<WithMetaData<NodeComponentParameters>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_ComponentParameters(lo, hi) && sem_ComponentParameters(t, x, lo, hi) } }
// the first n of them
spec fn sem_ComponentParameters_list(t: Toks, v: Seq<WithMetaData<NodeComponentParameters>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_ComponentParameters(m, hi) && lo <= m < hi && sem_ComponentParameters_list(t, v, n - 1, lo, m) && sem_ComponentParameters(t, v[n - 1], m, hi) }
}
spec fn r_ComponentParameters(lo: int, hi: int) -> bool { true }
spec fn r_ComponentParameters_opt(lo: int, hi: int) -> bool { true }
spec fn r_ComponentParameters_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_ComponentDefinition(t: Toks, v: WithMetaData<NodeComponentDefinition>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeComponentDefinition::TransitionComponent(a) => (lo < hi && r_TransitionDefinition(lo, hi) && sem_TransitionDefinition(t, *a, lo, hi)), _ => false })
        || (match v.node { NodeComponentDefinition::ProcedureComponent(a) => (lo < hi && r_ProcedureDefinition(lo, hi) && sem_ProcedureDefinition(t, *a, lo, hi)), _ => false })
    )
}
broadcast proof fn i_sem_ComponentDefinition(t: Toks, v: WithMetaData<NodeComponentDefinition>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        (match v.node { NodeComponentDefinition::TransitionComponent(a) => (lo < hi && r_TransitionDefinition(lo, hi) && sem_TransitionDefinition(t, *a, lo, hi)), _ => false })
        || (match v.node { NodeComponentDefinition::ProcedureComponent(a) => (lo < hi && r_ProcedureDefinition(lo, hi) && sem_ProcedureDefinition(t, *a, lo, hi)), _ => false })
    ),
    ensures #[trigger] sem_ComponentDefinition(t, v, lo, hi),
{ reveal(sem_ComponentDefinition); reveal(sem_ProcedureDefinition); reveal(sem_TransitionDefinition); }
spec fn sem_ComponentDefinition_opt(t: Toks, v: Option<WithMetaData<NodeComponentDefinition>>, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{ match v { None => lo == hi, Some(x) => r_ComponentDefinition(lo, hi) && sem_ComponentDefinition(t, x, lo, hi) } }
// the first n of them
spec fn sem_ComponentDefinition_list(t: Toks, v: Seq<WithMetaData<NodeComponentDefinition>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_ComponentDefinition(m, hi) && lo <= m < hi && sem_ComponentDefinition_list(t, v, n - 1, lo, m) && sem_ComponentDefinition(t, v[n - 1], m, hi) }
}
spec fn r_ComponentDefinition(lo: int, hi: int) -> bool { true }
spec fn r_ComponentDefinition_opt(lo: int, hi: int) -> bool { true }
spec fn r_ComponentDefinition_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_TransitionDefinition(t: Toks, v: WithMetaData<NodeTransitionDefinition>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        ({ let d = v.node; (exists|s1: int, e1: int, e2: int| #![trigger r_ComponentId(s1, e1), r_ComponentParameters(e1, e2), r_ComponentBody(e2, hi)] s1 == lo + 1 && s1 < e1 && e1 < e2 && e2 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && t[lo].tok == Token::<Seq<char>>::Transition && r_ComponentId(s1, e1) && sem_ComponentId(t, d.name, s1, e1) && r_ComponentParameters(e1, e2) && sem_ComponentParameters(t, d.parameters, e1, e2) && r_ComponentBody(e2, hi) && sem_ComponentBody(t, d.body, e2, hi)) })
    )
}
broadcast proof fn i_sem_TransitionDefinition(t: Toks, v: WithMetaData<NodeTransitionDefinition>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ({ let d = v.node; (exists|s1: int, e1: int, e2: int| #![trigger r_ComponentId(s1, e1), r_ComponentParameters(e1, e2), r_ComponentBody(e2, hi)] s1 == lo + 1 && s1 < e1 && e1 < e2 && e2 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && t[lo].tok == Token::<Seq<char>>::Transition && r_ComponentId(s1, e1) && sem_ComponentId(t, d.name, s1, e1) && r_ComponentParameters(e1, e2) && sem_ComponentParameters(t, d.parameters, e1, e2) && r_ComponentBody(e2, hi) && sem_ComponentBody(t, d.body, e2, hi)) })
    ),
    ensures #[trigger] sem_TransitionDefinition(t, v, lo, hi),
{ reveal(sem_ComponentBody); reveal(sem_ComponentId); reveal(sem_ComponentParameters); reveal(sem_TransitionDefinition); }
spec fn sem_TransitionDefinition_opt(t: Toks, v: Option<WithMetaData<NodeTransitionDefinition>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_TransitionDefinition(lo, hi) && sem_TransitionDefinition(t, x, lo, hi) } }
// the first n of them
spec fn sem_TransitionDefinition_list(t: Toks, v: Seq<WithMetaData<NodeTransitionDefinition>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_TransitionDefinition(m, hi) && lo <= m < hi && sem_TransitionDefinition_list(t, v, n - 1, lo, m) && sem_TransitionDefinition(t, v[n - 1], m, hi) }
}
spec fn r_TransitionDefinition(lo: int, hi: int) -> bool { true }
spec fn r_TransitionDefinition_opt(lo: int, hi: int) -> bool { true }
spec fn r_TransitionDefinition_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_ProcedureDefinition(t: Toks, v: WithMetaData<NodeProcedureDefinition>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        ({ let d = v.node; (exists|s1: int, e1: int, e2: int| #![trigger r_ComponentId(s1, e1), r_ComponentParameters(e1, e2), r_ComponentBody(e2, hi)] s1 == lo + 1 && s1 < e1 && e1 < e2 && e2 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && t[lo].tok == Token::<Seq<char>>::Procedure && r_ComponentId(s1, e1) && sem_ComponentId(t, d.name, s1, e1) && r_ComponentParameters(e1, e2) && sem_ComponentParameters(t, d.parameters, e1, e2) && r_ComponentBody(e2, hi) && sem_ComponentBody(t, d.body, e2, hi)) })
    )
}
broadcast proof fn i_sem_ProcedureDefinition(t: Toks, v: WithMetaData<NodeProcedureDefinition>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ({ let d = v.node; (exists|s1: int, e1: int, e2: int| #![trigger r_ComponentId(s1, e1), r_ComponentParameters(e1, e2), r_ComponentBody(e2, hi)] s1 == lo + 1 && s1 < e1 && e1 < e2 && e2 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && t[lo].tok == Token::<Seq<char>>::Procedure && r_ComponentId(s1, e1) && sem_ComponentId(t, d.name, s1, e1) && r_ComponentParameters(e1, e2) && sem_ComponentParameters(t, d.parameters, e1, e2) && r_ComponentBody(e2, hi) && sem_ComponentBody(t, d.body, e2, hi)) })
    ),
    ensures #[trigger] sem_ProcedureDefinition(t, v, lo, hi),
{ reveal(sem_ComponentBody); reveal(sem_ComponentId); reveal(sem_ComponentParameters); reveal(sem_ProcedureDefinition); }
spec fn sem_ProcedureDefinition_opt(t: Toks, v: Option<WithMetaData<NodeProcedureDefinition>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_ProcedureDefinition(lo, hi) && sem_ProcedureDefinition(t, x, lo, hi) } }
// the first n of them
spec fn sem_ProcedureDefinition_list(t: Toks, v: Seq<WithMetaData<NodeProcedureDefinition>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_ProcedureDefinition(m, hi) && lo <= m < hi && sem_ProcedureDefinition_list(t, v, n - 1, lo, m) && sem_ProcedureDefinition(t, v[n - 1], m, hi) }
}
spec fn r_ProcedureDefinition(lo: int, hi: int) -> bool { true }
spec fn r_ProcedureDefinition_opt(lo: int, hi: int) -> bool { true }
spec fn r_ProcedureDefinition_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_ComponentBody(t: Toks, v: WithMetaData<NodeComponentBody>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        ({ let b = v.node; (exists|e0: int| #![trigger r_StatementBlock_opt(lo, e0)] lo <= e0 && hi == e0 + 1 && lo <= e0 <= hi && t[e0].tok == Token::<Seq<char>>::End && r_StatementBlock_opt(lo, e0) && sem_StatementBlock_opt(t, b.statement_block, lo, e0)) })
    )
}
broadcast proof fn i_sem_ComponentBody(t: Toks, v: WithMetaData<NodeComponentBody>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ({ let b = v.node; (exists|e0: int| #![trigger r_StatementBlock_opt(lo, e0)] lo <= e0 && hi == e0 + 1 && lo <= e0 <= hi && t[e0].tok == Token::<Seq<char>>::End && r_StatementBlock_opt(lo, e0) && sem_StatementBlock_opt(t, b.statement_block, lo, e0)) })
    ),
    ensures #[trigger] sem_ComponentBody(t, v, lo, hi),
{ reveal(sem_ComponentBody); }
spec fn sem_ComponentBody_opt(t: Toks, v: Option<WithMetaData<NodeComponentBody>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_ComponentBody(lo, hi) && sem_ComponentBody(t, x, lo, hi) } }
// the first n of them
spec fn sem_ComponentBody_list(t: Toks, v: Seq<WithMetaData<NodeComponentBody>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_ComponentBody(m, hi) && lo <= m < hi && sem_ComponentBody_list(t, v, n - 1, lo, m) && sem_ComponentBody(t, v[n - 1], m, hi) }
}
spec fn r_ComponentBody(lo: int, hi: int) -> bool { true }
spec fn r_ComponentBody_opt(lo: int, hi: int) -> bool { true }
spec fn r_ComponentBody_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_ContractDefinition(t: Toks, v: WithMetaData<NodeContractDefinition>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        ({ let c = v.node; (exists|s1: int, e1: int, e2: int, e3: int, e4: int| #![trigger r_TypeNameIdentifier(s1, e1), r_ComponentParameters(e1, e2), r_WithConstraint_opt(e2, e3), r_ContractField_list(e3, e4), r_ComponentDefinition_list(e4, hi)] s1 == lo + 1 && s1 < e1 && e1 < e2 && e2 <= e3 && e3 <= e4 && e4 <= hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && lo <= e3 <= hi && lo <= e4 <= hi && t[lo].tok == Token::<Seq<char>>::Contract && r_TypeNameIdentifier(s1, e1) && sem_TypeNameIdentifier(t, c.contract_name, s1, e1) && r_ComponentParameters(e1, e2) && sem_ComponentParameters(t, c.parameters, e1, e2) && r_WithConstraint_opt(e2, e3) && sem_WithConstraint_opt(t, c.constraint, e2, e3) && r_ContractField_list(e3, e4) && sem_ContractField_list(t, c.fields@, c.fields@.len() as int, e3, e4) && r_ComponentDefinition_list(e4, hi) && sem_ComponentDefinition_list(t, c.components@, c.components@.len() as int, e4, hi)) })
    )
}
broadcast proof fn i_sem_ContractDefinition(t: Toks, v: WithMetaData<NodeContractDefinition>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ({ let c = v.node; (exists|s1: int, e1: int, e2: int, e3: int, e4: int| #![trigger r_TypeNameIdentifier(s1, e1), r_ComponentParameters(e1, e2), r_WithConstraint_opt(e2, e3), r_ContractField_list(e3, e4), r_ComponentDefinition_list(e4, hi)] s1 == lo + 1 && s1 < e1 && e1 < e2 && e2 <= e3 && e3 <= e4 && e4 <= hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && lo <= e3 <= hi && lo <= e4 <= hi && t[lo].tok == Token::<Seq<char>>::Contract && r_TypeNameIdentifier(s1, e1) && sem_TypeNameIdentifier(t, c.contract_name, s1, e1) && r_ComponentParameters(e1, e2) && sem_ComponentParameters(t, c.parameters, e1, e2) && r_WithConstraint_opt(e2, e3) && sem_WithConstraint_opt(t, c.constraint, e2, e3) && r_ContractField_list(e3, e4) && sem_ContractField_list(t, c.fields@, c.fields@.len() as int, e3, e4) && r_ComponentDefinition_list(e4, hi) && sem_ComponentDefinition_list(t, c.components@, c.components@.len() as int, e4, hi)) })
    ),
    ensures #[trigger] sem_ContractDefinition(t, v, lo, hi),
{ reveal(sem_ComponentParameters); reveal(sem_ContractDefinition); reveal(sem_TypeNameIdentifier); }
spec fn sem_ContractDefinition_opt(t: Toks, v: Option<WithMetaData<NodeContractDefinition>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_ContractDefinition(lo, hi) && sem_ContractDefinition(t, x, lo, hi) } }
// the first n of them
spec fn sem_ContractDefinition_list(t: Toks, v: Seq<WithMetaData<NodeContractDefinition>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_ContractDefinition(m, hi) && lo <= m < hi && sem_ContractDefinition_list(t, v, n - 1, lo, m) && sem_ContractDefinition(t, v[n - 1], m, hi) }
}
spec fn r_ContractDefinition(lo: int, hi: int) -> bool { true }
spec fn r_ContractDefinition_opt(lo: int, hi: int) -> bool { true }
spec fn r_ContractDefinition_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_ContractField(t: Toks, v: WithMetaData<NodeContractField>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        ({ let f = v.node; (exists|s1: int, e1: int, s3: int| #![trigger r_TypedIdentifier(s1, e1), r_FullExpression(s3, hi)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && t[lo].tok == Token::<Seq<char>>::Field && t[e1].tok == Token::<Seq<char>>::Equals && r_TypedIdentifier(s1, e1) && sem_TypedIdentifier(t, f.typed_identifier, s1, e1) && r_FullExpression(s3, hi) && sem_FullExpression(t, f.right_hand_side, s3, hi)) })
    )
}
broadcast proof fn i_sem_ContractField(t: Toks, v: WithMetaData<NodeContractField>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ({ let f = v.node; (exists|s1: int, e1: int, s3: int| #![trigger r_TypedIdentifier(s1, e1), r_FullExpression(s3, hi)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && t[lo].tok == Token::<Seq<char>>::Field && t[e1].tok == Token::<Seq<char>>::Equals && r_TypedIdentifier(s1, e1) && sem_TypedIdentifier(t, f.typed_identifier, s1, e1) && r_FullExpression(s3, hi) && sem_FullExpression(t, f.right_hand_side, s3, hi)) })
    ),
    ensures #[trigger] sem_ContractField(t, v, lo, hi),
{ reveal(sem_ContractField); reveal(sem_FullExpression); reveal(sem_TypedIdentifier); }
spec fn sem_ContractField_opt(t: Toks, v: Option<WithMetaData<NodeContractField>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_ContractField(lo, hi) && sem_ContractField(t, x, lo, hi) } }
// the first n of them
spec fn sem_ContractField_list(t: Toks, v: Seq<WithMetaData<NodeContractField>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_ContractField(m, hi) && lo <= m < hi && sem_ContractField_list(t, v, n - 1, lo, m) && sem_ContractField(t, v[n - 1], m, hi) }
}
spec fn r_ContractField(lo: int, hi: int) -> bool { true }
spec fn r_ContractField_opt(lo: int, hi: int) -> bool { true }
spec fn r_ContractField_list(lo: int, hi: int) -> bool { true }
#[verifier::opaque]
spec fn sem_WithConstraint(t: Toks, v: WithMetaData<NodeWithConstraint>, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        ({ let w = v.node; (exists|s1: int, e1: int| #![trigger r_FullExpression(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::With && t[e1].tok == Token::<Seq<char>>::DoubleArrow && r_FullExpression(s1, e1) && sem_FullExpression(t, *w.expression, s1, e1)) })
    )
}
broadcast proof fn i_sem_WithConstraint(t: Toks, v: WithMetaData<NodeWithConstraint>, lo: int, hi: int)
    requires
    0 <= lo < hi <= t.len() && (
        ({ let w = v.node; (exists|s1: int, e1: int| #![trigger r_FullExpression(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok == Token::<Seq<char>>::With && t[e1].tok == Token::<Seq<char>>::DoubleArrow && r_FullExpression(s1, e1) && sem_FullExpression(t, *w.expression, s1, e1)) })
    ),
    ensures #[trigger] sem_WithConstraint(t, v, lo, hi),
{ reveal(sem_FullExpression); reveal(sem_WithConstraint); }
spec fn sem_WithConstraint_opt(t: Toks, v: Option<WithMetaData<NodeWithConstraint>>, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ match v { None => lo == hi, Some(x) => r_WithConstraint(lo, hi) && sem_WithConstraint(t, x, lo, hi) } }
// the first n of them
spec fn sem_WithConstraint_list(t: Toks, v: Seq<WithMetaData<NodeWithConstraint>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_WithConstraint(m, hi) && lo <= m < hi && sem_WithConstraint_list(t, v, n - 1, lo, m) && sem_WithConstraint(t, v[n - 1], m, hi) }
}
spec fn r_WithConstraint(lo: int, hi: int) -> bool { true }
spec fn r_WithConstraint_opt(lo: int, hi: int) -> bool { true }
spec fn r_WithConstraint_list(lo: int, hi: int) -> bool { true }
// The first n names of a run of import declarations.
spec fn r_imports(lo: int, hi: int) -> bool { true }
spec fn sem_imports(t: Toks, v: Seq<WithMetaData<NodeImportedName>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, 5nat
{
    0 <= lo < hi <= t.len() && n >= 1 && (
        (t[lo].tok == Token::<Seq<char>>::Import && sem_ImportedName_list(t, v, n, lo + 1, hi))
        || (exists|m: int, k: int| #![trigger r_imports(lo, m), r_ImportedName(k, hi)]
            lo < m < hi && k == m + 1 && k < hi && r_imports(lo, m) && r_ImportedName(k, hi) && sem_imports(t, v, n - 1, lo, m) && t[m].tok == Token::<Seq<char>>::Import && sem_ImportedName(t, v[n - 1], k, hi))
    )
}
broadcast proof fn lemma_list_push(t: Toks, v: Seq<WithMetaData<NodeImportedName>>, x: WithMetaData<NodeImportedName>, n: int, lo: int, hi: int)
    requires n <= v.len(), #[trigger] sem_ImportedName_list(t, v, n, lo, hi),
    ensures sem_ImportedName_list(t, (#[trigger] v.push(x)), n, lo, hi),
    decreases n,
{
    if n > 0 {
        let m = choose|m: int| #[trigger] r_ImportedName(m, hi) && lo <= m < hi && sem_ImportedName_list(t, v, n - 1, lo, m) && sem_ImportedName(t, v[n - 1], m, hi);
        lemma_list_push(t, v, x, n - 1, lo, m);
        assert(v.push(x)[n - 1] == v[n - 1]);
    }
}
broadcast proof fn lemma_imports_push(t: Toks, v: Seq<WithMetaData<NodeImportedName>>, x: WithMetaData<NodeImportedName>, n: int, lo: int, hi: int)
    requires n <= v.len(), #[trigger] sem_imports(t, v, n, lo, hi),
    ensures sem_imports(t, (#[trigger] v.push(x)), n, lo, hi),
    decreases hi - lo,
{
    if t[lo].tok == Token::<Seq<char>>::Import && sem_ImportedName_list(t, v, n, lo + 1, hi) {
        lemma_list_push(t, v, x, n, lo + 1, hi);
    } else {
        let (m, k) = choose|m: int, k: int| #![trigger r_imports(lo, m), r_ImportedName(k, hi)]
            lo < m < hi && k == m + 1 && k < hi && r_imports(lo, m) && r_ImportedName(k, hi) && sem_imports(t, v, n - 1, lo, m) && t[m].tok == Token::<Seq<char>>::Import && sem_ImportedName(t, v[n - 1], k, hi);
        lemma_imports_push(t, v, x, n - 1, lo, m);
        assert(v.push(x)[n - 1] == v[n - 1]);
    }
}
// ---- positions (C13) ----
// a marker of a range, for the solver's quantifiers
spec fn mk(a: int, b: int) -> bool { true }
spec fn at<T>(x: T) -> bool { true }
// [s, e) is the text of the tokens a .. b - 1.
spec fn ext(t: Toks, s: SourcePosition, e: SourcePosition, a: int, b: int) -> bool { 0 <= a < b <= t.len() && s == t[a].start && e == t[b - 1].end }
#[verifier::opaque]
spec fn in_NodeByteStr(t: Toks, v: NodeByteStr, a: int, b: int) -> bool
    decreases v
{ match v {
    NodeByteStr::Constant(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1),
    NodeByteStr::Type(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1),
} }
broadcast proof fn i_in_NodeByteStr(t: Toks, v: NodeByteStr, a: int, b: int)
    requires (match v {
    NodeByteStr::Constant(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1),
    NodeByteStr::Type(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1),
}),
    ensures #[trigger] in_NodeByteStr(t, v, a, b),
{ reveal(in_NodeByteStr); }
#[verifier::opaque]
spec fn in_NodeTypeNameIdentifier(t: Toks, v: NodeTypeNameIdentifier, a: int, b: int) -> bool
    decreases v
{ match v {
    NodeTypeNameIdentifier::ByteStringType(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x <= y <= b && in_NodeByteStr(t, f0, x, y)),
    NodeTypeNameIdentifier::EventType => true,
    NodeTypeNameIdentifier::TypeOrEnumLikeIdentifier(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1),
} }
broadcast proof fn i_in_NodeTypeNameIdentifier(t: Toks, v: NodeTypeNameIdentifier, a: int, b: int)
    requires (match v {
    NodeTypeNameIdentifier::ByteStringType(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x <= y <= b && in_NodeByteStr(t, f0, x, y)),
    NodeTypeNameIdentifier::EventType => true,
    NodeTypeNameIdentifier::TypeOrEnumLikeIdentifier(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1),
}),
    ensures #[trigger] in_NodeTypeNameIdentifier(t, v, a, b),
{ reveal(in_NodeByteStr); reveal(in_NodeTypeNameIdentifier); }
#[verifier::opaque]
spec fn in_NodeImportedName(t: Toks, v: NodeImportedName, a: int, b: int) -> bool
    decreases v
{ match v {
    NodeImportedName::RegularImport(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeNameIdentifier(t, f0.node, x, y)),
    NodeImportedName::AliasedImport(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeNameIdentifier(t, f0.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && in_NodeTypeNameIdentifier(t, f1.node, x, y)) && (le(f0.end, f1.start) || le(f1.end, f0.start)),
} }
broadcast proof fn i_in_NodeImportedName(t: Toks, v: NodeImportedName, a: int, b: int)
    requires (match v {
    NodeImportedName::RegularImport(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeNameIdentifier(t, f0.node, x, y)),
    NodeImportedName::AliasedImport(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeNameIdentifier(t, f0.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && in_NodeTypeNameIdentifier(t, f1.node, x, y)) && (le(f0.end, f1.start) || le(f1.end, f0.start)),
}),
    ensures #[trigger] in_NodeImportedName(t, v, a, b),
{ reveal(in_NodeImportedName); reveal(in_NodeTypeNameIdentifier); }
#[verifier::opaque]
spec fn in_NodeImportDeclarations(t: Toks, v: NodeImportDeclarations, a: int, b: int) -> bool
    decreases v
{ (forall|i8: int| #![trigger v.import_list@[i8]] 0 <= i8 < v.import_list@.len() ==> at(v.import_list@[i8]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.import_list@[i8].start, v.import_list@[i8].end, x, y) && in_NodeImportedName(t, v.import_list@[i8].node, x, y))) && (forall|i: int, j: int| #![trigger v.import_list@[i], v.import_list@[j]] 0 <= i < j < v.import_list@.len() ==> le(v.import_list@[i].end, v.import_list@[j].start)) }
broadcast proof fn i_in_NodeImportDeclarations(t: Toks, v: NodeImportDeclarations, a: int, b: int)
    requires ((forall|i8: int| #![trigger v.import_list@[i8]] 0 <= i8 < v.import_list@.len() ==> at(v.import_list@[i8]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.import_list@[i8].start, v.import_list@[i8].end, x, y) && in_NodeImportedName(t, v.import_list@[i8].node, x, y))) && (forall|i: int, j: int| #![trigger v.import_list@[i], v.import_list@[j]] 0 <= i < j < v.import_list@.len() ==> le(v.import_list@[i].end, v.import_list@[j].start))),
    ensures #[trigger] in_NodeImportDeclarations(t, v, a, b),
{ reveal(in_NodeImportDeclarations); reveal(in_NodeImportedName); }
#[verifier::opaque]
spec fn in_NodeMetaIdentifier(t: Toks, v: NodeMetaIdentifier, a: int, b: int) -> bool
    decreases v
{ match v {
    NodeMetaIdentifier::MetaName(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeNameIdentifier(t, f0.node, x, y)),
    NodeMetaIdentifier::MetaNameInNamespace(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeNameIdentifier(t, f0.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && in_NodeTypeNameIdentifier(t, f1.node, x, y)) && (le(f0.end, f1.start) || le(f1.end, f0.start)),
    NodeMetaIdentifier::MetaNameInHexspace(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && in_NodeTypeNameIdentifier(t, f1.node, x, y)) && (le(f0.end, f1.start) || le(f1.end, f0.start)),
    NodeMetaIdentifier::ByteString => true,
} }
broadcast proof fn i_in_NodeMetaIdentifier(t: Toks, v: NodeMetaIdentifier, a: int, b: int)
    requires (match v {
    NodeMetaIdentifier::MetaName(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeNameIdentifier(t, f0.node, x, y)),
    NodeMetaIdentifier::MetaNameInNamespace(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeNameIdentifier(t, f0.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && in_NodeTypeNameIdentifier(t, f1.node, x, y)) && (le(f0.end, f1.start) || le(f1.end, f0.start)),
    NodeMetaIdentifier::MetaNameInHexspace(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && in_NodeTypeNameIdentifier(t, f1.node, x, y)) && (le(f0.end, f1.start) || le(f1.end, f0.start)),
    NodeMetaIdentifier::ByteString => true,
}),
    ensures #[trigger] in_NodeMetaIdentifier(t, v, a, b),
{ reveal(in_NodeMetaIdentifier); reveal(in_NodeTypeNameIdentifier); }
#[verifier::opaque]
spec fn in_NodeVariableIdentifier(t: Toks, v: NodeVariableIdentifier, a: int, b: int) -> bool
    decreases v
{ match v {
    NodeVariableIdentifier::VariableName(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1),
    NodeVariableIdentifier::SpecialIdentifier(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1),
    NodeVariableIdentifier::VariableInNamespace(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeNameIdentifier(t, f0.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && y == x + 1) && (le(f0.end, f1.start) || le(f1.end, f0.start)),
} }
broadcast proof fn i_in_NodeVariableIdentifier(t: Toks, v: NodeVariableIdentifier, a: int, b: int)
    requires (match v {
    NodeVariableIdentifier::VariableName(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1),
    NodeVariableIdentifier::SpecialIdentifier(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1),
    NodeVariableIdentifier::VariableInNamespace(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeNameIdentifier(t, f0.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && y == x + 1) && (le(f0.end, f1.start) || le(f1.end, f0.start)),
}),
    ensures #[trigger] in_NodeVariableIdentifier(t, v, a, b),
{ reveal(in_NodeTypeNameIdentifier); reveal(in_NodeVariableIdentifier); }
#[verifier::opaque]
spec fn in_NodeBuiltinArguments(t: Toks, v: NodeBuiltinArguments, a: int, b: int) -> bool
    decreases v
{ (forall|i19: int| #![trigger v.arguments@[i19]] 0 <= i19 < v.arguments@.len() ==> at(v.arguments@[i19]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.arguments@[i19].start, v.arguments@[i19].end, x, y) && in_NodeVariableIdentifier(t, v.arguments@[i19].node, x, y))) && (forall|i: int, j: int| #![trigger v.arguments@[i], v.arguments@[j]] 0 <= i < j < v.arguments@.len() ==> le(v.arguments@[i].end, v.arguments@[j].start)) }
broadcast proof fn i_in_NodeBuiltinArguments(t: Toks, v: NodeBuiltinArguments, a: int, b: int)
    requires ((forall|i19: int| #![trigger v.arguments@[i19]] 0 <= i19 < v.arguments@.len() ==> at(v.arguments@[i19]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.arguments@[i19].start, v.arguments@[i19].end, x, y) && in_NodeVariableIdentifier(t, v.arguments@[i19].node, x, y))) && (forall|i: int, j: int| #![trigger v.arguments@[i], v.arguments@[j]] 0 <= i < j < v.arguments@.len() ==> le(v.arguments@[i].end, v.arguments@[j].start))),
    ensures #[trigger] in_NodeBuiltinArguments(t, v, a, b),
{ reveal(in_NodeBuiltinArguments); reveal(in_NodeVariableIdentifier); }
#[verifier::opaque]
spec fn in_NodeTypeMapKey(t: Toks, v: NodeTypeMapKey, a: int, b: int) -> bool
    decreases v
{ match v {
    NodeTypeMapKey::GenericMapKey(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeMetaIdentifier(t, f0.node, x, y)),
    NodeTypeMapKey::EnclosedGenericId(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeMetaIdentifier(t, f0.node, x, y)),
    NodeTypeMapKey::EnclosedAddressMapKeyType(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeAddressType(t, f0.node, x, y)),
    NodeTypeMapKey::AddressMapKeyType(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeAddressType(t, f0.node, x, y)),
} }
broadcast proof fn i_in_NodeTypeMapKey(t: Toks, v: NodeTypeMapKey, a: int, b: int)
    requires (match v {
    NodeTypeMapKey::GenericMapKey(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeMetaIdentifier(t, f0.node, x, y)),
    NodeTypeMapKey::EnclosedGenericId(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeMetaIdentifier(t, f0.node, x, y)),
    NodeTypeMapKey::EnclosedAddressMapKeyType(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeAddressType(t, f0.node, x, y)),
    NodeTypeMapKey::AddressMapKeyType(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeAddressType(t, f0.node, x, y)),
}),
    ensures #[trigger] in_NodeTypeMapKey(t, v, a, b),
{ reveal(in_NodeAddressType); reveal(in_NodeMetaIdentifier); reveal(in_NodeTypeMapKey); }
#[verifier::opaque]
spec fn in_NodeTypeMapValue(t: Toks, v: NodeTypeMapValue, a: int, b: int) -> bool
    decreases v
{ match v {
    NodeTypeMapValue::MapValueTypeOrEnumLikeIdentifier(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeMetaIdentifier(t, f0.node, x, y)),
    NodeTypeMapValue::MapKeyValue(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f0).start, (*f0).end, x, y) && in_NodeTypeMapEntry(t, (*f0).node, x, y)),
    NodeTypeMapValue::MapValueParenthesizedType(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f0).start, (*f0).end, x, y) && in_NodeTypeMapValueAllowingTypeArguments(t, (*f0).node, x, y)),
    NodeTypeMapValue::MapValueAddressType(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f0).start, (*f0).end, x, y) && in_NodeAddressType(t, (*f0).node, x, y)),
} }
broadcast proof fn i_in_NodeTypeMapValue(t: Toks, v: NodeTypeMapValue, a: int, b: int)
    requires (match v {
    NodeTypeMapValue::MapValueTypeOrEnumLikeIdentifier(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeMetaIdentifier(t, f0.node, x, y)),
    NodeTypeMapValue::MapKeyValue(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f0).start, (*f0).end, x, y) && in_NodeTypeMapEntry(t, (*f0).node, x, y)),
    NodeTypeMapValue::MapValueParenthesizedType(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f0).start, (*f0).end, x, y) && in_NodeTypeMapValueAllowingTypeArguments(t, (*f0).node, x, y)),
    NodeTypeMapValue::MapValueAddressType(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f0).start, (*f0).end, x, y) && in_NodeAddressType(t, (*f0).node, x, y)),
}),
    ensures #[trigger] in_NodeTypeMapValue(t, v, a, b),
{ reveal(in_NodeAddressType); reveal(in_NodeMetaIdentifier); reveal(in_NodeTypeMapEntry); reveal(in_NodeTypeMapValue); reveal(in_NodeTypeMapValueAllowingTypeArguments); }
#[verifier::opaque]
spec fn in_NodeTypeArgument(t: Toks, v: NodeTypeArgument, a: int, b: int) -> bool
    decreases v
{ match v {
    NodeTypeArgument::EnclosedTypeArgument(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f0).start, (*f0).end, x, y) && in_NodeScillaType(t, (*f0).node, x, y)),
    NodeTypeArgument::GenericTypeArgument(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeMetaIdentifier(t, f0.node, x, y)),
    NodeTypeArgument::TemplateTypeArgument(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1),
    NodeTypeArgument::AddressTypeArgument(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeAddressType(t, f0.node, x, y)),
    NodeTypeArgument::MapTypeArgument(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeMapKey(t, f0.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && in_NodeTypeMapValue(t, f1.node, x, y)) && (le(f0.end, f1.start) || le(f1.end, f0.start)),
} }
broadcast proof fn i_in_NodeTypeArgument(t: Toks, v: NodeTypeArgument, a: int, b: int)
    requires (match v {
    NodeTypeArgument::EnclosedTypeArgument(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f0).start, (*f0).end, x, y) && in_NodeScillaType(t, (*f0).node, x, y)),
    NodeTypeArgument::GenericTypeArgument(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeMetaIdentifier(t, f0.node, x, y)),
    NodeTypeArgument::TemplateTypeArgument(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1),
    NodeTypeArgument::AddressTypeArgument(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeAddressType(t, f0.node, x, y)),
    NodeTypeArgument::MapTypeArgument(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeMapKey(t, f0.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && in_NodeTypeMapValue(t, f1.node, x, y)) && (le(f0.end, f1.start) || le(f1.end, f0.start)),
}),
    ensures #[trigger] in_NodeTypeArgument(t, v, a, b),
{ reveal(in_NodeAddressType); reveal(in_NodeMetaIdentifier); reveal(in_NodeScillaType); reveal(in_NodeTypeArgument); reveal(in_NodeTypeMapKey); reveal(in_NodeTypeMapValue); }
#[verifier::opaque]
spec fn in_NodeScillaType(t: Toks, v: NodeScillaType, a: int, b: int) -> bool
    decreases v
{ match v {
    NodeScillaType::GenericTypeWithArgs(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeMetaIdentifier(t, f0.node, x, y)) && (forall|i40: int| #![trigger f1@[i40]] 0 <= i40 < f1@.len() ==> at(f1@[i40]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1@[i40].start, f1@[i40].end, x, y) && in_NodeTypeArgument(t, f1@[i40].node, x, y))) && (forall|i: int, j: int| #![trigger f1@[i], f1@[j]] 0 <= i < j < f1@.len() ==> le(f1@[i].end, f1@[j].start)),
    NodeScillaType::MapType(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeMapKey(t, f0.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && in_NodeTypeMapValue(t, f1.node, x, y)) && (le(f0.end, f1.start) || le(f1.end, f0.start)),
    NodeScillaType::FunctionType(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f0).start, (*f0).end, x, y) && in_NodeScillaType(t, (*f0).node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f1).start, (*f1).end, x, y) && in_NodeScillaType(t, (*f1).node, x, y)) && (le((*f0).end, (*f1).start) || le((*f1).end, (*f0).start)),
    NodeScillaType::EnclosedType(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f0).start, (*f0).end, x, y) && in_NodeScillaType(t, (*f0).node, x, y)),
    NodeScillaType::ScillaAddresseType(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f0).start, (*f0).end, x, y) && in_NodeAddressType(t, (*f0).node, x, y)),
    NodeScillaType::PolyFunctionType(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f1).start, (*f1).end, x, y) && in_NodeScillaType(t, (*f1).node, x, y)) && (le(f0.end, (*f1).start) || le((*f1).end, f0.start)),
    NodeScillaType::TypeVarType(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1),
} }
broadcast proof fn i_in_NodeScillaType(t: Toks, v: NodeScillaType, a: int, b: int)
    requires (match v {
    NodeScillaType::GenericTypeWithArgs(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeMetaIdentifier(t, f0.node, x, y)) && (forall|i40: int| #![trigger f1@[i40]] 0 <= i40 < f1@.len() ==> at(f1@[i40]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1@[i40].start, f1@[i40].end, x, y) && in_NodeTypeArgument(t, f1@[i40].node, x, y))) && (forall|i: int, j: int| #![trigger f1@[i], f1@[j]] 0 <= i < j < f1@.len() ==> le(f1@[i].end, f1@[j].start)),
    NodeScillaType::MapType(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeMapKey(t, f0.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && in_NodeTypeMapValue(t, f1.node, x, y)) && (le(f0.end, f1.start) || le(f1.end, f0.start)),
    NodeScillaType::FunctionType(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f0).start, (*f0).end, x, y) && in_NodeScillaType(t, (*f0).node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f1).start, (*f1).end, x, y) && in_NodeScillaType(t, (*f1).node, x, y)) && (le((*f0).end, (*f1).start) || le((*f1).end, (*f0).start)),
    NodeScillaType::EnclosedType(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f0).start, (*f0).end, x, y) && in_NodeScillaType(t, (*f0).node, x, y)),
    NodeScillaType::ScillaAddresseType(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f0).start, (*f0).end, x, y) && in_NodeAddressType(t, (*f0).node, x, y)),
    NodeScillaType::PolyFunctionType(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f1).start, (*f1).end, x, y) && in_NodeScillaType(t, (*f1).node, x, y)) && (le(f0.end, (*f1).start) || le((*f1).end, f0.start)),
    NodeScillaType::TypeVarType(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1),
}),
    ensures #[trigger] in_NodeScillaType(t, v, a, b),
{ reveal(in_NodeAddressType); reveal(in_NodeMetaIdentifier); reveal(in_NodeScillaType); reveal(in_NodeTypeArgument); reveal(in_NodeTypeMapKey); reveal(in_NodeTypeMapValue); }
#[verifier::opaque]
spec fn in_NodeTypeMapEntry(t: Toks, v: NodeTypeMapEntry, a: int, b: int) -> bool
    decreases v
{ (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.key.start, v.key.end, x, y) && in_NodeTypeMapKey(t, v.key.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.value.start, v.value.end, x, y) && in_NodeTypeMapValue(t, v.value.node, x, y)) && (le(v.key.end, v.value.start) || le(v.value.end, v.key.start)) }
broadcast proof fn i_in_NodeTypeMapEntry(t: Toks, v: NodeTypeMapEntry, a: int, b: int)
    requires ((exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.key.start, v.key.end, x, y) && in_NodeTypeMapKey(t, v.key.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.value.start, v.value.end, x, y) && in_NodeTypeMapValue(t, v.value.node, x, y)) && (le(v.key.end, v.value.start) || le(v.value.end, v.key.start))),
    ensures #[trigger] in_NodeTypeMapEntry(t, v, a, b),
{ reveal(in_NodeTypeMapEntry); reveal(in_NodeTypeMapKey); reveal(in_NodeTypeMapValue); }
#[verifier::opaque]
spec fn in_NodeAddressTypeField(t: Toks, v: NodeAddressTypeField, a: int, b: int) -> bool
    decreases v
{ (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.identifier.start, v.identifier.end, x, y) && in_NodeVariableIdentifier(t, v.identifier.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.type_name.start, v.type_name.end, x, y) && in_NodeScillaType(t, v.type_name.node, x, y)) && (le(v.identifier.end, v.type_name.start) || le(v.type_name.end, v.identifier.start)) }
broadcast proof fn i_in_NodeAddressTypeField(t: Toks, v: NodeAddressTypeField, a: int, b: int)
    requires ((exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.identifier.start, v.identifier.end, x, y) && in_NodeVariableIdentifier(t, v.identifier.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.type_name.start, v.type_name.end, x, y) && in_NodeScillaType(t, v.type_name.node, x, y)) && (le(v.identifier.end, v.type_name.start) || le(v.type_name.end, v.identifier.start))),
    ensures #[trigger] in_NodeAddressTypeField(t, v, a, b),
{ reveal(in_NodeAddressTypeField); reveal(in_NodeScillaType); reveal(in_NodeVariableIdentifier); }
#[verifier::opaque]
spec fn in_NodeAddressType(t: Toks, v: NodeAddressType, a: int, b: int) -> bool
    decreases v
{ (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.identifier.start, v.identifier.end, x, y) && in_NodeTypeNameIdentifier(t, v.identifier.node, x, y)) && (v.type_name.node@.len() == 0 || (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.type_name.start, v.type_name.end, x, y) && y == x + 1)) && (forall|i62: int| #![trigger v.address_fields@[i62]] 0 <= i62 < v.address_fields@.len() ==> at(v.address_fields@[i62]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.address_fields@[i62].start, v.address_fields@[i62].end, x, y) && in_NodeAddressTypeField(t, v.address_fields@[i62].node, x, y))) && (forall|i: int, j: int| #![trigger v.address_fields@[i], v.address_fields@[j]] 0 <= i < j < v.address_fields@.len() ==> le(v.address_fields@[i].end, v.address_fields@[j].start)) && (!(v.type_name.node@.len() == 0) ==> (le(v.identifier.end, v.type_name.start) || le(v.type_name.end, v.identifier.start))) }
broadcast proof fn i_in_NodeAddressType(t: Toks, v: NodeAddressType, a: int, b: int)
    requires ((exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.identifier.start, v.identifier.end, x, y) && in_NodeTypeNameIdentifier(t, v.identifier.node, x, y)) && (v.type_name.node@.len() == 0 || (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.type_name.start, v.type_name.end, x, y) && y == x + 1)) && (forall|i62: int| #![trigger v.address_fields@[i62]] 0 <= i62 < v.address_fields@.len() ==> at(v.address_fields@[i62]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.address_fields@[i62].start, v.address_fields@[i62].end, x, y) && in_NodeAddressTypeField(t, v.address_fields@[i62].node, x, y))) && (forall|i: int, j: int| #![trigger v.address_fields@[i], v.address_fields@[j]] 0 <= i < j < v.address_fields@.len() ==> le(v.address_fields@[i].end, v.address_fields@[j].start)) && (!(v.type_name.node@.len() == 0) ==> (le(v.identifier.end, v.type_name.start) || le(v.type_name.end, v.identifier.start)))),
    ensures #[trigger] in_NodeAddressType(t, v, a, b),
{ reveal(in_NodeAddressType); reveal(in_NodeAddressTypeField); reveal(in_NodeTypeNameIdentifier); }
#[verifier::opaque]
spec fn in_NodeFullExpression(t: Toks, v: NodeFullExpression, a: int, b: int) -> bool
    decreases v
{ match v {
    NodeFullExpression::LocalVariableDeclaration { identifier_name: f_identifier_name, expression: f_expression, type_annotation: f_type_annotation, containing_expression: f_containing_expression } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_identifier_name.start, f_identifier_name.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f_expression).start, (*f_expression).end, x, y) && in_NodeFullExpression(t, (*f_expression).node, x, y)) && (match f_type_annotation { Some(z67) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, z67.start, z67.end, x, y) && in_NodeTypeAnnotation(t, z67.node, x, y)), None => true }) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f_containing_expression).start, (*f_containing_expression).end, x, y) && in_NodeFullExpression(t, (*f_containing_expression).node, x, y)) && (le(f_identifier_name.end, (*f_expression).start) || le((*f_expression).end, f_identifier_name.start)) && (f_type_annotation is Some ==> (le(f_identifier_name.end, f_type_annotation->0.start) || le(f_type_annotation->0.end, f_identifier_name.start))) && (le(f_identifier_name.end, (*f_containing_expression).start) || le((*f_containing_expression).end, f_identifier_name.start)) && (f_type_annotation is Some ==> (le((*f_expression).end, f_type_annotation->0.start) || le(f_type_annotation->0.end, (*f_expression).start))) && (le((*f_expression).end, (*f_containing_expression).start) || le((*f_containing_expression).end, (*f_expression).start)) && (f_type_annotation is Some ==> (le(f_type_annotation->0.end, (*f_containing_expression).start) || le((*f_containing_expression).end, f_type_annotation->0.start))),
    NodeFullExpression::FunctionDeclaration { identier_value: f_identier_value, type_annotation: f_type_annotation, expression: f_expression } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_identier_value.start, f_identier_value.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_type_annotation.start, f_type_annotation.end, x, y) && in_NodeTypeAnnotation(t, f_type_annotation.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f_expression).start, (*f_expression).end, x, y) && in_NodeFullExpression(t, (*f_expression).node, x, y)) && (le(f_identier_value.end, f_type_annotation.start) || le(f_type_annotation.end, f_identier_value.start)) && (le(f_identier_value.end, (*f_expression).start) || le((*f_expression).end, f_identier_value.start)) && (le(f_type_annotation.end, (*f_expression).start) || le((*f_expression).end, f_type_annotation.start)),
    NodeFullExpression::FunctionCall { function_name: f_function_name, argument_list: f_argument_list } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_function_name.start, f_function_name.end, x, y) && in_NodeVariableIdentifier(t, f_function_name.node, x, y)) && (forall|i76: int| #![trigger f_argument_list@[i76]] 0 <= i76 < f_argument_list@.len() ==> at(f_argument_list@[i76]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_argument_list@[i76].start, f_argument_list@[i76].end, x, y) && in_NodeVariableIdentifier(t, f_argument_list@[i76].node, x, y))) && (forall|i: int, j: int| #![trigger f_argument_list@[i], f_argument_list@[j]] 0 <= i < j < f_argument_list@.len() ==> le(f_argument_list@[i].end, f_argument_list@[j].start)),
    NodeFullExpression::ExpressionAtomic(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f0).start, (*f0).end, x, y) && in_NodeAtomicExpression(t, (*f0).node, x, y)),
    NodeFullExpression::ExpressionBuiltin { b: f_b, targs: f_targs, xs: f_xs } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_b.start, f_b.end, x, y) && y == x + 1) && (match f_targs { Some(z81) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, z81.start, z81.end, x, y) && in_NodeContractTypeArguments(t, z81.node, x, y)), None => true }) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_xs.start, f_xs.end, x, y) && in_NodeBuiltinArguments(t, f_xs.node, x, y)) && (f_targs is Some ==> (le(f_b.end, f_targs->0.start) || le(f_targs->0.end, f_b.start))) && (le(f_b.end, f_xs.start) || le(f_xs.end, f_b.start)) && (f_targs is Some ==> (le(f_targs->0.end, f_xs.start) || le(f_xs.end, f_targs->0.start))),
    NodeFullExpression::Message(f0) => (forall|i84: int| #![trigger f0@[i84]] 0 <= i84 < f0@.len() ==> at(f0@[i84]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0@[i84].start, f0@[i84].end, x, y) && in_NodeMessageEntry(t, f0@[i84].node, x, y))) && (forall|i: int, j: int| #![trigger f0@[i], f0@[j]] 0 <= i < j < f0@.len() ==> le(f0@[i].end, f0@[j].start)),
    NodeFullExpression::Match { match_expression: f_match_expression, clauses: f_clauses } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_match_expression.start, f_match_expression.end, x, y) && in_NodeVariableIdentifier(t, f_match_expression.node, x, y)) && (forall|i87: int| #![trigger f_clauses@[i87]] 0 <= i87 < f_clauses@.len() ==> at(f_clauses@[i87]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_clauses@[i87].start, f_clauses@[i87].end, x, y) && in_NodePatternMatchExpressionClause(t, f_clauses@[i87].node, x, y))) && (forall|i: int, j: int| #![trigger f_clauses@[i], f_clauses@[j]] 0 <= i < j < f_clauses@.len() ==> le(f_clauses@[i].end, f_clauses@[j].start)),
    NodeFullExpression::ConstructorCall { identifier_name: f_identifier_name, contract_type_arguments: f_contract_type_arguments, argument_list: f_argument_list } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_identifier_name.start, f_identifier_name.end, x, y) && in_NodeMetaIdentifier(t, f_identifier_name.node, x, y)) && (match f_contract_type_arguments { Some(z90) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, z90.start, z90.end, x, y) && in_NodeContractTypeArguments(t, z90.node, x, y)), None => true }) && (forall|i92: int| #![trigger f_argument_list@[i92]] 0 <= i92 < f_argument_list@.len() ==> at(f_argument_list@[i92]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_argument_list@[i92].start, f_argument_list@[i92].end, x, y) && in_NodeVariableIdentifier(t, f_argument_list@[i92].node, x, y))) && (forall|i: int, j: int| #![trigger f_argument_list@[i], f_argument_list@[j]] 0 <= i < j < f_argument_list@.len() ==> le(f_argument_list@[i].end, f_argument_list@[j].start)) && (f_contract_type_arguments is Some ==> (le(f_identifier_name.end, f_contract_type_arguments->0.start) || le(f_contract_type_arguments->0.end, f_identifier_name.start))),
    NodeFullExpression::TemplateFunction { identifier_name: f_identifier_name, expression: f_expression } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_identifier_name.start, f_identifier_name.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f_expression).start, (*f_expression).end, x, y) && in_NodeFullExpression(t, (*f_expression).node, x, y)) && (le(f_identifier_name.end, (*f_expression).start) || le((*f_expression).end, f_identifier_name.start)),
    NodeFullExpression::TApp { identifier_name: f_identifier_name, type_arguments: f_type_arguments } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_identifier_name.start, f_identifier_name.end, x, y) && in_NodeVariableIdentifier(t, f_identifier_name.node, x, y)) && (forall|i98: int| #![trigger f_type_arguments@[i98]] 0 <= i98 < f_type_arguments@.len() ==> at(f_type_arguments@[i98]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_type_arguments@[i98].start, f_type_arguments@[i98].end, x, y) && in_NodeTypeArgument(t, f_type_arguments@[i98].node, x, y))) && (forall|i: int, j: int| #![trigger f_type_arguments@[i], f_type_arguments@[j]] 0 <= i < j < f_type_arguments@.len() ==> le(f_type_arguments@[i].end, f_type_arguments@[j].start)),
} }
broadcast proof fn i_in_NodeFullExpression(t: Toks, v: NodeFullExpression, a: int, b: int)
    requires (match v {
    NodeFullExpression::LocalVariableDeclaration { identifier_name: f_identifier_name, expression: f_expression, type_annotation: f_type_annotation, containing_expression: f_containing_expression } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_identifier_name.start, f_identifier_name.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f_expression).start, (*f_expression).end, x, y) && in_NodeFullExpression(t, (*f_expression).node, x, y)) && (match f_type_annotation { Some(z67) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, z67.start, z67.end, x, y) && in_NodeTypeAnnotation(t, z67.node, x, y)), None => true }) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f_containing_expression).start, (*f_containing_expression).end, x, y) && in_NodeFullExpression(t, (*f_containing_expression).node, x, y)) && (le(f_identifier_name.end, (*f_expression).start) || le((*f_expression).end, f_identifier_name.start)) && (f_type_annotation is Some ==> (le(f_identifier_name.end, f_type_annotation->0.start) || le(f_type_annotation->0.end, f_identifier_name.start))) && (le(f_identifier_name.end, (*f_containing_expression).start) || le((*f_containing_expression).end, f_identifier_name.start)) && (f_type_annotation is Some ==> (le((*f_expression).end, f_type_annotation->0.start) || le(f_type_annotation->0.end, (*f_expression).start))) && (le((*f_expression).end, (*f_containing_expression).start) || le((*f_containing_expression).end, (*f_expression).start)) && (f_type_annotation is Some ==> (le(f_type_annotation->0.end, (*f_containing_expression).start) || le((*f_containing_expression).end, f_type_annotation->0.start))),
    NodeFullExpression::FunctionDeclaration { identier_value: f_identier_value, type_annotation: f_type_annotation, expression: f_expression } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_identier_value.start, f_identier_value.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_type_annotation.start, f_type_annotation.end, x, y) && in_NodeTypeAnnotation(t, f_type_annotation.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f_expression).start, (*f_expression).end, x, y) && in_NodeFullExpression(t, (*f_expression).node, x, y)) && (le(f_identier_value.end, f_type_annotation.start) || le(f_type_annotation.end, f_identier_value.start)) && (le(f_identier_value.end, (*f_expression).start) || le((*f_expression).end, f_identier_value.start)) && (le(f_type_annotation.end, (*f_expression).start) || le((*f_expression).end, f_type_annotation.start)),
    NodeFullExpression::FunctionCall { function_name: f_function_name, argument_list: f_argument_list } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_function_name.start, f_function_name.end, x, y) && in_NodeVariableIdentifier(t, f_function_name.node, x, y)) && (forall|i76: int| #![trigger f_argument_list@[i76]] 0 <= i76 < f_argument_list@.len() ==> at(f_argument_list@[i76]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_argument_list@[i76].start, f_argument_list@[i76].end, x, y) && in_NodeVariableIdentifier(t, f_argument_list@[i76].node, x, y))) && (forall|i: int, j: int| #![trigger f_argument_list@[i], f_argument_list@[j]] 0 <= i < j < f_argument_list@.len() ==> le(f_argument_list@[i].end, f_argument_list@[j].start)),
    NodeFullExpression::ExpressionAtomic(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f0).start, (*f0).end, x, y) && in_NodeAtomicExpression(t, (*f0).node, x, y)),
    NodeFullExpression::ExpressionBuiltin { b: f_b, targs: f_targs, xs: f_xs } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_b.start, f_b.end, x, y) && y == x + 1) && (match f_targs { Some(z81) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, z81.start, z81.end, x, y) && in_NodeContractTypeArguments(t, z81.node, x, y)), None => true }) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_xs.start, f_xs.end, x, y) && in_NodeBuiltinArguments(t, f_xs.node, x, y)) && (f_targs is Some ==> (le(f_b.end, f_targs->0.start) || le(f_targs->0.end, f_b.start))) && (le(f_b.end, f_xs.start) || le(f_xs.end, f_b.start)) && (f_targs is Some ==> (le(f_targs->0.end, f_xs.start) || le(f_xs.end, f_targs->0.start))),
    NodeFullExpression::Message(f0) => (forall|i84: int| #![trigger f0@[i84]] 0 <= i84 < f0@.len() ==> at(f0@[i84]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0@[i84].start, f0@[i84].end, x, y) && in_NodeMessageEntry(t, f0@[i84].node, x, y))) && (forall|i: int, j: int| #![trigger f0@[i], f0@[j]] 0 <= i < j < f0@.len() ==> le(f0@[i].end, f0@[j].start)),
    NodeFullExpression::Match { match_expression: f_match_expression, clauses: f_clauses } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_match_expression.start, f_match_expression.end, x, y) && in_NodeVariableIdentifier(t, f_match_expression.node, x, y)) && (forall|i87: int| #![trigger f_clauses@[i87]] 0 <= i87 < f_clauses@.len() ==> at(f_clauses@[i87]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_clauses@[i87].start, f_clauses@[i87].end, x, y) && in_NodePatternMatchExpressionClause(t, f_clauses@[i87].node, x, y))) && (forall|i: int, j: int| #![trigger f_clauses@[i], f_clauses@[j]] 0 <= i < j < f_clauses@.len() ==> le(f_clauses@[i].end, f_clauses@[j].start)),
    NodeFullExpression::ConstructorCall { identifier_name: f_identifier_name, contract_type_arguments: f_contract_type_arguments, argument_list: f_argument_list } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_identifier_name.start, f_identifier_name.end, x, y) && in_NodeMetaIdentifier(t, f_identifier_name.node, x, y)) && (match f_contract_type_arguments { Some(z90) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, z90.start, z90.end, x, y) && in_NodeContractTypeArguments(t, z90.node, x, y)), None => true }) && (forall|i92: int| #![trigger f_argument_list@[i92]] 0 <= i92 < f_argument_list@.len() ==> at(f_argument_list@[i92]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_argument_list@[i92].start, f_argument_list@[i92].end, x, y) && in_NodeVariableIdentifier(t, f_argument_list@[i92].node, x, y))) && (forall|i: int, j: int| #![trigger f_argument_list@[i], f_argument_list@[j]] 0 <= i < j < f_argument_list@.len() ==> le(f_argument_list@[i].end, f_argument_list@[j].start)) && (f_contract_type_arguments is Some ==> (le(f_identifier_name.end, f_contract_type_arguments->0.start) || le(f_contract_type_arguments->0.end, f_identifier_name.start))),
    NodeFullExpression::TemplateFunction { identifier_name: f_identifier_name, expression: f_expression } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_identifier_name.start, f_identifier_name.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f_expression).start, (*f_expression).end, x, y) && in_NodeFullExpression(t, (*f_expression).node, x, y)) && (le(f_identifier_name.end, (*f_expression).start) || le((*f_expression).end, f_identifier_name.start)),
    NodeFullExpression::TApp { identifier_name: f_identifier_name, type_arguments: f_type_arguments } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_identifier_name.start, f_identifier_name.end, x, y) && in_NodeVariableIdentifier(t, f_identifier_name.node, x, y)) && (forall|i98: int| #![trigger f_type_arguments@[i98]] 0 <= i98 < f_type_arguments@.len() ==> at(f_type_arguments@[i98]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_type_arguments@[i98].start, f_type_arguments@[i98].end, x, y) && in_NodeTypeArgument(t, f_type_arguments@[i98].node, x, y))) && (forall|i: int, j: int| #![trigger f_type_arguments@[i], f_type_arguments@[j]] 0 <= i < j < f_type_arguments@.len() ==> le(f_type_arguments@[i].end, f_type_arguments@[j].start)),
}),
    ensures #[trigger] in_NodeFullExpression(t, v, a, b),
{ reveal(in_NodeAtomicExpression); reveal(in_NodeBuiltinArguments); reveal(in_NodeContractTypeArguments); reveal(in_NodeFullExpression); reveal(in_NodeMessageEntry); reveal(in_NodeMetaIdentifier); reveal(in_NodePatternMatchExpressionClause); reveal(in_NodeTypeAnnotation); reveal(in_NodeTypeArgument); reveal(in_NodeVariableIdentifier); }
#[verifier::opaque]
spec fn in_NodeMessageEntry(t: Toks, v: NodeMessageEntry, a: int, b: int) -> bool
    decreases v
{ match v {
    NodeMessageEntry::MessageLiteral(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeVariableIdentifier(t, f0.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && in_NodeValueLiteral(t, f1.node, x, y)) && (le(f0.end, f1.start) || le(f1.end, f0.start)),
    NodeMessageEntry::MessageVariable(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeVariableIdentifier(t, f0.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && in_NodeVariableIdentifier(t, f1.node, x, y)) && (le(f0.end, f1.start) || le(f1.end, f0.start)),
} }
broadcast proof fn i_in_NodeMessageEntry(t: Toks, v: NodeMessageEntry, a: int, b: int)
    requires (match v {
    NodeMessageEntry::MessageLiteral(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeVariableIdentifier(t, f0.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && in_NodeValueLiteral(t, f1.node, x, y)) && (le(f0.end, f1.start) || le(f1.end, f0.start)),
    NodeMessageEntry::MessageVariable(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeVariableIdentifier(t, f0.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && in_NodeVariableIdentifier(t, f1.node, x, y)) && (le(f0.end, f1.start) || le(f1.end, f0.start)),
}),
    ensures #[trigger] in_NodeMessageEntry(t, v, a, b),
{ reveal(in_NodeMessageEntry); reveal(in_NodeValueLiteral); reveal(in_NodeVariableIdentifier); }
#[verifier::opaque]
spec fn in_NodePatternMatchExpressionClause(t: Toks, v: NodePatternMatchExpressionClause, a: int, b: int) -> bool
    decreases v
{ (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.pattern.start, v.pattern.end, x, y) && in_NodePattern(t, v.pattern.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.expression.start, v.expression.end, x, y) && in_NodeFullExpression(t, v.expression.node, x, y)) && (le(v.pattern.end, v.expression.start) || le(v.expression.end, v.pattern.start)) }
broadcast proof fn i_in_NodePatternMatchExpressionClause(t: Toks, v: NodePatternMatchExpressionClause, a: int, b: int)
    requires ((exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.pattern.start, v.pattern.end, x, y) && in_NodePattern(t, v.pattern.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.expression.start, v.expression.end, x, y) && in_NodeFullExpression(t, v.expression.node, x, y)) && (le(v.pattern.end, v.expression.start) || le(v.expression.end, v.pattern.start))),
    ensures #[trigger] in_NodePatternMatchExpressionClause(t, v, a, b),
{ reveal(in_NodeFullExpression); reveal(in_NodePattern); reveal(in_NodePatternMatchExpressionClause); }
#[verifier::opaque]
spec fn in_NodeAtomicExpression(t: Toks, v: NodeAtomicExpression, a: int, b: int) -> bool
    decreases v
{ match v {
    NodeAtomicExpression::AtomicSid(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeVariableIdentifier(t, f0.node, x, y)),
    NodeAtomicExpression::AtomicLit(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeValueLiteral(t, f0.node, x, y)),
} }
broadcast proof fn i_in_NodeAtomicExpression(t: Toks, v: NodeAtomicExpression, a: int, b: int)
    requires (match v {
    NodeAtomicExpression::AtomicSid(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeVariableIdentifier(t, f0.node, x, y)),
    NodeAtomicExpression::AtomicLit(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeValueLiteral(t, f0.node, x, y)),
}),
    ensures #[trigger] in_NodeAtomicExpression(t, v, a, b),
{ reveal(in_NodeAtomicExpression); reveal(in_NodeValueLiteral); reveal(in_NodeVariableIdentifier); }
#[verifier::opaque]
spec fn in_NodeContractTypeArguments(t: Toks, v: NodeContractTypeArguments, a: int, b: int) -> bool
    decreases v
{ (forall|i108: int| #![trigger v.type_arguments@[i108]] 0 <= i108 < v.type_arguments@.len() ==> at(v.type_arguments@[i108]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.type_arguments@[i108].start, v.type_arguments@[i108].end, x, y) && in_NodeTypeArgument(t, v.type_arguments@[i108].node, x, y))) && (forall|i: int, j: int| #![trigger v.type_arguments@[i], v.type_arguments@[j]] 0 <= i < j < v.type_arguments@.len() ==> le(v.type_arguments@[i].end, v.type_arguments@[j].start)) }
broadcast proof fn i_in_NodeContractTypeArguments(t: Toks, v: NodeContractTypeArguments, a: int, b: int)
    requires ((forall|i108: int| #![trigger v.type_arguments@[i108]] 0 <= i108 < v.type_arguments@.len() ==> at(v.type_arguments@[i108]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.type_arguments@[i108].start, v.type_arguments@[i108].end, x, y) && in_NodeTypeArgument(t, v.type_arguments@[i108].node, x, y))) && (forall|i: int, j: int| #![trigger v.type_arguments@[i], v.type_arguments@[j]] 0 <= i < j < v.type_arguments@.len() ==> le(v.type_arguments@[i].end, v.type_arguments@[j].start))),
    ensures #[trigger] in_NodeContractTypeArguments(t, v, a, b),
{ reveal(in_NodeContractTypeArguments); reveal(in_NodeTypeArgument); }
#[verifier::opaque]
spec fn in_NodeValueLiteral(t: Toks, v: NodeValueLiteral, a: int, b: int) -> bool
    decreases v
{ match v {
    NodeValueLiteral::LiteralInt(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeNameIdentifier(t, f0.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && y == x + 1) && (le(f0.end, f1.start) || le(f1.end, f0.start)),
    NodeValueLiteral::LiteralHex(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1),
    NodeValueLiteral::LiteralString(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1),
    NodeValueLiteral::LiteralEmptyMap(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeMapKey(t, f0.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && in_NodeTypeMapValue(t, f1.node, x, y)) && (le(f0.end, f1.start) || le(f1.end, f0.start)),
} }
broadcast proof fn i_in_NodeValueLiteral(t: Toks, v: NodeValueLiteral, a: int, b: int)
    requires (match v {
    NodeValueLiteral::LiteralInt(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeNameIdentifier(t, f0.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && y == x + 1) && (le(f0.end, f1.start) || le(f1.end, f0.start)),
    NodeValueLiteral::LiteralHex(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1),
    NodeValueLiteral::LiteralString(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1),
    NodeValueLiteral::LiteralEmptyMap(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeMapKey(t, f0.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && in_NodeTypeMapValue(t, f1.node, x, y)) && (le(f0.end, f1.start) || le(f1.end, f0.start)),
}),
    ensures #[trigger] in_NodeValueLiteral(t, v, a, b),
{ reveal(in_NodeTypeMapKey); reveal(in_NodeTypeMapValue); reveal(in_NodeTypeNameIdentifier); reveal(in_NodeValueLiteral); }
#[verifier::opaque]
spec fn in_NodeMapAccess(t: Toks, v: NodeMapAccess, a: int, b: int) -> bool
    decreases v
{ (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.identifier_name.start, v.identifier_name.end, x, y) && in_NodeVariableIdentifier(t, v.identifier_name.node, x, y)) }
broadcast proof fn i_in_NodeMapAccess(t: Toks, v: NodeMapAccess, a: int, b: int)
    requires ((exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.identifier_name.start, v.identifier_name.end, x, y) && in_NodeVariableIdentifier(t, v.identifier_name.node, x, y))),
    ensures #[trigger] in_NodeMapAccess(t, v, a, b),
{ reveal(in_NodeMapAccess); reveal(in_NodeVariableIdentifier); }
#[verifier::opaque]
spec fn in_NodePattern(t: Toks, v: NodePattern, a: int, b: int) -> bool
    decreases v
{ match v {
    NodePattern::Wildcard => true,
    NodePattern::Binder(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1),
    NodePattern::Constructor(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeMetaIdentifier(t, f0.node, x, y)) && (forall|i119: int| #![trigger f1@[i119]] 0 <= i119 < f1@.len() ==> at(f1@[i119]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1@[i119].start, f1@[i119].end, x, y) && in_NodeArgumentPattern(t, f1@[i119].node, x, y))) && (forall|i: int, j: int| #![trigger f1@[i], f1@[j]] 0 <= i < j < f1@.len() ==> le(f1@[i].end, f1@[j].start)),
} }
broadcast proof fn i_in_NodePattern(t: Toks, v: NodePattern, a: int, b: int)
    requires (match v {
    NodePattern::Wildcard => true,
    NodePattern::Binder(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1),
    NodePattern::Constructor(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeMetaIdentifier(t, f0.node, x, y)) && (forall|i119: int| #![trigger f1@[i119]] 0 <= i119 < f1@.len() ==> at(f1@[i119]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1@[i119].start, f1@[i119].end, x, y) && in_NodeArgumentPattern(t, f1@[i119].node, x, y))) && (forall|i: int, j: int| #![trigger f1@[i], f1@[j]] 0 <= i < j < f1@.len() ==> le(f1@[i].end, f1@[j].start)),
}),
    ensures #[trigger] in_NodePattern(t, v, a, b),
{ reveal(in_NodeArgumentPattern); reveal(in_NodeMetaIdentifier); reveal(in_NodePattern); }
#[verifier::opaque]
spec fn in_NodeArgumentPattern(t: Toks, v: NodeArgumentPattern, a: int, b: int) -> bool
    decreases v
{ match v {
    NodeArgumentPattern::WildcardArgument => true,
    NodeArgumentPattern::BinderArgument(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1),
    NodeArgumentPattern::ConstructorArgument(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeMetaIdentifier(t, f0.node, x, y)),
    NodeArgumentPattern::PatternArgument(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f0).start, (*f0).end, x, y) && in_NodePattern(t, (*f0).node, x, y)),
} }
broadcast proof fn i_in_NodeArgumentPattern(t: Toks, v: NodeArgumentPattern, a: int, b: int)
    requires (match v {
    NodeArgumentPattern::WildcardArgument => true,
    NodeArgumentPattern::BinderArgument(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1),
    NodeArgumentPattern::ConstructorArgument(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeMetaIdentifier(t, f0.node, x, y)),
    NodeArgumentPattern::PatternArgument(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f0).start, (*f0).end, x, y) && in_NodePattern(t, (*f0).node, x, y)),
}),
    ensures #[trigger] in_NodeArgumentPattern(t, v, a, b),
{ reveal(in_NodeArgumentPattern); reveal(in_NodeMetaIdentifier); reveal(in_NodePattern); }
#[verifier::opaque]
spec fn in_NodePatternMatchClause(t: Toks, v: NodePatternMatchClause, a: int, b: int) -> bool
    decreases v
{ (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*v.pattern_expression).start, (*v.pattern_expression).end, x, y) && in_NodePattern(t, (*v.pattern_expression).node, x, y)) && (match v.statement_block { Some(z127) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, z127.start, z127.end, x, y) && in_NodeStatementBlock(t, z127.node, x, y)), None => true }) && (v.statement_block is Some ==> (le((*v.pattern_expression).end, v.statement_block->0.start) || le(v.statement_block->0.end, (*v.pattern_expression).start))) }
broadcast proof fn i_in_NodePatternMatchClause(t: Toks, v: NodePatternMatchClause, a: int, b: int)
    requires ((exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*v.pattern_expression).start, (*v.pattern_expression).end, x, y) && in_NodePattern(t, (*v.pattern_expression).node, x, y)) && (match v.statement_block { Some(z127) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, z127.start, z127.end, x, y) && in_NodeStatementBlock(t, z127.node, x, y)), None => true }) && (v.statement_block is Some ==> (le((*v.pattern_expression).end, v.statement_block->0.start) || le(v.statement_block->0.end, (*v.pattern_expression).start)))),
    ensures #[trigger] in_NodePatternMatchClause(t, v, a, b),
{ reveal(in_NodePattern); reveal(in_NodePatternMatchClause); reveal(in_NodeStatementBlock); }
#[verifier::opaque]
spec fn in_NodeBlockchainFetchArguments(t: Toks, v: NodeBlockchainFetchArguments, a: int, b: int) -> bool
    decreases v
{ (forall|i129: int| #![trigger v.arguments@[i129]] 0 <= i129 < v.arguments@.len() ==> at(v.arguments@[i129]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.arguments@[i129].start, v.arguments@[i129].end, x, y) && in_NodeVariableIdentifier(t, v.arguments@[i129].node, x, y))) && (forall|i: int, j: int| #![trigger v.arguments@[i], v.arguments@[j]] 0 <= i < j < v.arguments@.len() ==> le(v.arguments@[i].end, v.arguments@[j].start)) }
broadcast proof fn i_in_NodeBlockchainFetchArguments(t: Toks, v: NodeBlockchainFetchArguments, a: int, b: int)
    requires ((forall|i129: int| #![trigger v.arguments@[i129]] 0 <= i129 < v.arguments@.len() ==> at(v.arguments@[i129]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.arguments@[i129].start, v.arguments@[i129].end, x, y) && in_NodeVariableIdentifier(t, v.arguments@[i129].node, x, y))) && (forall|i: int, j: int| #![trigger v.arguments@[i], v.arguments@[j]] 0 <= i < j < v.arguments@.len() ==> le(v.arguments@[i].end, v.arguments@[j].start))),
    ensures #[trigger] in_NodeBlockchainFetchArguments(t, v, a, b),
{ reveal(in_NodeBlockchainFetchArguments); reveal(in_NodeVariableIdentifier); }
#[verifier::opaque]
spec fn in_NodeStatement(t: Toks, v: NodeStatement, a: int, b: int) -> bool
    decreases v
{ match v {
    NodeStatement::Load { left_hand_side: f_left_hand_side, right_hand_side: f_right_hand_side } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_left_hand_side.start, f_left_hand_side.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_right_hand_side.start, f_right_hand_side.end, x, y) && in_NodeVariableIdentifier(t, f_right_hand_side.node, x, y)) && (le(f_left_hand_side.end, f_right_hand_side.start) || le(f_right_hand_side.end, f_left_hand_side.start)),
    NodeStatement::RemoteFetch(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x <= y <= b && in_NodeRemoteFetchStatement(t, (*f0), x, y)),
    NodeStatement::Store { left_hand_side: f_left_hand_side, right_hand_side: f_right_hand_side } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_left_hand_side.start, f_left_hand_side.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_right_hand_side.start, f_right_hand_side.end, x, y) && in_NodeVariableIdentifier(t, f_right_hand_side.node, x, y)) && (le(f_left_hand_side.end, f_right_hand_side.start) || le(f_right_hand_side.end, f_left_hand_side.start)),
    NodeStatement::Bind { left_hand_side: f_left_hand_side, right_hand_side: f_right_hand_side } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_left_hand_side.start, f_left_hand_side.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f_right_hand_side).start, (*f_right_hand_side).end, x, y) && in_NodeFullExpression(t, (*f_right_hand_side).node, x, y)) && (le(f_left_hand_side.end, (*f_right_hand_side).start) || le((*f_right_hand_side).end, f_left_hand_side.start)),
    NodeStatement::ReadFromBC { left_hand_side: f_left_hand_side, type_name: f_type_name, arguments: f_arguments } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_left_hand_side.start, f_left_hand_side.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_type_name.start, f_type_name.end, x, y) && in_NodeTypeNameIdentifier(t, f_type_name.node, x, y)) && (match f_arguments { Some(z142) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x <= y <= b && in_NodeBlockchainFetchArguments(t, z142, x, y)), None => true }) && (le(f_left_hand_side.end, f_type_name.start) || le(f_type_name.end, f_left_hand_side.start)),
    NodeStatement::MapGet { left_hand_side: f_left_hand_side, keys: f_keys, right_hand_side: f_right_hand_side } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_left_hand_side.start, f_left_hand_side.end, x, y) && y == x + 1) && (forall|i145: int| #![trigger f_keys@[i145]] 0 <= i145 < f_keys@.len() ==> at(f_keys@[i145]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_keys@[i145].start, f_keys@[i145].end, x, y) && in_NodeMapAccess(t, f_keys@[i145].node, x, y))) && (forall|i: int, j: int| #![trigger f_keys@[i], f_keys@[j]] 0 <= i < j < f_keys@.len() ==> le(f_keys@[i].end, f_keys@[j].start)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_right_hand_side.start, f_right_hand_side.end, x, y) && y == x + 1) && (le(f_left_hand_side.end, f_right_hand_side.start) || le(f_right_hand_side.end, f_left_hand_side.start)),
    NodeStatement::MapGetExists { left_hand_side: f_left_hand_side, keys: f_keys, right_hand_side: f_right_hand_side } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_left_hand_side.start, f_left_hand_side.end, x, y) && y == x + 1) && (forall|i149: int| #![trigger f_keys@[i149]] 0 <= i149 < f_keys@.len() ==> at(f_keys@[i149]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_keys@[i149].start, f_keys@[i149].end, x, y) && in_NodeMapAccess(t, f_keys@[i149].node, x, y))) && (forall|i: int, j: int| #![trigger f_keys@[i], f_keys@[j]] 0 <= i < j < f_keys@.len() ==> le(f_keys@[i].end, f_keys@[j].start)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_right_hand_side.start, f_right_hand_side.end, x, y) && y == x + 1) && (le(f_left_hand_side.end, f_right_hand_side.start) || le(f_right_hand_side.end, f_left_hand_side.start)),
    NodeStatement::MapUpdate { left_hand_side: f_left_hand_side, keys: f_keys, right_hand_side: f_right_hand_side } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_left_hand_side.start, f_left_hand_side.end, x, y) && y == x + 1) && (forall|i153: int| #![trigger f_keys@[i153]] 0 <= i153 < f_keys@.len() ==> at(f_keys@[i153]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_keys@[i153].start, f_keys@[i153].end, x, y) && in_NodeMapAccess(t, f_keys@[i153].node, x, y))) && (forall|i: int, j: int| #![trigger f_keys@[i], f_keys@[j]] 0 <= i < j < f_keys@.len() ==> le(f_keys@[i].end, f_keys@[j].start)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_right_hand_side.start, f_right_hand_side.end, x, y) && in_NodeVariableIdentifier(t, f_right_hand_side.node, x, y)) && (le(f_left_hand_side.end, f_right_hand_side.start) || le(f_right_hand_side.end, f_left_hand_side.start)),
    NodeStatement::MapUpdateDelete { left_hand_side: f_left_hand_side, keys: f_keys } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_left_hand_side.start, f_left_hand_side.end, x, y) && y == x + 1) && (forall|i157: int| #![trigger f_keys@[i157]] 0 <= i157 < f_keys@.len() ==> at(f_keys@[i157]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_keys@[i157].start, f_keys@[i157].end, x, y) && in_NodeMapAccess(t, f_keys@[i157].node, x, y))) && (forall|i: int, j: int| #![trigger f_keys@[i], f_keys@[j]] 0 <= i < j < f_keys@.len() ==> le(f_keys@[i].end, f_keys@[j].start)),
    NodeStatement::Accept => true,
    NodeStatement::Send { identifier_name: f_identifier_name } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_identifier_name.start, f_identifier_name.end, x, y) && in_NodeVariableIdentifier(t, f_identifier_name.node, x, y)),
    NodeStatement::CreateEvnt { identifier_name: f_identifier_name } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_identifier_name.start, f_identifier_name.end, x, y) && in_NodeVariableIdentifier(t, f_identifier_name.node, x, y)),
    NodeStatement::Throw { error_variable: f_error_variable } => (match f_error_variable { Some(z161) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, z161.start, z161.end, x, y) && in_NodeVariableIdentifier(t, z161.node, x, y)), None => true }),
    NodeStatement::MatchStmt { variable: f_variable, clauses: f_clauses } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_variable.start, f_variable.end, x, y) && in_NodeVariableIdentifier(t, f_variable.node, x, y)) && (forall|i164: int| #![trigger f_clauses@[i164]] 0 <= i164 < f_clauses@.len() ==> at(f_clauses@[i164]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_clauses@[i164].start, f_clauses@[i164].end, x, y) && in_NodePatternMatchClause(t, f_clauses@[i164].node, x, y))) && (forall|i: int, j: int| #![trigger f_clauses@[i], f_clauses@[j]] 0 <= i < j < f_clauses@.len() ==> le(f_clauses@[i].end, f_clauses@[j].start)),
    NodeStatement::CallProc { component_id: f_component_id, arguments: f_arguments } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_component_id.start, f_component_id.end, x, y) && in_NodeComponentId(t, f_component_id.node, x, y)) && (forall|i167: int| #![trigger f_arguments@[i167]] 0 <= i167 < f_arguments@.len() ==> at(f_arguments@[i167]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_arguments@[i167].start, f_arguments@[i167].end, x, y) && in_NodeVariableIdentifier(t, f_arguments@[i167].node, x, y))) && (forall|i: int, j: int| #![trigger f_arguments@[i], f_arguments@[j]] 0 <= i < j < f_arguments@.len() ==> le(f_arguments@[i].end, f_arguments@[j].start)),
    NodeStatement::Iterate { identifier_name: f_identifier_name, component_id: f_component_id } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_identifier_name.start, f_identifier_name.end, x, y) && in_NodeVariableIdentifier(t, f_identifier_name.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_component_id.start, f_component_id.end, x, y) && in_NodeComponentId(t, f_component_id.node, x, y)) && (le(f_identifier_name.end, f_component_id.start) || le(f_component_id.end, f_identifier_name.start)),
} }
broadcast proof fn i_in_NodeStatement(t: Toks, v: NodeStatement, a: int, b: int)
    requires (match v {
    NodeStatement::Load { left_hand_side: f_left_hand_side, right_hand_side: f_right_hand_side } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_left_hand_side.start, f_left_hand_side.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_right_hand_side.start, f_right_hand_side.end, x, y) && in_NodeVariableIdentifier(t, f_right_hand_side.node, x, y)) && (le(f_left_hand_side.end, f_right_hand_side.start) || le(f_right_hand_side.end, f_left_hand_side.start)),
    NodeStatement::RemoteFetch(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x <= y <= b && in_NodeRemoteFetchStatement(t, (*f0), x, y)),
    NodeStatement::Store { left_hand_side: f_left_hand_side, right_hand_side: f_right_hand_side } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_left_hand_side.start, f_left_hand_side.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_right_hand_side.start, f_right_hand_side.end, x, y) && in_NodeVariableIdentifier(t, f_right_hand_side.node, x, y)) && (le(f_left_hand_side.end, f_right_hand_side.start) || le(f_right_hand_side.end, f_left_hand_side.start)),
    NodeStatement::Bind { left_hand_side: f_left_hand_side, right_hand_side: f_right_hand_side } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_left_hand_side.start, f_left_hand_side.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f_right_hand_side).start, (*f_right_hand_side).end, x, y) && in_NodeFullExpression(t, (*f_right_hand_side).node, x, y)) && (le(f_left_hand_side.end, (*f_right_hand_side).start) || le((*f_right_hand_side).end, f_left_hand_side.start)),
    NodeStatement::ReadFromBC { left_hand_side: f_left_hand_side, type_name: f_type_name, arguments: f_arguments } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_left_hand_side.start, f_left_hand_side.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_type_name.start, f_type_name.end, x, y) && in_NodeTypeNameIdentifier(t, f_type_name.node, x, y)) && (match f_arguments { Some(z142) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x <= y <= b && in_NodeBlockchainFetchArguments(t, z142, x, y)), None => true }) && (le(f_left_hand_side.end, f_type_name.start) || le(f_type_name.end, f_left_hand_side.start)),
    NodeStatement::MapGet { left_hand_side: f_left_hand_side, keys: f_keys, right_hand_side: f_right_hand_side } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_left_hand_side.start, f_left_hand_side.end, x, y) && y == x + 1) && (forall|i145: int| #![trigger f_keys@[i145]] 0 <= i145 < f_keys@.len() ==> at(f_keys@[i145]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_keys@[i145].start, f_keys@[i145].end, x, y) && in_NodeMapAccess(t, f_keys@[i145].node, x, y))) && (forall|i: int, j: int| #![trigger f_keys@[i], f_keys@[j]] 0 <= i < j < f_keys@.len() ==> le(f_keys@[i].end, f_keys@[j].start)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_right_hand_side.start, f_right_hand_side.end, x, y) && y == x + 1) && (le(f_left_hand_side.end, f_right_hand_side.start) || le(f_right_hand_side.end, f_left_hand_side.start)),
    NodeStatement::MapGetExists { left_hand_side: f_left_hand_side, keys: f_keys, right_hand_side: f_right_hand_side } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_left_hand_side.start, f_left_hand_side.end, x, y) && y == x + 1) && (forall|i149: int| #![trigger f_keys@[i149]] 0 <= i149 < f_keys@.len() ==> at(f_keys@[i149]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_keys@[i149].start, f_keys@[i149].end, x, y) && in_NodeMapAccess(t, f_keys@[i149].node, x, y))) && (forall|i: int, j: int| #![trigger f_keys@[i], f_keys@[j]] 0 <= i < j < f_keys@.len() ==> le(f_keys@[i].end, f_keys@[j].start)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_right_hand_side.start, f_right_hand_side.end, x, y) && y == x + 1) && (le(f_left_hand_side.end, f_right_hand_side.start) || le(f_right_hand_side.end, f_left_hand_side.start)),
    NodeStatement::MapUpdate { left_hand_side: f_left_hand_side, keys: f_keys, right_hand_side: f_right_hand_side } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_left_hand_side.start, f_left_hand_side.end, x, y) && y == x + 1) && (forall|i153: int| #![trigger f_keys@[i153]] 0 <= i153 < f_keys@.len() ==> at(f_keys@[i153]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_keys@[i153].start, f_keys@[i153].end, x, y) && in_NodeMapAccess(t, f_keys@[i153].node, x, y))) && (forall|i: int, j: int| #![trigger f_keys@[i], f_keys@[j]] 0 <= i < j < f_keys@.len() ==> le(f_keys@[i].end, f_keys@[j].start)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_right_hand_side.start, f_right_hand_side.end, x, y) && in_NodeVariableIdentifier(t, f_right_hand_side.node, x, y)) && (le(f_left_hand_side.end, f_right_hand_side.start) || le(f_right_hand_side.end, f_left_hand_side.start)),
    NodeStatement::MapUpdateDelete { left_hand_side: f_left_hand_side, keys: f_keys } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_left_hand_side.start, f_left_hand_side.end, x, y) && y == x + 1) && (forall|i157: int| #![trigger f_keys@[i157]] 0 <= i157 < f_keys@.len() ==> at(f_keys@[i157]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_keys@[i157].start, f_keys@[i157].end, x, y) && in_NodeMapAccess(t, f_keys@[i157].node, x, y))) && (forall|i: int, j: int| #![trigger f_keys@[i], f_keys@[j]] 0 <= i < j < f_keys@.len() ==> le(f_keys@[i].end, f_keys@[j].start)),
    NodeStatement::Accept => true,
    NodeStatement::Send { identifier_name: f_identifier_name } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_identifier_name.start, f_identifier_name.end, x, y) && in_NodeVariableIdentifier(t, f_identifier_name.node, x, y)),
    NodeStatement::CreateEvnt { identifier_name: f_identifier_name } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_identifier_name.start, f_identifier_name.end, x, y) && in_NodeVariableIdentifier(t, f_identifier_name.node, x, y)),
    NodeStatement::Throw { error_variable: f_error_variable } => (match f_error_variable { Some(z161) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, z161.start, z161.end, x, y) && in_NodeVariableIdentifier(t, z161.node, x, y)), None => true }),
    NodeStatement::MatchStmt { variable: f_variable, clauses: f_clauses } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_variable.start, f_variable.end, x, y) && in_NodeVariableIdentifier(t, f_variable.node, x, y)) && (forall|i164: int| #![trigger f_clauses@[i164]] 0 <= i164 < f_clauses@.len() ==> at(f_clauses@[i164]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_clauses@[i164].start, f_clauses@[i164].end, x, y) && in_NodePatternMatchClause(t, f_clauses@[i164].node, x, y))) && (forall|i: int, j: int| #![trigger f_clauses@[i], f_clauses@[j]] 0 <= i < j < f_clauses@.len() ==> le(f_clauses@[i].end, f_clauses@[j].start)),
    NodeStatement::CallProc { component_id: f_component_id, arguments: f_arguments } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_component_id.start, f_component_id.end, x, y) && in_NodeComponentId(t, f_component_id.node, x, y)) && (forall|i167: int| #![trigger f_arguments@[i167]] 0 <= i167 < f_arguments@.len() ==> at(f_arguments@[i167]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_arguments@[i167].start, f_arguments@[i167].end, x, y) && in_NodeVariableIdentifier(t, f_arguments@[i167].node, x, y))) && (forall|i: int, j: int| #![trigger f_arguments@[i], f_arguments@[j]] 0 <= i < j < f_arguments@.len() ==> le(f_arguments@[i].end, f_arguments@[j].start)),
    NodeStatement::Iterate { identifier_name: f_identifier_name, component_id: f_component_id } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_identifier_name.start, f_identifier_name.end, x, y) && in_NodeVariableIdentifier(t, f_identifier_name.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_component_id.start, f_component_id.end, x, y) && in_NodeComponentId(t, f_component_id.node, x, y)) && (le(f_identifier_name.end, f_component_id.start) || le(f_component_id.end, f_identifier_name.start)),
}),
    ensures #[trigger] in_NodeStatement(t, v, a, b),
{ reveal(in_NodeBlockchainFetchArguments); reveal(in_NodeComponentId); reveal(in_NodeFullExpression); reveal(in_NodeMapAccess); reveal(in_NodePatternMatchClause); reveal(in_NodeRemoteFetchStatement); reveal(in_NodeStatement); reveal(in_NodeTypeNameIdentifier); reveal(in_NodeVariableIdentifier); }
#[verifier::opaque]
spec fn in_NodeRemoteFetchStatement(t: Toks, v: NodeRemoteFetchStatement, a: int, b: int) -> bool
    decreases v
{ match v {
    NodeRemoteFetchStatement::ReadStateMutable(f0, f1, f2) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f2.start, f2.end, x, y) && in_NodeVariableIdentifier(t, f2.node, x, y)) && (le(f0.end, f1.start) || le(f1.end, f0.start)) && (le(f0.end, f2.start) || le(f2.end, f0.start)) && (le(f1.end, f2.start) || le(f2.end, f1.start)),
    NodeRemoteFetchStatement::ReadStateMutableSpecialId(f0, f1, f2) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f2.start, f2.end, x, y) && y == x + 1) && (le(f0.end, f1.start) || le(f1.end, f0.start)) && (le(f0.end, f2.start) || le(f2.end, f0.start)) && (le(f1.end, f2.start) || le(f2.end, f1.start)),
    NodeRemoteFetchStatement::ReadStateMutableMapAccess(f0, f1, f2, f3) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f2.start, f2.end, x, y) && y == x + 1) && (forall|i180: int| #![trigger f3@[i180]] 0 <= i180 < f3@.len() ==> at(f3@[i180]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f3@[i180].start, f3@[i180].end, x, y) && in_NodeMapAccess(t, f3@[i180].node, x, y))) && (forall|i: int, j: int| #![trigger f3@[i], f3@[j]] 0 <= i < j < f3@.len() ==> le(f3@[i].end, f3@[j].start)) && (le(f0.end, f1.start) || le(f1.end, f0.start)) && (le(f0.end, f2.start) || le(f2.end, f0.start)) && (le(f1.end, f2.start) || le(f2.end, f1.start)),
    NodeRemoteFetchStatement::ReadStateMutableMapAccessExists(f0, f1, f2, f3) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f2.start, f2.end, x, y) && y == x + 1) && (forall|i185: int| #![trigger f3@[i185]] 0 <= i185 < f3@.len() ==> at(f3@[i185]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f3@[i185].start, f3@[i185].end, x, y) && in_NodeMapAccess(t, f3@[i185].node, x, y))) && (forall|i: int, j: int| #![trigger f3@[i], f3@[j]] 0 <= i < j < f3@.len() ==> le(f3@[i].end, f3@[j].start)) && (le(f0.end, f1.start) || le(f1.end, f0.start)) && (le(f0.end, f2.start) || le(f2.end, f0.start)) && (le(f1.end, f2.start) || le(f2.end, f1.start)),
    NodeRemoteFetchStatement::ReadStateMutableCastAddress(f0, f1, f2) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && in_NodeVariableIdentifier(t, f1.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f2.start, f2.end, x, y) && in_NodeAddressType(t, f2.node, x, y)) && (le(f0.end, f1.start) || le(f1.end, f0.start)) && (le(f0.end, f2.start) || le(f2.end, f0.start)) && (le(f1.end, f2.start) || le(f2.end, f1.start)),
} }
broadcast proof fn i_in_NodeRemoteFetchStatement(t: Toks, v: NodeRemoteFetchStatement, a: int, b: int)
    requires (match v {
    NodeRemoteFetchStatement::ReadStateMutable(f0, f1, f2) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f2.start, f2.end, x, y) && in_NodeVariableIdentifier(t, f2.node, x, y)) && (le(f0.end, f1.start) || le(f1.end, f0.start)) && (le(f0.end, f2.start) || le(f2.end, f0.start)) && (le(f1.end, f2.start) || le(f2.end, f1.start)),
    NodeRemoteFetchStatement::ReadStateMutableSpecialId(f0, f1, f2) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f2.start, f2.end, x, y) && y == x + 1) && (le(f0.end, f1.start) || le(f1.end, f0.start)) && (le(f0.end, f2.start) || le(f2.end, f0.start)) && (le(f1.end, f2.start) || le(f2.end, f1.start)),
    NodeRemoteFetchStatement::ReadStateMutableMapAccess(f0, f1, f2, f3) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f2.start, f2.end, x, y) && y == x + 1) && (forall|i180: int| #![trigger f3@[i180]] 0 <= i180 < f3@.len() ==> at(f3@[i180]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f3@[i180].start, f3@[i180].end, x, y) && in_NodeMapAccess(t, f3@[i180].node, x, y))) && (forall|i: int, j: int| #![trigger f3@[i], f3@[j]] 0 <= i < j < f3@.len() ==> le(f3@[i].end, f3@[j].start)) && (le(f0.end, f1.start) || le(f1.end, f0.start)) && (le(f0.end, f2.start) || le(f2.end, f0.start)) && (le(f1.end, f2.start) || le(f2.end, f1.start)),
    NodeRemoteFetchStatement::ReadStateMutableMapAccessExists(f0, f1, f2, f3) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f2.start, f2.end, x, y) && y == x + 1) && (forall|i185: int| #![trigger f3@[i185]] 0 <= i185 < f3@.len() ==> at(f3@[i185]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f3@[i185].start, f3@[i185].end, x, y) && in_NodeMapAccess(t, f3@[i185].node, x, y))) && (forall|i: int, j: int| #![trigger f3@[i], f3@[j]] 0 <= i < j < f3@.len() ==> le(f3@[i].end, f3@[j].start)) && (le(f0.end, f1.start) || le(f1.end, f0.start)) && (le(f0.end, f2.start) || le(f2.end, f0.start)) && (le(f1.end, f2.start) || le(f2.end, f1.start)),
    NodeRemoteFetchStatement::ReadStateMutableCastAddress(f0, f1, f2) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && in_NodeVariableIdentifier(t, f1.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f2.start, f2.end, x, y) && in_NodeAddressType(t, f2.node, x, y)) && (le(f0.end, f1.start) || le(f1.end, f0.start)) && (le(f0.end, f2.start) || le(f2.end, f0.start)) && (le(f1.end, f2.start) || le(f2.end, f1.start)),
}),
    ensures #[trigger] in_NodeRemoteFetchStatement(t, v, a, b),
{ reveal(in_NodeAddressType); reveal(in_NodeMapAccess); reveal(in_NodeRemoteFetchStatement); reveal(in_NodeVariableIdentifier); }
#[verifier::opaque]
spec fn in_NodeComponentId(t: Toks, v: NodeComponentId, a: int, b: int) -> bool
    decreases v
{ match v {
    NodeComponentId::WithTypeLikeName(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeNameIdentifier(t, f0.node, x, y)),
    NodeComponentId::WithRegularId(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1),
} }
broadcast proof fn i_in_NodeComponentId(t: Toks, v: NodeComponentId, a: int, b: int)
    requires (match v {
    NodeComponentId::WithTypeLikeName(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeNameIdentifier(t, f0.node, x, y)),
    NodeComponentId::WithRegularId(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && y == x + 1),
}),
    ensures #[trigger] in_NodeComponentId(t, v, a, b),
{ reveal(in_NodeComponentId); reveal(in_NodeTypeNameIdentifier); }
#[verifier::opaque]
spec fn in_NodeComponentParameters(t: Toks, v: NodeComponentParameters, a: int, b: int) -> bool
    decreases v
{ (forall|i192: int| #![trigger v.parameters@[i192]] 0 <= i192 < v.parameters@.len() ==> at(v.parameters@[i192]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.parameters@[i192].start, v.parameters@[i192].end, x, y) && in_NodeParameterPair(t, v.parameters@[i192].node, x, y))) && (forall|i: int, j: int| #![trigger v.parameters@[i], v.parameters@[j]] 0 <= i < j < v.parameters@.len() ==> le(v.parameters@[i].end, v.parameters@[j].start)) }
broadcast proof fn i_in_NodeComponentParameters(t: Toks, v: NodeComponentParameters, a: int, b: int)
    requires ((forall|i192: int| #![trigger v.parameters@[i192]] 0 <= i192 < v.parameters@.len() ==> at(v.parameters@[i192]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.parameters@[i192].start, v.parameters@[i192].end, x, y) && in_NodeParameterPair(t, v.parameters@[i192].node, x, y))) && (forall|i: int, j: int| #![trigger v.parameters@[i], v.parameters@[j]] 0 <= i < j < v.parameters@.len() ==> le(v.parameters@[i].end, v.parameters@[j].start))),
    ensures #[trigger] in_NodeComponentParameters(t, v, a, b),
{ reveal(in_NodeComponentParameters); reveal(in_NodeParameterPair); }
#[verifier::opaque]
spec fn in_NodeParameterPair(t: Toks, v: NodeParameterPair, a: int, b: int) -> bool
    decreases v
{ (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.identifier_with_type.start, v.identifier_with_type.end, x, y) && in_NodeTypedIdentifier(t, v.identifier_with_type.node, x, y)) }
broadcast proof fn i_in_NodeParameterPair(t: Toks, v: NodeParameterPair, a: int, b: int)
    requires ((exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.identifier_with_type.start, v.identifier_with_type.end, x, y) && in_NodeTypedIdentifier(t, v.identifier_with_type.node, x, y))),
    ensures #[trigger] in_NodeParameterPair(t, v, a, b),
{ reveal(in_NodeParameterPair); reveal(in_NodeTypedIdentifier); }
#[verifier::opaque]
spec fn in_NodeComponentBody(t: Toks, v: NodeComponentBody, a: int, b: int) -> bool
    decreases v
{ (match v.statement_block { Some(z195) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, z195.start, z195.end, x, y) && in_NodeStatementBlock(t, z195.node, x, y)), None => true }) }
broadcast proof fn i_in_NodeComponentBody(t: Toks, v: NodeComponentBody, a: int, b: int)
    requires ((match v.statement_block { Some(z195) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, z195.start, z195.end, x, y) && in_NodeStatementBlock(t, z195.node, x, y)), None => true })),
    ensures #[trigger] in_NodeComponentBody(t, v, a, b),
{ reveal(in_NodeComponentBody); reveal(in_NodeStatementBlock); }
#[verifier::opaque]
spec fn in_NodeStatementBlock(t: Toks, v: NodeStatementBlock, a: int, b: int) -> bool
    decreases v
{ (forall|i197: int| #![trigger v.statements@[i197]] 0 <= i197 < v.statements@.len() ==> at(v.statements@[i197]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x <= y <= b && in_NodeStatement(t, v.statements@[i197], x, y))) }
broadcast proof fn i_in_NodeStatementBlock(t: Toks, v: NodeStatementBlock, a: int, b: int)
    requires ((forall|i197: int| #![trigger v.statements@[i197]] 0 <= i197 < v.statements@.len() ==> at(v.statements@[i197]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x <= y <= b && in_NodeStatement(t, v.statements@[i197], x, y)))),
    ensures #[trigger] in_NodeStatementBlock(t, v, a, b),
{ reveal(in_NodeStatement); reveal(in_NodeStatementBlock); }
#[verifier::opaque]
spec fn in_NodeTypedIdentifier(t: Toks, v: NodeTypedIdentifier, a: int, b: int) -> bool
    decreases v
{ (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.identifier_name.start, v.identifier_name.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.annotation.start, v.annotation.end, x, y) && in_NodeTypeAnnotation(t, v.annotation.node, x, y)) && (le(v.identifier_name.end, v.annotation.start) || le(v.annotation.end, v.identifier_name.start)) }
broadcast proof fn i_in_NodeTypedIdentifier(t: Toks, v: NodeTypedIdentifier, a: int, b: int)
    requires ((exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.identifier_name.start, v.identifier_name.end, x, y) && y == x + 1) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.annotation.start, v.annotation.end, x, y) && in_NodeTypeAnnotation(t, v.annotation.node, x, y)) && (le(v.identifier_name.end, v.annotation.start) || le(v.annotation.end, v.identifier_name.start))),
    ensures #[trigger] in_NodeTypedIdentifier(t, v, a, b),
{ reveal(in_NodeTypeAnnotation); reveal(in_NodeTypedIdentifier); }
#[verifier::opaque]
spec fn in_NodeTypeAnnotation(t: Toks, v: NodeTypeAnnotation, a: int, b: int) -> bool
    decreases v
{ (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.type_name.start, v.type_name.end, x, y) && in_NodeScillaType(t, v.type_name.node, x, y)) }
broadcast proof fn i_in_NodeTypeAnnotation(t: Toks, v: NodeTypeAnnotation, a: int, b: int)
    requires ((exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.type_name.start, v.type_name.end, x, y) && in_NodeScillaType(t, v.type_name.node, x, y))),
    ensures #[trigger] in_NodeTypeAnnotation(t, v, a, b),
{ reveal(in_NodeScillaType); reveal(in_NodeTypeAnnotation); }
#[verifier::opaque]
spec fn in_NodeProgram(t: Toks, v: NodeProgram, a: int, b: int) -> bool
    decreases v
{ (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.version.start, v.version.end, x, y) && y == x + 1) && (match v.import_declarations { Some(z203) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, z203.start, z203.end, x, y) && in_NodeImportDeclarations(t, z203.node, x, y)), None => true }) && (match v.library_definition { Some(z205) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, z205.start, z205.end, x, y) && in_NodeLibraryDefinition(t, z205.node, x, y)), None => true }) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.contract_definition.start, v.contract_definition.end, x, y) && in_NodeContractDefinition(t, v.contract_definition.node, x, y)) && (v.import_declarations is Some ==> (le(v.version.end, v.import_declarations->0.start) || le(v.import_declarations->0.end, v.version.start))) && (v.library_definition is Some ==> (le(v.version.end, v.library_definition->0.start) || le(v.library_definition->0.end, v.version.start))) && (le(v.version.end, v.contract_definition.start) || le(v.contract_definition.end, v.version.start)) && (v.import_declarations is Some && v.library_definition is Some ==> (le(v.import_declarations->0.end, v.library_definition->0.start) || le(v.library_definition->0.end, v.import_declarations->0.start))) && (v.import_declarations is Some ==> (le(v.import_declarations->0.end, v.contract_definition.start) || le(v.contract_definition.end, v.import_declarations->0.start))) && (v.library_definition is Some ==> (le(v.library_definition->0.end, v.contract_definition.start) || le(v.contract_definition.end, v.library_definition->0.start))) }
broadcast proof fn i_in_NodeProgram(t: Toks, v: NodeProgram, a: int, b: int)
    requires ((exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.version.start, v.version.end, x, y) && y == x + 1) && (match v.import_declarations { Some(z203) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, z203.start, z203.end, x, y) && in_NodeImportDeclarations(t, z203.node, x, y)), None => true }) && (match v.library_definition { Some(z205) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, z205.start, z205.end, x, y) && in_NodeLibraryDefinition(t, z205.node, x, y)), None => true }) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.contract_definition.start, v.contract_definition.end, x, y) && in_NodeContractDefinition(t, v.contract_definition.node, x, y)) && (v.import_declarations is Some ==> (le(v.version.end, v.import_declarations->0.start) || le(v.import_declarations->0.end, v.version.start))) && (v.library_definition is Some ==> (le(v.version.end, v.library_definition->0.start) || le(v.library_definition->0.end, v.version.start))) && (le(v.version.end, v.contract_definition.start) || le(v.contract_definition.end, v.version.start)) && (v.import_declarations is Some && v.library_definition is Some ==> (le(v.import_declarations->0.end, v.library_definition->0.start) || le(v.library_definition->0.end, v.import_declarations->0.start))) && (v.import_declarations is Some ==> (le(v.import_declarations->0.end, v.contract_definition.start) || le(v.contract_definition.end, v.import_declarations->0.start))) && (v.library_definition is Some ==> (le(v.library_definition->0.end, v.contract_definition.start) || le(v.contract_definition.end, v.library_definition->0.start)))),
    ensures #[trigger] in_NodeProgram(t, v, a, b),
{ reveal(in_NodeContractDefinition); reveal(in_NodeImportDeclarations); reveal(in_NodeLibraryDefinition); reveal(in_NodeProgram); }
#[verifier::opaque]
spec fn in_NodeLibraryDefinition(t: Toks, v: NodeLibraryDefinition, a: int, b: int) -> bool
    decreases v
{ (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.name.start, v.name.end, x, y) && in_NodeTypeNameIdentifier(t, v.name.node, x, y)) && (forall|i209: int| #![trigger v.definitions@[i209]] 0 <= i209 < v.definitions@.len() ==> at(v.definitions@[i209]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.definitions@[i209].start, v.definitions@[i209].end, x, y) && in_NodeLibrarySingleDefinition(t, v.definitions@[i209].node, x, y))) && (forall|i: int, j: int| #![trigger v.definitions@[i], v.definitions@[j]] 0 <= i < j < v.definitions@.len() ==> le(v.definitions@[i].end, v.definitions@[j].start)) }
broadcast proof fn i_in_NodeLibraryDefinition(t: Toks, v: NodeLibraryDefinition, a: int, b: int)
    requires ((exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.name.start, v.name.end, x, y) && in_NodeTypeNameIdentifier(t, v.name.node, x, y)) && (forall|i209: int| #![trigger v.definitions@[i209]] 0 <= i209 < v.definitions@.len() ==> at(v.definitions@[i209]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.definitions@[i209].start, v.definitions@[i209].end, x, y) && in_NodeLibrarySingleDefinition(t, v.definitions@[i209].node, x, y))) && (forall|i: int, j: int| #![trigger v.definitions@[i], v.definitions@[j]] 0 <= i < j < v.definitions@.len() ==> le(v.definitions@[i].end, v.definitions@[j].start))),
    ensures #[trigger] in_NodeLibraryDefinition(t, v, a, b),
{ reveal(in_NodeLibraryDefinition); reveal(in_NodeLibrarySingleDefinition); reveal(in_NodeTypeNameIdentifier); }
#[verifier::opaque]
spec fn in_NodeLibrarySingleDefinition(t: Toks, v: NodeLibrarySingleDefinition, a: int, b: int) -> bool
    decreases v
{ match v {
    NodeLibrarySingleDefinition::LetDefinition { variable_name: f_variable_name, type_annotation: f_type_annotation, expression: f_expression } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_variable_name.start, f_variable_name.end, x, y) && y == x + 1) && (match f_type_annotation { Some(z212) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, z212.start, z212.end, x, y) && in_NodeTypeAnnotation(t, z212.node, x, y)), None => true }) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_expression.start, f_expression.end, x, y) && in_NodeFullExpression(t, f_expression.node, x, y)) && (f_type_annotation is Some ==> (le(f_variable_name.end, f_type_annotation->0.start) || le(f_type_annotation->0.end, f_variable_name.start))) && (le(f_variable_name.end, f_expression.start) || le(f_expression.end, f_variable_name.start)) && (f_type_annotation is Some ==> (le(f_type_annotation->0.end, f_expression.start) || le(f_expression.end, f_type_annotation->0.start))),
    NodeLibrarySingleDefinition::TypeDefinition(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeNameIdentifier(t, f0.node, x, y)) && (match f1 { Some(z216) => (forall|i217: int| #![trigger z216@[i217]] 0 <= i217 < z216@.len() ==> at(z216@[i217]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, z216@[i217].start, z216@[i217].end, x, y) && in_NodeTypeAlternativeClause(t, z216@[i217].node, x, y))) && (forall|i: int, j: int| #![trigger z216@[i], z216@[j]] 0 <= i < j < z216@.len() ==> le(z216@[i].end, z216@[j].start)), None => true }),
} }
broadcast proof fn i_in_NodeLibrarySingleDefinition(t: Toks, v: NodeLibrarySingleDefinition, a: int, b: int)
    requires (match v {
    NodeLibrarySingleDefinition::LetDefinition { variable_name: f_variable_name, type_annotation: f_type_annotation, expression: f_expression } => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_variable_name.start, f_variable_name.end, x, y) && y == x + 1) && (match f_type_annotation { Some(z212) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, z212.start, z212.end, x, y) && in_NodeTypeAnnotation(t, z212.node, x, y)), None => true }) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f_expression.start, f_expression.end, x, y) && in_NodeFullExpression(t, f_expression.node, x, y)) && (f_type_annotation is Some ==> (le(f_variable_name.end, f_type_annotation->0.start) || le(f_type_annotation->0.end, f_variable_name.start))) && (le(f_variable_name.end, f_expression.start) || le(f_expression.end, f_variable_name.start)) && (f_type_annotation is Some ==> (le(f_type_annotation->0.end, f_expression.start) || le(f_expression.end, f_type_annotation->0.start))),
    NodeLibrarySingleDefinition::TypeDefinition(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeNameIdentifier(t, f0.node, x, y)) && (match f1 { Some(z216) => (forall|i217: int| #![trigger z216@[i217]] 0 <= i217 < z216@.len() ==> at(z216@[i217]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, z216@[i217].start, z216@[i217].end, x, y) && in_NodeTypeAlternativeClause(t, z216@[i217].node, x, y))) && (forall|i: int, j: int| #![trigger z216@[i], z216@[j]] 0 <= i < j < z216@.len() ==> le(z216@[i].end, z216@[j].start)), None => true }),
}),
    ensures #[trigger] in_NodeLibrarySingleDefinition(t, v, a, b),
{ reveal(in_NodeFullExpression); reveal(in_NodeLibrarySingleDefinition); reveal(in_NodeTypeAlternativeClause); reveal(in_NodeTypeAnnotation); reveal(in_NodeTypeNameIdentifier); }
#[verifier::opaque]
spec fn in_NodeContractDefinition(t: Toks, v: NodeContractDefinition, a: int, b: int) -> bool
    decreases v
{ (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.contract_name.start, v.contract_name.end, x, y) && in_NodeTypeNameIdentifier(t, v.contract_name.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.parameters.start, v.parameters.end, x, y) && in_NodeComponentParameters(t, v.parameters.node, x, y)) && (match v.constraint { Some(z221) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, z221.start, z221.end, x, y) && in_NodeWithConstraint(t, z221.node, x, y)), None => true }) && (forall|i223: int| #![trigger v.fields@[i223]] 0 <= i223 < v.fields@.len() ==> at(v.fields@[i223]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.fields@[i223].start, v.fields@[i223].end, x, y) && in_NodeContractField(t, v.fields@[i223].node, x, y))) && (forall|i: int, j: int| #![trigger v.fields@[i], v.fields@[j]] 0 <= i < j < v.fields@.len() ==> le(v.fields@[i].end, v.fields@[j].start)) && (forall|i225: int| #![trigger v.components@[i225]] 0 <= i225 < v.components@.len() ==> at(v.components@[i225]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.components@[i225].start, v.components@[i225].end, x, y) && in_NodeComponentDefinition(t, v.components@[i225].node, x, y))) && (forall|i: int, j: int| #![trigger v.components@[i], v.components@[j]] 0 <= i < j < v.components@.len() ==> le(v.components@[i].end, v.components@[j].start)) && (le(v.contract_name.end, v.parameters.start) || le(v.parameters.end, v.contract_name.start)) && (v.constraint is Some ==> (le(v.contract_name.end, v.constraint->0.start) || le(v.constraint->0.end, v.contract_name.start))) && (v.constraint is Some ==> (le(v.parameters.end, v.constraint->0.start) || le(v.constraint->0.end, v.parameters.start))) }
broadcast proof fn i_in_NodeContractDefinition(t: Toks, v: NodeContractDefinition, a: int, b: int)
    requires ((exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.contract_name.start, v.contract_name.end, x, y) && in_NodeTypeNameIdentifier(t, v.contract_name.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.parameters.start, v.parameters.end, x, y) && in_NodeComponentParameters(t, v.parameters.node, x, y)) && (match v.constraint { Some(z221) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, z221.start, z221.end, x, y) && in_NodeWithConstraint(t, z221.node, x, y)), None => true }) && (forall|i223: int| #![trigger v.fields@[i223]] 0 <= i223 < v.fields@.len() ==> at(v.fields@[i223]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.fields@[i223].start, v.fields@[i223].end, x, y) && in_NodeContractField(t, v.fields@[i223].node, x, y))) && (forall|i: int, j: int| #![trigger v.fields@[i], v.fields@[j]] 0 <= i < j < v.fields@.len() ==> le(v.fields@[i].end, v.fields@[j].start)) && (forall|i225: int| #![trigger v.components@[i225]] 0 <= i225 < v.components@.len() ==> at(v.components@[i225]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.components@[i225].start, v.components@[i225].end, x, y) && in_NodeComponentDefinition(t, v.components@[i225].node, x, y))) && (forall|i: int, j: int| #![trigger v.components@[i], v.components@[j]] 0 <= i < j < v.components@.len() ==> le(v.components@[i].end, v.components@[j].start)) && (le(v.contract_name.end, v.parameters.start) || le(v.parameters.end, v.contract_name.start)) && (v.constraint is Some ==> (le(v.contract_name.end, v.constraint->0.start) || le(v.constraint->0.end, v.contract_name.start))) && (v.constraint is Some ==> (le(v.parameters.end, v.constraint->0.start) || le(v.constraint->0.end, v.parameters.start)))),
    ensures #[trigger] in_NodeContractDefinition(t, v, a, b),
{ reveal(in_NodeComponentDefinition); reveal(in_NodeComponentParameters); reveal(in_NodeContractDefinition); reveal(in_NodeContractField); reveal(in_NodeTypeNameIdentifier); reveal(in_NodeWithConstraint); }
#[verifier::opaque]
spec fn in_NodeContractField(t: Toks, v: NodeContractField, a: int, b: int) -> bool
    decreases v
{ (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.typed_identifier.start, v.typed_identifier.end, x, y) && in_NodeTypedIdentifier(t, v.typed_identifier.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.right_hand_side.start, v.right_hand_side.end, x, y) && in_NodeFullExpression(t, v.right_hand_side.node, x, y)) && (le(v.typed_identifier.end, v.right_hand_side.start) || le(v.right_hand_side.end, v.typed_identifier.start)) }
broadcast proof fn i_in_NodeContractField(t: Toks, v: NodeContractField, a: int, b: int)
    requires ((exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.typed_identifier.start, v.typed_identifier.end, x, y) && in_NodeTypedIdentifier(t, v.typed_identifier.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.right_hand_side.start, v.right_hand_side.end, x, y) && in_NodeFullExpression(t, v.right_hand_side.node, x, y)) && (le(v.typed_identifier.end, v.right_hand_side.start) || le(v.right_hand_side.end, v.typed_identifier.start))),
    ensures #[trigger] in_NodeContractField(t, v, a, b),
{ reveal(in_NodeContractField); reveal(in_NodeFullExpression); reveal(in_NodeTypedIdentifier); }
#[verifier::opaque]
spec fn in_NodeWithConstraint(t: Toks, v: NodeWithConstraint, a: int, b: int) -> bool
    decreases v
{ (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*v.expression).start, (*v.expression).end, x, y) && in_NodeFullExpression(t, (*v.expression).node, x, y)) }
broadcast proof fn i_in_NodeWithConstraint(t: Toks, v: NodeWithConstraint, a: int, b: int)
    requires ((exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*v.expression).start, (*v.expression).end, x, y) && in_NodeFullExpression(t, (*v.expression).node, x, y))),
    ensures #[trigger] in_NodeWithConstraint(t, v, a, b),
{ reveal(in_NodeFullExpression); reveal(in_NodeWithConstraint); }
#[verifier::opaque]
spec fn in_NodeComponentDefinition(t: Toks, v: NodeComponentDefinition, a: int, b: int) -> bool
    decreases v
{ match v {
    NodeComponentDefinition::TransitionComponent(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f0).start, (*f0).end, x, y) && in_NodeTransitionDefinition(t, (*f0).node, x, y)),
    NodeComponentDefinition::ProcedureComponent(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f0).start, (*f0).end, x, y) && in_NodeProcedureDefinition(t, (*f0).node, x, y)),
} }
broadcast proof fn i_in_NodeComponentDefinition(t: Toks, v: NodeComponentDefinition, a: int, b: int)
    requires (match v {
    NodeComponentDefinition::TransitionComponent(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f0).start, (*f0).end, x, y) && in_NodeTransitionDefinition(t, (*f0).node, x, y)),
    NodeComponentDefinition::ProcedureComponent(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f0).start, (*f0).end, x, y) && in_NodeProcedureDefinition(t, (*f0).node, x, y)),
}),
    ensures #[trigger] in_NodeComponentDefinition(t, v, a, b),
{ reveal(in_NodeComponentDefinition); reveal(in_NodeProcedureDefinition); reveal(in_NodeTransitionDefinition); }
#[verifier::opaque]
spec fn in_NodeProcedureDefinition(t: Toks, v: NodeProcedureDefinition, a: int, b: int) -> bool
    decreases v
{ (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.name.start, v.name.end, x, y) && in_NodeComponentId(t, v.name.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.parameters.start, v.parameters.end, x, y) && in_NodeComponentParameters(t, v.parameters.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.body.start, v.body.end, x, y) && in_NodeComponentBody(t, v.body.node, x, y)) && (le(v.name.end, v.parameters.start) || le(v.parameters.end, v.name.start)) && (le(v.name.end, v.body.start) || le(v.body.end, v.name.start)) && (le(v.parameters.end, v.body.start) || le(v.body.end, v.parameters.start)) }
broadcast proof fn i_in_NodeProcedureDefinition(t: Toks, v: NodeProcedureDefinition, a: int, b: int)
    requires ((exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.name.start, v.name.end, x, y) && in_NodeComponentId(t, v.name.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.parameters.start, v.parameters.end, x, y) && in_NodeComponentParameters(t, v.parameters.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.body.start, v.body.end, x, y) && in_NodeComponentBody(t, v.body.node, x, y)) && (le(v.name.end, v.parameters.start) || le(v.parameters.end, v.name.start)) && (le(v.name.end, v.body.start) || le(v.body.end, v.name.start)) && (le(v.parameters.end, v.body.start) || le(v.body.end, v.parameters.start))),
    ensures #[trigger] in_NodeProcedureDefinition(t, v, a, b),
{ reveal(in_NodeComponentBody); reveal(in_NodeComponentId); reveal(in_NodeComponentParameters); reveal(in_NodeProcedureDefinition); }
#[verifier::opaque]
spec fn in_NodeTransitionDefinition(t: Toks, v: NodeTransitionDefinition, a: int, b: int) -> bool
    decreases v
{ (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.name.start, v.name.end, x, y) && in_NodeComponentId(t, v.name.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.parameters.start, v.parameters.end, x, y) && in_NodeComponentParameters(t, v.parameters.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.body.start, v.body.end, x, y) && in_NodeComponentBody(t, v.body.node, x, y)) && (le(v.name.end, v.parameters.start) || le(v.parameters.end, v.name.start)) && (le(v.name.end, v.body.start) || le(v.body.end, v.name.start)) && (le(v.parameters.end, v.body.start) || le(v.body.end, v.parameters.start)) }
broadcast proof fn i_in_NodeTransitionDefinition(t: Toks, v: NodeTransitionDefinition, a: int, b: int)
    requires ((exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.name.start, v.name.end, x, y) && in_NodeComponentId(t, v.name.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.parameters.start, v.parameters.end, x, y) && in_NodeComponentParameters(t, v.parameters.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v.body.start, v.body.end, x, y) && in_NodeComponentBody(t, v.body.node, x, y)) && (le(v.name.end, v.parameters.start) || le(v.parameters.end, v.name.start)) && (le(v.name.end, v.body.start) || le(v.body.end, v.name.start)) && (le(v.parameters.end, v.body.start) || le(v.body.end, v.parameters.start))),
    ensures #[trigger] in_NodeTransitionDefinition(t, v, a, b),
{ reveal(in_NodeComponentBody); reveal(in_NodeComponentId); reveal(in_NodeComponentParameters); reveal(in_NodeTransitionDefinition); }
#[verifier::opaque]
spec fn in_NodeTypeAlternativeClause(t: Toks, v: NodeTypeAlternativeClause, a: int, b: int) -> bool
    decreases v
{ match v {
    NodeTypeAlternativeClause::ClauseType(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeNameIdentifier(t, f0.node, x, y)),
    NodeTypeAlternativeClause::ClauseTypeWithArgs(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeNameIdentifier(t, f0.node, x, y)) && (forall|i243: int| #![trigger f1@[i243]] 0 <= i243 < f1@.len() ==> at(f1@[i243]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1@[i243].start, f1@[i243].end, x, y) && in_NodeTypeArgument(t, f1@[i243].node, x, y))) && (forall|i: int, j: int| #![trigger f1@[i], f1@[j]] 0 <= i < j < f1@.len() ==> le(f1@[i].end, f1@[j].start)),
} }
broadcast proof fn i_in_NodeTypeAlternativeClause(t: Toks, v: NodeTypeAlternativeClause, a: int, b: int)
    requires (match v {
    NodeTypeAlternativeClause::ClauseType(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeNameIdentifier(t, f0.node, x, y)),
    NodeTypeAlternativeClause::ClauseTypeWithArgs(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeNameIdentifier(t, f0.node, x, y)) && (forall|i243: int| #![trigger f1@[i243]] 0 <= i243 < f1@.len() ==> at(f1@[i243]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1@[i243].start, f1@[i243].end, x, y) && in_NodeTypeArgument(t, f1@[i243].node, x, y))) && (forall|i: int, j: int| #![trigger f1@[i], f1@[j]] 0 <= i < j < f1@.len() ==> le(f1@[i].end, f1@[j].start)),
}),
    ensures #[trigger] in_NodeTypeAlternativeClause(t, v, a, b),
{ reveal(in_NodeTypeAlternativeClause); reveal(in_NodeTypeArgument); reveal(in_NodeTypeNameIdentifier); }
#[verifier::opaque]
spec fn in_NodeTypeMapValueArguments(t: Toks, v: NodeTypeMapValueArguments, a: int, b: int) -> bool
    decreases v
{ match v {
    NodeTypeMapValueArguments::EnclosedTypeMapValue(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f0).start, (*f0).end, x, y) && in_NodeTypeMapValueAllowingTypeArguments(t, (*f0).node, x, y)),
    NodeTypeMapValueArguments::GenericMapValueArgument(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeMetaIdentifier(t, f0.node, x, y)),
    NodeTypeMapValueArguments::MapKeyValueType(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeMapKey(t, f0.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && in_NodeTypeMapValue(t, f1.node, x, y)) && (le(f0.end, f1.start) || le(f1.end, f0.start)),
} }
broadcast proof fn i_in_NodeTypeMapValueArguments(t: Toks, v: NodeTypeMapValueArguments, a: int, b: int)
    requires (match v {
    NodeTypeMapValueArguments::EnclosedTypeMapValue(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, (*f0).start, (*f0).end, x, y) && in_NodeTypeMapValueAllowingTypeArguments(t, (*f0).node, x, y)),
    NodeTypeMapValueArguments::GenericMapValueArgument(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeMetaIdentifier(t, f0.node, x, y)),
    NodeTypeMapValueArguments::MapKeyValueType(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeMapKey(t, f0.node, x, y)) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1.start, f1.end, x, y) && in_NodeTypeMapValue(t, f1.node, x, y)) && (le(f0.end, f1.start) || le(f1.end, f0.start)),
}),
    ensures #[trigger] in_NodeTypeMapValueArguments(t, v, a, b),
{ reveal(in_NodeMetaIdentifier); reveal(in_NodeTypeMapKey); reveal(in_NodeTypeMapValue); reveal(in_NodeTypeMapValueAllowingTypeArguments); reveal(in_NodeTypeMapValueArguments); }
#[verifier::opaque]
spec fn in_NodeTypeMapValueAllowingTypeArguments(t: Toks, v: NodeTypeMapValueAllowingTypeArguments, a: int, b: int) -> bool
    decreases v
{ match v {
    NodeTypeMapValueAllowingTypeArguments::TypeMapValueNoArgs(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeMapValue(t, f0.node, x, y)),
    NodeTypeMapValueAllowingTypeArguments::TypeMapValueWithArgs(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeMetaIdentifier(t, f0.node, x, y)) && (forall|i252: int| #![trigger f1@[i252]] 0 <= i252 < f1@.len() ==> at(f1@[i252]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1@[i252].start, f1@[i252].end, x, y) && in_NodeTypeMapValueArguments(t, f1@[i252].node, x, y))) && (forall|i: int, j: int| #![trigger f1@[i], f1@[j]] 0 <= i < j < f1@.len() ==> le(f1@[i].end, f1@[j].start)),
} }
broadcast proof fn i_in_NodeTypeMapValueAllowingTypeArguments(t: Toks, v: NodeTypeMapValueAllowingTypeArguments, a: int, b: int)
    requires (match v {
    NodeTypeMapValueAllowingTypeArguments::TypeMapValueNoArgs(f0) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeTypeMapValue(t, f0.node, x, y)),
    NodeTypeMapValueAllowingTypeArguments::TypeMapValueWithArgs(f0, f1) => (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f0.start, f0.end, x, y) && in_NodeMetaIdentifier(t, f0.node, x, y)) && (forall|i252: int| #![trigger f1@[i252]] 0 <= i252 < f1@.len() ==> at(f1@[i252]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, f1@[i252].start, f1@[i252].end, x, y) && in_NodeTypeMapValueArguments(t, f1@[i252].node, x, y))) && (forall|i: int, j: int| #![trigger f1@[i], f1@[j]] 0 <= i < j < f1@.len() ==> le(f1@[i].end, f1@[j].start)),
}),
    ensures #[trigger] in_NodeTypeMapValueAllowingTypeArguments(t, v, a, b),
{ reveal(in_NodeMetaIdentifier); reveal(in_NodeTypeMapValue); reveal(in_NodeTypeMapValueAllowingTypeArguments); reveal(in_NodeTypeMapValueArguments); }
// ---- where the value of a nonterminal lies ----
spec fn span_HexNumber(t: Toks, v: WithMetaData<String>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && hi == lo + 1 }
spec fn span_HexNumber_opt(t: Toks, v: Option<WithMetaData<String>>, lo: int, hi: int) -> bool { match v { Some(x) => span_HexNumber(t, x, lo, hi), None => lo == hi } }
spec fn span_HexNumber_list(t: Toks, v: Seq<WithMetaData<String>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i254: int| #![trigger v[i254]] 0 <= i254 < v.len() ==> at(v[i254]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i254].start, v[i254].end, x, y) && y == x + 1)) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_SignedInteger(t: Toks, v: WithMetaData<String>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && hi == lo + 1 }
spec fn span_SignedInteger_opt(t: Toks, v: Option<WithMetaData<String>>, lo: int, hi: int) -> bool { match v { Some(x) => span_SignedInteger(t, x, lo, hi), None => lo == hi } }
spec fn span_SignedInteger_list(t: Toks, v: Seq<WithMetaData<String>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i256: int| #![trigger v[i256]] 0 <= i256 < v.len() ==> at(v[i256]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i256].start, v[i256].end, x, y) && y == x + 1)) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_RegularId(t: Toks, v: WithMetaData<String>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && hi == lo + 1 }
spec fn span_RegularId_opt(t: Toks, v: Option<WithMetaData<String>>, lo: int, hi: int) -> bool { match v { Some(x) => span_RegularId(t, x, lo, hi), None => lo == hi } }
spec fn span_RegularId_list(t: Toks, v: Seq<WithMetaData<String>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i258: int| #![trigger v[i258]] 0 <= i258 < v.len() ==> at(v[i258]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i258].start, v[i258].end, x, y) && y == x + 1)) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_SpecialId(t: Toks, v: WithMetaData<String>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && hi == lo + 1 }
spec fn span_SpecialId_opt(t: Toks, v: Option<WithMetaData<String>>, lo: int, hi: int) -> bool { match v { Some(x) => span_SpecialId(t, x, lo, hi), None => lo == hi } }
spec fn span_SpecialId_list(t: Toks, v: Seq<WithMetaData<String>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i260: int| #![trigger v[i260]] 0 <= i260 < v.len() ==> at(v[i260]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i260].start, v[i260].end, x, y) && y == x + 1)) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_TypeOrEnumLikeIdentifierId(t: Toks, v: WithMetaData<String>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && hi == lo + 1 }
spec fn span_TypeOrEnumLikeIdentifierId_opt(t: Toks, v: Option<WithMetaData<String>>, lo: int, hi: int) -> bool { match v { Some(x) => span_TypeOrEnumLikeIdentifierId(t, x, lo, hi), None => lo == hi } }
spec fn span_TypeOrEnumLikeIdentifierId_list(t: Toks, v: Seq<WithMetaData<String>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i262: int| #![trigger v[i262]] 0 <= i262 < v.len() ==> at(v[i262]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i262].start, v[i262].end, x, y) && y == x + 1)) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_TemplateTypeId(t: Toks, v: WithMetaData<String>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && hi == lo + 1 }
spec fn span_TemplateTypeId_opt(t: Toks, v: Option<WithMetaData<String>>, lo: int, hi: int) -> bool { match v { Some(x) => span_TemplateTypeId(t, x, lo, hi), None => lo == hi } }
spec fn span_TemplateTypeId_list(t: Toks, v: Seq<WithMetaData<String>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i264: int| #![trigger v[i264]] 0 <= i264 < v.len() ==> at(v[i264]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i264].start, v[i264].end, x, y) && y == x + 1)) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_StringLiteral(t: Toks, v: WithMetaData<String>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && hi == lo + 1 }
spec fn span_StringLiteral_opt(t: Toks, v: Option<WithMetaData<String>>, lo: int, hi: int) -> bool { match v { Some(x) => span_StringLiteral(t, x, lo, hi), None => lo == hi } }
spec fn span_StringLiteral_list(t: Toks, v: Seq<WithMetaData<String>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i266: int| #![trigger v[i266]] 0 <= i266 < v.len() ==> at(v[i266]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i266].start, v[i266].end, x, y) && y == x + 1)) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_ByteString(t: Toks, v: NodeByteStr, lo: int, hi: int) -> bool { mk(lo, hi) && in_NodeByteStr(t, v, lo, hi) }
spec fn span_ByteString_opt(t: Toks, v: Option<NodeByteStr>, lo: int, hi: int) -> bool { match v { Some(x) => span_ByteString(t, x, lo, hi), None => lo == hi } }
spec fn span_ByteString_list(t: Toks, v: Seq<NodeByteStr>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i268: int| #![trigger v[i268]] 0 <= i268 < v.len() ==> at(v[i268]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x <= y <= b && in_NodeByteStr(t, v[i268], x, y))) }
spec fn span_TypeNameIdentifier(t: Toks, v: WithMetaData<NodeTypeNameIdentifier>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeTypeNameIdentifier(t, v.node, lo, hi) }
spec fn span_TypeNameIdentifier_opt(t: Toks, v: Option<WithMetaData<NodeTypeNameIdentifier>>, lo: int, hi: int) -> bool { match v { Some(x) => span_TypeNameIdentifier(t, x, lo, hi), None => lo == hi } }
spec fn span_TypeNameIdentifier_list(t: Toks, v: Seq<WithMetaData<NodeTypeNameIdentifier>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i270: int| #![trigger v[i270]] 0 <= i270 < v.len() ==> at(v[i270]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i270].start, v[i270].end, x, y) && in_NodeTypeNameIdentifier(t, v[i270].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_ImportedName(t: Toks, v: WithMetaData<NodeImportedName>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeImportedName(t, v.node, lo, hi) }
spec fn span_ImportedName_opt(t: Toks, v: Option<WithMetaData<NodeImportedName>>, lo: int, hi: int) -> bool { match v { Some(x) => span_ImportedName(t, x, lo, hi), None => lo == hi } }
spec fn span_ImportedName_list(t: Toks, v: Seq<WithMetaData<NodeImportedName>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i272: int| #![trigger v[i272]] 0 <= i272 < v.len() ==> at(v[i272]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i272].start, v[i272].end, x, y) && in_NodeImportedName(t, v[i272].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_ImportDeclarations(t: Toks, v: WithMetaData<NodeImportDeclarations>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeImportDeclarations(t, v.node, lo, hi) }
spec fn span_ImportDeclarations_opt(t: Toks, v: Option<WithMetaData<NodeImportDeclarations>>, lo: int, hi: int) -> bool { match v { Some(x) => span_ImportDeclarations(t, x, lo, hi), None => lo == hi } }
spec fn span_ImportDeclarations_list(t: Toks, v: Seq<WithMetaData<NodeImportDeclarations>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i274: int| #![trigger v[i274]] 0 <= i274 < v.len() ==> at(v[i274]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i274].start, v[i274].end, x, y) && in_NodeImportDeclarations(t, v[i274].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_MetaIdentifier(t: Toks, v: WithMetaData<NodeMetaIdentifier>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeMetaIdentifier(t, v.node, lo, hi) }
spec fn span_MetaIdentifier_opt(t: Toks, v: Option<WithMetaData<NodeMetaIdentifier>>, lo: int, hi: int) -> bool { match v { Some(x) => span_MetaIdentifier(t, x, lo, hi), None => lo == hi } }
spec fn span_MetaIdentifier_list(t: Toks, v: Seq<WithMetaData<NodeMetaIdentifier>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i276: int| #![trigger v[i276]] 0 <= i276 < v.len() ==> at(v[i276]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i276].start, v[i276].end, x, y) && in_NodeMetaIdentifier(t, v[i276].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_VariableIdentifier(t: Toks, v: WithMetaData<NodeVariableIdentifier>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeVariableIdentifier(t, v.node, lo, hi) }
spec fn span_VariableIdentifier_opt(t: Toks, v: Option<WithMetaData<NodeVariableIdentifier>>, lo: int, hi: int) -> bool { match v { Some(x) => span_VariableIdentifier(t, x, lo, hi), None => lo == hi } }
spec fn span_VariableIdentifier_list(t: Toks, v: Seq<WithMetaData<NodeVariableIdentifier>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i278: int| #![trigger v[i278]] 0 <= i278 < v.len() ==> at(v[i278]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i278].start, v[i278].end, x, y) && in_NodeVariableIdentifier(t, v[i278].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_BuiltinArguments(t: Toks, v: WithMetaData<NodeBuiltinArguments>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeBuiltinArguments(t, v.node, lo, hi) }
spec fn span_BuiltinArguments_opt(t: Toks, v: Option<WithMetaData<NodeBuiltinArguments>>, lo: int, hi: int) -> bool { match v { Some(x) => span_BuiltinArguments(t, x, lo, hi), None => lo == hi } }
spec fn span_BuiltinArguments_list(t: Toks, v: Seq<WithMetaData<NodeBuiltinArguments>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i280: int| #![trigger v[i280]] 0 <= i280 < v.len() ==> at(v[i280]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i280].start, v[i280].end, x, y) && in_NodeBuiltinArguments(t, v[i280].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_RemainingTypes(t: Toks, v: WithMetaData<NodeScillaType>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeScillaType(t, v.node, lo, hi) }
spec fn span_RemainingTypes_opt(t: Toks, v: Option<WithMetaData<NodeScillaType>>, lo: int, hi: int) -> bool { match v { Some(x) => span_RemainingTypes(t, x, lo, hi), None => lo == hi } }
spec fn span_RemainingTypes_list(t: Toks, v: Seq<WithMetaData<NodeScillaType>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i282: int| #![trigger v[i282]] 0 <= i282 < v.len() ==> at(v[i282]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i282].start, v[i282].end, x, y) && in_NodeScillaType(t, v[i282].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_FunctionSignature(t: Toks, v: WithMetaData<NodeScillaType>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeScillaType(t, v.node, lo, hi) }
spec fn span_FunctionSignature_opt(t: Toks, v: Option<WithMetaData<NodeScillaType>>, lo: int, hi: int) -> bool { match v { Some(x) => span_FunctionSignature(t, x, lo, hi), None => lo == hi } }
spec fn span_FunctionSignature_list(t: Toks, v: Seq<WithMetaData<NodeScillaType>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i284: int| #![trigger v[i284]] 0 <= i284 < v.len() ==> at(v[i284]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i284].start, v[i284].end, x, y) && in_NodeScillaType(t, v[i284].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_ScillaType(t: Toks, v: WithMetaData<NodeScillaType>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeScillaType(t, v.node, lo, hi) }
spec fn span_ScillaType_opt(t: Toks, v: Option<WithMetaData<NodeScillaType>>, lo: int, hi: int) -> bool { match v { Some(x) => span_ScillaType(t, x, lo, hi), None => lo == hi } }
spec fn span_ScillaType_list(t: Toks, v: Seq<WithMetaData<NodeScillaType>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i286: int| #![trigger v[i286]] 0 <= i286 < v.len() ==> at(v[i286]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i286].start, v[i286].end, x, y) && in_NodeScillaType(t, v[i286].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_TypeArgument(t: Toks, v: WithMetaData<NodeTypeArgument>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeTypeArgument(t, v.node, lo, hi) }
spec fn span_TypeArgument_opt(t: Toks, v: Option<WithMetaData<NodeTypeArgument>>, lo: int, hi: int) -> bool { match v { Some(x) => span_TypeArgument(t, x, lo, hi), None => lo == hi } }
spec fn span_TypeArgument_list(t: Toks, v: Seq<WithMetaData<NodeTypeArgument>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i288: int| #![trigger v[i288]] 0 <= i288 < v.len() ==> at(v[i288]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i288].start, v[i288].end, x, y) && in_NodeTypeArgument(t, v[i288].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_AddressType(t: Toks, v: WithMetaData<NodeAddressType>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeAddressType(t, v.node, lo, hi) }
spec fn span_AddressType_opt(t: Toks, v: Option<WithMetaData<NodeAddressType>>, lo: int, hi: int) -> bool { match v { Some(x) => span_AddressType(t, x, lo, hi), None => lo == hi } }
spec fn span_AddressType_list(t: Toks, v: Seq<WithMetaData<NodeAddressType>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i290: int| #![trigger v[i290]] 0 <= i290 < v.len() ==> at(v[i290]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i290].start, v[i290].end, x, y) && in_NodeAddressType(t, v[i290].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_AddressTypeFieldList(t: Toks, v: Vec<WithMetaData<NodeAddressTypeField>>, lo: int, hi: int) -> bool { mk(lo, hi) && { let a = lo; let b = hi; (forall|i292: int| #![trigger v@[i292]] 0 <= i292 < v@.len() ==> at(v@[i292]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v@[i292].start, v@[i292].end, x, y) && in_NodeAddressTypeField(t, v@[i292].node, x, y))) && (forall|i: int, j: int| #![trigger v@[i], v@[j]] 0 <= i < j < v@.len() ==> le(v@[i].end, v@[j].start)) } }
spec fn span_AddressTypeFieldList_opt(t: Toks, v: Option<Vec<WithMetaData<NodeAddressTypeField>>>, lo: int, hi: int) -> bool { match v { Some(x) => span_AddressTypeFieldList(t, x, lo, hi), None => lo == hi } }
spec fn span_AddressTypeFieldList_list(t: Toks, v: Seq<Vec<WithMetaData<NodeAddressTypeField>>>, lo: int, hi: int) -> bool { arbitrary() }
spec fn span_NextAddressTypeField(t: Toks, v: WithMetaData<NodeAddressTypeField>, lo: int, hi: int) -> bool { mk(lo + 1, hi) && ext(t, v.start, v.end, lo + 1, hi) && in_NodeAddressTypeField(t, v.node, lo + 1, hi) }
spec fn span_NextAddressTypeField_opt(t: Toks, v: Option<WithMetaData<NodeAddressTypeField>>, lo: int, hi: int) -> bool { match v { Some(x) => span_NextAddressTypeField(t, x, lo, hi), None => lo == hi } }
spec fn span_NextAddressTypeField_list(t: Toks, v: Seq<WithMetaData<NodeAddressTypeField>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i294: int| #![trigger v[i294]] 0 <= i294 < v.len() ==> at(v[i294]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i294].start, v[i294].end, x, y) && in_NodeAddressTypeField(t, v[i294].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_AddressTypeField(t: Toks, v: WithMetaData<NodeAddressTypeField>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeAddressTypeField(t, v.node, lo, hi) }
spec fn span_AddressTypeField_opt(t: Toks, v: Option<WithMetaData<NodeAddressTypeField>>, lo: int, hi: int) -> bool { match v { Some(x) => span_AddressTypeField(t, x, lo, hi), None => lo == hi } }
spec fn span_AddressTypeField_list(t: Toks, v: Seq<WithMetaData<NodeAddressTypeField>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i296: int| #![trigger v[i296]] 0 <= i296 < v.len() ==> at(v[i296]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i296].start, v[i296].end, x, y) && in_NodeAddressTypeField(t, v[i296].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_TypeMapKey(t: Toks, v: WithMetaData<NodeTypeMapKey>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeTypeMapKey(t, v.node, lo, hi) }
spec fn span_TypeMapKey_opt(t: Toks, v: Option<WithMetaData<NodeTypeMapKey>>, lo: int, hi: int) -> bool { match v { Some(x) => span_TypeMapKey(t, x, lo, hi), None => lo == hi } }
spec fn span_TypeMapKey_list(t: Toks, v: Seq<WithMetaData<NodeTypeMapKey>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i298: int| #![trigger v[i298]] 0 <= i298 < v.len() ==> at(v[i298]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i298].start, v[i298].end, x, y) && in_NodeTypeMapKey(t, v[i298].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_TypeMapValue(t: Toks, v: WithMetaData<NodeTypeMapValue>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeTypeMapValue(t, v.node, lo, hi) }
spec fn span_TypeMapValue_opt(t: Toks, v: Option<WithMetaData<NodeTypeMapValue>>, lo: int, hi: int) -> bool { match v { Some(x) => span_TypeMapValue(t, x, lo, hi), None => lo == hi } }
spec fn span_TypeMapValue_list(t: Toks, v: Seq<WithMetaData<NodeTypeMapValue>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i300: int| #![trigger v[i300]] 0 <= i300 < v.len() ==> at(v[i300]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i300].start, v[i300].end, x, y) && in_NodeTypeMapValue(t, v[i300].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_TypeMapValueArguments(t: Toks, v: WithMetaData<NodeTypeMapValueArguments>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeTypeMapValueArguments(t, v.node, lo, hi) }
spec fn span_TypeMapValueArguments_opt(t: Toks, v: Option<WithMetaData<NodeTypeMapValueArguments>>, lo: int, hi: int) -> bool { match v { Some(x) => span_TypeMapValueArguments(t, x, lo, hi), None => lo == hi } }
spec fn span_TypeMapValueArguments_list(t: Toks, v: Seq<WithMetaData<NodeTypeMapValueArguments>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i302: int| #![trigger v[i302]] 0 <= i302 < v.len() ==> at(v[i302]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i302].start, v[i302].end, x, y) && in_NodeTypeMapValueArguments(t, v[i302].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_TypeMapValueAllowingTypeArguments(t: Toks, v: WithMetaData<NodeTypeMapValueAllowingTypeArguments>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeTypeMapValueAllowingTypeArguments(t, v.node, lo, hi) }
spec fn span_TypeMapValueAllowingTypeArguments_opt(t: Toks, v: Option<WithMetaData<NodeTypeMapValueAllowingTypeArguments>>, lo: int, hi: int) -> bool { match v { Some(x) => span_TypeMapValueAllowingTypeArguments(t, x, lo, hi), None => lo == hi } }
spec fn span_TypeMapValueAllowingTypeArguments_list(t: Toks, v: Seq<WithMetaData<NodeTypeMapValueAllowingTypeArguments>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i304: int| #![trigger v[i304]] 0 <= i304 < v.len() ==> at(v[i304]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i304].start, v[i304].end, x, y) && in_NodeTypeMapValueAllowingTypeArguments(t, v[i304].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_Program(t: Toks, v: NodeProgram, lo: int, hi: int) -> bool { mk(lo, hi) && in_NodeProgram(t, v, lo, hi) }
spec fn span_Program_opt(t: Toks, v: Option<NodeProgram>, lo: int, hi: int) -> bool { match v { Some(x) => span_Program(t, x, lo, hi), None => lo == hi } }
spec fn span_Program_list(t: Toks, v: Seq<NodeProgram>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i306: int| #![trigger v[i306]] 0 <= i306 < v.len() ==> at(v[i306]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x <= y <= b && in_NodeProgram(t, v[i306], x, y))) }
spec fn span_LibraryDefinition(t: Toks, v: WithMetaData<NodeLibraryDefinition>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeLibraryDefinition(t, v.node, lo, hi) }
spec fn span_LibraryDefinition_opt(t: Toks, v: Option<WithMetaData<NodeLibraryDefinition>>, lo: int, hi: int) -> bool { match v { Some(x) => span_LibraryDefinition(t, x, lo, hi), None => lo == hi } }
spec fn span_LibraryDefinition_list(t: Toks, v: Seq<WithMetaData<NodeLibraryDefinition>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i308: int| #![trigger v[i308]] 0 <= i308 < v.len() ==> at(v[i308]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i308].start, v[i308].end, x, y) && in_NodeLibraryDefinition(t, v[i308].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_LibrarySingleDefinition(t: Toks, v: WithMetaData<NodeLibrarySingleDefinition>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeLibrarySingleDefinition(t, v.node, lo, hi) }
spec fn span_LibrarySingleDefinition_opt(t: Toks, v: Option<WithMetaData<NodeLibrarySingleDefinition>>, lo: int, hi: int) -> bool { match v { Some(x) => span_LibrarySingleDefinition(t, x, lo, hi), None => lo == hi } }
spec fn span_LibrarySingleDefinition_list(t: Toks, v: Seq<WithMetaData<NodeLibrarySingleDefinition>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i310: int| #![trigger v[i310]] 0 <= i310 < v.len() ==> at(v[i310]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i310].start, v[i310].end, x, y) && in_NodeLibrarySingleDefinition(t, v[i310].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_TypedIdentifier(t: Toks, v: WithMetaData<NodeTypedIdentifier>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeTypedIdentifier(t, v.node, lo, hi) }
spec fn span_TypedIdentifier_opt(t: Toks, v: Option<WithMetaData<NodeTypedIdentifier>>, lo: int, hi: int) -> bool { match v { Some(x) => span_TypedIdentifier(t, x, lo, hi), None => lo == hi } }
spec fn span_TypedIdentifier_list(t: Toks, v: Seq<WithMetaData<NodeTypedIdentifier>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i312: int| #![trigger v[i312]] 0 <= i312 < v.len() ==> at(v[i312]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i312].start, v[i312].end, x, y) && in_NodeTypedIdentifier(t, v[i312].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_TypeAnnotation(t: Toks, v: WithMetaData<NodeTypeAnnotation>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeTypeAnnotation(t, v.node, lo, hi) }
spec fn span_TypeAnnotation_opt(t: Toks, v: Option<WithMetaData<NodeTypeAnnotation>>, lo: int, hi: int) -> bool { match v { Some(x) => span_TypeAnnotation(t, x, lo, hi), None => lo == hi } }
spec fn span_TypeAnnotation_list(t: Toks, v: Seq<WithMetaData<NodeTypeAnnotation>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i314: int| #![trigger v[i314]] 0 <= i314 < v.len() ==> at(v[i314]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i314].start, v[i314].end, x, y) && in_NodeTypeAnnotation(t, v[i314].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_TypeAlternativeClause(t: Toks, v: WithMetaData<NodeTypeAlternativeClause>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeTypeAlternativeClause(t, v.node, lo, hi) }
spec fn span_TypeAlternativeClause_opt(t: Toks, v: Option<WithMetaData<NodeTypeAlternativeClause>>, lo: int, hi: int) -> bool { match v { Some(x) => span_TypeAlternativeClause(t, x, lo, hi), None => lo == hi } }
spec fn span_TypeAlternativeClause_list(t: Toks, v: Seq<WithMetaData<NodeTypeAlternativeClause>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i316: int| #![trigger v[i316]] 0 <= i316 < v.len() ==> at(v[i316]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i316].start, v[i316].end, x, y) && in_NodeTypeAlternativeClause(t, v[i316].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_ContractTypeArguments(t: Toks, v: WithMetaData<NodeContractTypeArguments>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeContractTypeArguments(t, v.node, lo, hi) }
spec fn span_ContractTypeArguments_opt(t: Toks, v: Option<WithMetaData<NodeContractTypeArguments>>, lo: int, hi: int) -> bool { match v { Some(x) => span_ContractTypeArguments(t, x, lo, hi), None => lo == hi } }
spec fn span_ContractTypeArguments_list(t: Toks, v: Seq<WithMetaData<NodeContractTypeArguments>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i318: int| #![trigger v[i318]] 0 <= i318 < v.len() ==> at(v[i318]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i318].start, v[i318].end, x, y) && in_NodeContractTypeArguments(t, v[i318].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_FullExpression(t: Toks, v: WithMetaData<NodeFullExpression>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeFullExpression(t, v.node, lo, hi) }
spec fn span_FullExpression_opt(t: Toks, v: Option<WithMetaData<NodeFullExpression>>, lo: int, hi: int) -> bool { match v { Some(x) => span_FullExpression(t, x, lo, hi), None => lo == hi } }
spec fn span_FullExpression_list(t: Toks, v: Seq<WithMetaData<NodeFullExpression>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i320: int| #![trigger v[i320]] 0 <= i320 < v.len() ==> at(v[i320]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i320].start, v[i320].end, x, y) && in_NodeFullExpression(t, v[i320].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_PatternMatchExpressionClause(t: Toks, v: WithMetaData<NodePatternMatchExpressionClause>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodePatternMatchExpressionClause(t, v.node, lo, hi) }
spec fn span_PatternMatchExpressionClause_opt(t: Toks, v: Option<WithMetaData<NodePatternMatchExpressionClause>>, lo: int, hi: int) -> bool { match v { Some(x) => span_PatternMatchExpressionClause(t, x, lo, hi), None => lo == hi } }
spec fn span_PatternMatchExpressionClause_list(t: Toks, v: Seq<WithMetaData<NodePatternMatchExpressionClause>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i322: int| #![trigger v[i322]] 0 <= i322 < v.len() ==> at(v[i322]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i322].start, v[i322].end, x, y) && in_NodePatternMatchExpressionClause(t, v[i322].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_Pattern(t: Toks, v: WithMetaData<NodePattern>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodePattern(t, v.node, lo, hi) }
spec fn span_Pattern_opt(t: Toks, v: Option<WithMetaData<NodePattern>>, lo: int, hi: int) -> bool { match v { Some(x) => span_Pattern(t, x, lo, hi), None => lo == hi } }
spec fn span_Pattern_list(t: Toks, v: Seq<WithMetaData<NodePattern>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i324: int| #![trigger v[i324]] 0 <= i324 < v.len() ==> at(v[i324]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i324].start, v[i324].end, x, y) && in_NodePattern(t, v[i324].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_ArgumentPattern(t: Toks, v: WithMetaData<NodeArgumentPattern>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeArgumentPattern(t, v.node, lo, hi) }
spec fn span_ArgumentPattern_opt(t: Toks, v: Option<WithMetaData<NodeArgumentPattern>>, lo: int, hi: int) -> bool { match v { Some(x) => span_ArgumentPattern(t, x, lo, hi), None => lo == hi } }
spec fn span_ArgumentPattern_list(t: Toks, v: Seq<WithMetaData<NodeArgumentPattern>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i326: int| #![trigger v[i326]] 0 <= i326 < v.len() ==> at(v[i326]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i326].start, v[i326].end, x, y) && in_NodeArgumentPattern(t, v[i326].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_NextMessageEntry(t: Toks, v: WithMetaData<NodeMessageEntry>, lo: int, hi: int) -> bool { mk(lo + 1, hi) && ext(t, v.start, v.end, lo + 1, hi) && in_NodeMessageEntry(t, v.node, lo + 1, hi) }
spec fn span_NextMessageEntry_opt(t: Toks, v: Option<WithMetaData<NodeMessageEntry>>, lo: int, hi: int) -> bool { match v { Some(x) => span_NextMessageEntry(t, x, lo, hi), None => lo == hi } }
spec fn span_NextMessageEntry_list(t: Toks, v: Seq<WithMetaData<NodeMessageEntry>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i328: int| #![trigger v[i328]] 0 <= i328 < v.len() ==> at(v[i328]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i328].start, v[i328].end, x, y) && in_NodeMessageEntry(t, v[i328].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_MessageEntry(t: Toks, v: WithMetaData<NodeMessageEntry>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeMessageEntry(t, v.node, lo, hi) }
spec fn span_MessageEntry_opt(t: Toks, v: Option<WithMetaData<NodeMessageEntry>>, lo: int, hi: int) -> bool { match v { Some(x) => span_MessageEntry(t, x, lo, hi), None => lo == hi } }
spec fn span_MessageEntry_list(t: Toks, v: Seq<WithMetaData<NodeMessageEntry>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i330: int| #![trigger v[i330]] 0 <= i330 < v.len() ==> at(v[i330]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i330].start, v[i330].end, x, y) && in_NodeMessageEntry(t, v[i330].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_AtomicExpression(t: Toks, v: WithMetaData<NodeAtomicExpression>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeAtomicExpression(t, v.node, lo, hi) }
spec fn span_AtomicExpression_opt(t: Toks, v: Option<WithMetaData<NodeAtomicExpression>>, lo: int, hi: int) -> bool { match v { Some(x) => span_AtomicExpression(t, x, lo, hi), None => lo == hi } }
spec fn span_AtomicExpression_list(t: Toks, v: Seq<WithMetaData<NodeAtomicExpression>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i332: int| #![trigger v[i332]] 0 <= i332 < v.len() ==> at(v[i332]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i332].start, v[i332].end, x, y) && in_NodeAtomicExpression(t, v[i332].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_ValueLiteral(t: Toks, v: WithMetaData<NodeValueLiteral>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeValueLiteral(t, v.node, lo, hi) }
spec fn span_ValueLiteral_opt(t: Toks, v: Option<WithMetaData<NodeValueLiteral>>, lo: int, hi: int) -> bool { match v { Some(x) => span_ValueLiteral(t, x, lo, hi), None => lo == hi } }
spec fn span_ValueLiteral_list(t: Toks, v: Seq<WithMetaData<NodeValueLiteral>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i334: int| #![trigger v[i334]] 0 <= i334 < v.len() ==> at(v[i334]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i334].start, v[i334].end, x, y) && in_NodeValueLiteral(t, v[i334].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_Statement(t: Toks, v: NodeStatement, lo: int, hi: int) -> bool { mk(lo, hi) && in_NodeStatement(t, v, lo, hi) }
spec fn span_Statement_opt(t: Toks, v: Option<NodeStatement>, lo: int, hi: int) -> bool { match v { Some(x) => span_Statement(t, x, lo, hi), None => lo == hi } }
spec fn span_Statement_list(t: Toks, v: Seq<NodeStatement>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i336: int| #![trigger v[i336]] 0 <= i336 < v.len() ==> at(v[i336]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x <= y <= b && in_NodeStatement(t, v[i336], x, y))) }
spec fn span_NextStatement(t: Toks, v: NodeStatement, lo: int, hi: int) -> bool { mk(lo + 1, hi) && in_NodeStatement(t, v, lo + 1, hi) }
spec fn span_NextStatement_opt(t: Toks, v: Option<NodeStatement>, lo: int, hi: int) -> bool { match v { Some(x) => span_NextStatement(t, x, lo, hi), None => lo == hi } }
spec fn span_NextStatement_list(t: Toks, v: Seq<NodeStatement>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i338: int| #![trigger v[i338]] 0 <= i338 < v.len() ==> at(v[i338]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x <= y <= b && in_NodeStatement(t, v[i338], x, y))) }
spec fn span_StatementBlock(t: Toks, v: WithMetaData<NodeStatementBlock>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeStatementBlock(t, v.node, lo, hi) }
spec fn span_StatementBlock_opt(t: Toks, v: Option<WithMetaData<NodeStatementBlock>>, lo: int, hi: int) -> bool { match v { Some(x) => span_StatementBlock(t, x, lo, hi), None => lo == hi } }
spec fn span_StatementBlock_list(t: Toks, v: Seq<WithMetaData<NodeStatementBlock>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i340: int| #![trigger v[i340]] 0 <= i340 < v.len() ==> at(v[i340]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i340].start, v[i340].end, x, y) && in_NodeStatementBlock(t, v[i340].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_BlockchainFetchArguments(t: Toks, v: NodeBlockchainFetchArguments, lo: int, hi: int) -> bool { mk(lo, hi) && in_NodeBlockchainFetchArguments(t, v, lo, hi) }
spec fn span_BlockchainFetchArguments_opt(t: Toks, v: Option<NodeBlockchainFetchArguments>, lo: int, hi: int) -> bool { match v { Some(x) => span_BlockchainFetchArguments(t, x, lo, hi), None => lo == hi } }
spec fn span_BlockchainFetchArguments_list(t: Toks, v: Seq<NodeBlockchainFetchArguments>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i342: int| #![trigger v[i342]] 0 <= i342 < v.len() ==> at(v[i342]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x <= y <= b && in_NodeBlockchainFetchArguments(t, v[i342], x, y))) }
spec fn span_ComponentId(t: Toks, v: WithMetaData<NodeComponentId>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeComponentId(t, v.node, lo, hi) }
spec fn span_ComponentId_opt(t: Toks, v: Option<WithMetaData<NodeComponentId>>, lo: int, hi: int) -> bool { match v { Some(x) => span_ComponentId(t, x, lo, hi), None => lo == hi } }
spec fn span_ComponentId_list(t: Toks, v: Seq<WithMetaData<NodeComponentId>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i344: int| #![trigger v[i344]] 0 <= i344 < v.len() ==> at(v[i344]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i344].start, v[i344].end, x, y) && in_NodeComponentId(t, v[i344].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_PatternMatchClause(t: Toks, v: WithMetaData<NodePatternMatchClause>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodePatternMatchClause(t, v.node, lo, hi) }
spec fn span_PatternMatchClause_opt(t: Toks, v: Option<WithMetaData<NodePatternMatchClause>>, lo: int, hi: int) -> bool { match v { Some(x) => span_PatternMatchClause(t, x, lo, hi), None => lo == hi } }
spec fn span_PatternMatchClause_list(t: Toks, v: Seq<WithMetaData<NodePatternMatchClause>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i346: int| #![trigger v[i346]] 0 <= i346 < v.len() ==> at(v[i346]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i346].start, v[i346].end, x, y) && in_NodePatternMatchClause(t, v[i346].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_RemoteFetchStatement(t: Toks, v: NodeRemoteFetchStatement, lo: int, hi: int) -> bool { mk(lo, hi) && in_NodeRemoteFetchStatement(t, v, lo, hi) }
spec fn span_RemoteFetchStatement_opt(t: Toks, v: Option<NodeRemoteFetchStatement>, lo: int, hi: int) -> bool { match v { Some(x) => span_RemoteFetchStatement(t, x, lo, hi), None => lo == hi } }
spec fn span_RemoteFetchStatement_list(t: Toks, v: Seq<NodeRemoteFetchStatement>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i348: int| #![trigger v[i348]] 0 <= i348 < v.len() ==> at(v[i348]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x <= y <= b && in_NodeRemoteFetchStatement(t, v[i348], x, y))) }
spec fn span_MapAccess(t: Toks, v: WithMetaData<NodeMapAccess>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeMapAccess(t, v.node, lo, hi) }
spec fn span_MapAccess_opt(t: Toks, v: Option<WithMetaData<NodeMapAccess>>, lo: int, hi: int) -> bool { match v { Some(x) => span_MapAccess(t, x, lo, hi), None => lo == hi } }
spec fn span_MapAccess_list(t: Toks, v: Seq<WithMetaData<NodeMapAccess>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i350: int| #![trigger v[i350]] 0 <= i350 < v.len() ==> at(v[i350]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i350].start, v[i350].end, x, y) && in_NodeMapAccess(t, v[i350].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_ParameterPair(t: Toks, v: WithMetaData<NodeParameterPair>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeParameterPair(t, v.node, lo, hi) }
spec fn span_ParameterPair_opt(t: Toks, v: Option<WithMetaData<NodeParameterPair>>, lo: int, hi: int) -> bool { match v { Some(x) => span_ParameterPair(t, x, lo, hi), None => lo == hi } }
spec fn span_ParameterPair_list(t: Toks, v: Seq<WithMetaData<NodeParameterPair>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i352: int| #![trigger v[i352]] 0 <= i352 < v.len() ==> at(v[i352]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i352].start, v[i352].end, x, y) && in_NodeParameterPair(t, v[i352].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_NextParameterPair(t: Toks, v: WithMetaData<NodeParameterPair>, lo: int, hi: int) -> bool { mk(lo + 1, hi) && ext(t, v.start, v.end, lo + 1, hi) && in_NodeParameterPair(t, v.node, lo + 1, hi) }
spec fn span_NextParameterPair_opt(t: Toks, v: Option<WithMetaData<NodeParameterPair>>, lo: int, hi: int) -> bool { match v { Some(x) => span_NextParameterPair(t, x, lo, hi), None => lo == hi } }
spec fn span_NextParameterPair_list(t: Toks, v: Seq<WithMetaData<NodeParameterPair>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i354: int| #![trigger v[i354]] 0 <= i354 < v.len() ==> at(v[i354]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i354].start, v[i354].end, x, y) && in_NodeParameterPair(t, v[i354].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_ComponentParameters(t: Toks, v: WithMetaData<NodeComponentParameters>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeComponentParameters(t, v.node, lo, hi) }
spec fn span_ComponentParameters_opt(t: Toks, v: Option<WithMetaData<NodeComponentParameters>>, lo: int, hi: int) -> bool { match v { Some(x) => span_ComponentParameters(t, x, lo, hi), None => lo == hi } }
spec fn span_ComponentParameters_list(t: Toks, v: Seq<WithMetaData<NodeComponentParameters>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i356: int| #![trigger v[i356]] 0 <= i356 < v.len() ==> at(v[i356]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i356].start, v[i356].end, x, y) && in_NodeComponentParameters(t, v[i356].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_ComponentDefinition(t: Toks, v: WithMetaData<NodeComponentDefinition>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeComponentDefinition(t, v.node, lo, hi) }
spec fn span_ComponentDefinition_opt(t: Toks, v: Option<WithMetaData<NodeComponentDefinition>>, lo: int, hi: int) -> bool { match v { Some(x) => span_ComponentDefinition(t, x, lo, hi), None => lo == hi } }
spec fn span_ComponentDefinition_list(t: Toks, v: Seq<WithMetaData<NodeComponentDefinition>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i358: int| #![trigger v[i358]] 0 <= i358 < v.len() ==> at(v[i358]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i358].start, v[i358].end, x, y) && in_NodeComponentDefinition(t, v[i358].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_TransitionDefinition(t: Toks, v: WithMetaData<NodeTransitionDefinition>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeTransitionDefinition(t, v.node, lo, hi) }
spec fn span_TransitionDefinition_opt(t: Toks, v: Option<WithMetaData<NodeTransitionDefinition>>, lo: int, hi: int) -> bool { match v { Some(x) => span_TransitionDefinition(t, x, lo, hi), None => lo == hi } }
spec fn span_TransitionDefinition_list(t: Toks, v: Seq<WithMetaData<NodeTransitionDefinition>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i360: int| #![trigger v[i360]] 0 <= i360 < v.len() ==> at(v[i360]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i360].start, v[i360].end, x, y) && in_NodeTransitionDefinition(t, v[i360].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_ProcedureDefinition(t: Toks, v: WithMetaData<NodeProcedureDefinition>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeProcedureDefinition(t, v.node, lo, hi) }
spec fn span_ProcedureDefinition_opt(t: Toks, v: Option<WithMetaData<NodeProcedureDefinition>>, lo: int, hi: int) -> bool { match v { Some(x) => span_ProcedureDefinition(t, x, lo, hi), None => lo == hi } }
spec fn span_ProcedureDefinition_list(t: Toks, v: Seq<WithMetaData<NodeProcedureDefinition>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i362: int| #![trigger v[i362]] 0 <= i362 < v.len() ==> at(v[i362]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i362].start, v[i362].end, x, y) && in_NodeProcedureDefinition(t, v[i362].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_ComponentBody(t: Toks, v: WithMetaData<NodeComponentBody>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeComponentBody(t, v.node, lo, hi) }
spec fn span_ComponentBody_opt(t: Toks, v: Option<WithMetaData<NodeComponentBody>>, lo: int, hi: int) -> bool { match v { Some(x) => span_ComponentBody(t, x, lo, hi), None => lo == hi } }
spec fn span_ComponentBody_list(t: Toks, v: Seq<WithMetaData<NodeComponentBody>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i364: int| #![trigger v[i364]] 0 <= i364 < v.len() ==> at(v[i364]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i364].start, v[i364].end, x, y) && in_NodeComponentBody(t, v[i364].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_ContractDefinition(t: Toks, v: WithMetaData<NodeContractDefinition>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeContractDefinition(t, v.node, lo, hi) }
spec fn span_ContractDefinition_opt(t: Toks, v: Option<WithMetaData<NodeContractDefinition>>, lo: int, hi: int) -> bool { match v { Some(x) => span_ContractDefinition(t, x, lo, hi), None => lo == hi } }
spec fn span_ContractDefinition_list(t: Toks, v: Seq<WithMetaData<NodeContractDefinition>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i366: int| #![trigger v[i366]] 0 <= i366 < v.len() ==> at(v[i366]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i366].start, v[i366].end, x, y) && in_NodeContractDefinition(t, v[i366].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_ContractField(t: Toks, v: WithMetaData<NodeContractField>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeContractField(t, v.node, lo, hi) }
spec fn span_ContractField_opt(t: Toks, v: Option<WithMetaData<NodeContractField>>, lo: int, hi: int) -> bool { match v { Some(x) => span_ContractField(t, x, lo, hi), None => lo == hi } }
spec fn span_ContractField_list(t: Toks, v: Seq<WithMetaData<NodeContractField>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i368: int| #![trigger v[i368]] 0 <= i368 < v.len() ==> at(v[i368]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i368].start, v[i368].end, x, y) && in_NodeContractField(t, v[i368].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
spec fn span_WithConstraint(t: Toks, v: WithMetaData<NodeWithConstraint>, lo: int, hi: int) -> bool { mk(lo, hi) && ext(t, v.start, v.end, lo, hi) && in_NodeWithConstraint(t, v.node, lo, hi) }
spec fn span_WithConstraint_opt(t: Toks, v: Option<WithMetaData<NodeWithConstraint>>, lo: int, hi: int) -> bool { match v { Some(x) => span_WithConstraint(t, x, lo, hi), None => lo == hi } }
spec fn span_WithConstraint_list(t: Toks, v: Seq<WithMetaData<NodeWithConstraint>>, lo: int, hi: int) -> bool { let a = lo; let b = hi; (forall|i370: int| #![trigger v[i370]] 0 <= i370 < v.len() ==> at(v[i370]) && (exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && ext(t, v[i370].start, v[i370].end, x, y) && in_NodeWithConstraint(t, v[i370].node, x, y))) && (forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].end, v[j].start)) }
