==== prelude
// Written by tools/gen_gram.py out of contracts/gram.doc.
ghost struct PTok { tok: Token<Seq<char>> }
type Toks = Seq<PTok>;
// ---- the documented token sequences (C17) ----
// r_X, r_X_plus: markers of a range, for the solver's quantifiers
spec fn r_HexNumber(lo: int, hi: int) -> bool { true }
spec fn r_HexNumber_plus(lo: int, hi: int) -> bool { true }
spec fn doc_HexNumber(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (hi == lo + 1 && t[lo].tok is HexNumber)
    )
}
spec fn doc_HexNumber_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_HexNumber(lo, hi) && doc_HexNumber(t, lo, hi)) || exists|m: int| #![trigger r_HexNumber_plus(lo, m), r_HexNumber(m, hi)] lo < m < hi && r_HexNumber_plus(lo, m) && r_HexNumber(m, hi) && doc_HexNumber_plus(t, lo, m) && doc_HexNumber(t, m, hi)) }
spec fn r_SignedInteger(lo: int, hi: int) -> bool { true }
spec fn r_SignedInteger_plus(lo: int, hi: int) -> bool { true }
spec fn doc_SignedInteger(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (hi == lo + 1 && t[lo].tok is Number)
    )
}
spec fn doc_SignedInteger_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_SignedInteger(lo, hi) && doc_SignedInteger(t, lo, hi)) || exists|m: int| #![trigger r_SignedInteger_plus(lo, m), r_SignedInteger(m, hi)] lo < m < hi && r_SignedInteger_plus(lo, m) && r_SignedInteger(m, hi) && doc_SignedInteger_plus(t, lo, m) && doc_SignedInteger(t, m, hi)) }
spec fn r_RegularId(lo: int, hi: int) -> bool { true }
spec fn r_RegularId_plus(lo: int, hi: int) -> bool { true }
spec fn doc_RegularId(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (hi == lo + 1 && t[lo].tok is Identifier)
    )
}
spec fn doc_RegularId_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_RegularId(lo, hi) && doc_RegularId(t, lo, hi)) || exists|m: int| #![trigger r_RegularId_plus(lo, m), r_RegularId(m, hi)] lo < m < hi && r_RegularId_plus(lo, m) && r_RegularId(m, hi) && doc_RegularId_plus(t, lo, m) && doc_RegularId(t, m, hi)) }
spec fn r_SpecialId(lo: int, hi: int) -> bool { true }
spec fn r_SpecialId_plus(lo: int, hi: int) -> bool { true }
spec fn doc_SpecialId(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (hi == lo + 1 && t[lo].tok is SpecialIdentifier)
    )
}
spec fn doc_SpecialId_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_SpecialId(lo, hi) && doc_SpecialId(t, lo, hi)) || exists|m: int| #![trigger r_SpecialId_plus(lo, m), r_SpecialId(m, hi)] lo < m < hi && r_SpecialId_plus(lo, m) && r_SpecialId(m, hi) && doc_SpecialId_plus(t, lo, m) && doc_SpecialId(t, m, hi)) }
spec fn r_TypeOrEnumLikeIdentifierId(lo: int, hi: int) -> bool { true }
spec fn r_TypeOrEnumLikeIdentifierId_plus(lo: int, hi: int) -> bool { true }
spec fn doc_TypeOrEnumLikeIdentifierId(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (hi == lo + 1 && t[lo].tok is CustomIdentifier)
    )
}
spec fn doc_TypeOrEnumLikeIdentifierId_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_TypeOrEnumLikeIdentifierId(lo, hi) && doc_TypeOrEnumLikeIdentifierId(t, lo, hi)) || exists|m: int| #![trigger r_TypeOrEnumLikeIdentifierId_plus(lo, m), r_TypeOrEnumLikeIdentifierId(m, hi)] lo < m < hi && r_TypeOrEnumLikeIdentifierId_plus(lo, m) && r_TypeOrEnumLikeIdentifierId(m, hi) && doc_TypeOrEnumLikeIdentifierId_plus(t, lo, m) && doc_TypeOrEnumLikeIdentifierId(t, m, hi)) }
spec fn r_TemplateTypeId(lo: int, hi: int) -> bool { true }
spec fn r_TemplateTypeId_plus(lo: int, hi: int) -> bool { true }
spec fn doc_TemplateTypeId(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (hi == lo + 1 && t[lo].tok is TemplateIdentifier)
    )
}
spec fn doc_TemplateTypeId_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_TemplateTypeId(lo, hi) && doc_TemplateTypeId(t, lo, hi)) || exists|m: int| #![trigger r_TemplateTypeId_plus(lo, m), r_TemplateTypeId(m, hi)] lo < m < hi && r_TemplateTypeId_plus(lo, m) && r_TemplateTypeId(m, hi) && doc_TemplateTypeId_plus(t, lo, m) && doc_TemplateTypeId(t, m, hi)) }
spec fn r_StringLiteral(lo: int, hi: int) -> bool { true }
spec fn r_StringLiteral_plus(lo: int, hi: int) -> bool { true }
spec fn doc_StringLiteral(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (hi == lo + 1 && t[lo].tok is StringLiteral)
    )
}
spec fn doc_StringLiteral_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_StringLiteral(lo, hi) && doc_StringLiteral(t, lo, hi)) || exists|m: int| #![trigger r_StringLiteral_plus(lo, m), r_StringLiteral(m, hi)] lo < m < hi && r_StringLiteral_plus(lo, m) && r_StringLiteral(m, hi) && doc_StringLiteral_plus(t, lo, m) && doc_StringLiteral(t, m, hi)) }
spec fn r_ByteString(lo: int, hi: int) -> bool { true }
spec fn r_ByteString_plus(lo: int, hi: int) -> bool { true }
spec fn doc_ByteString(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (hi == lo + 1 && t[lo].tok is ByStrWithSize)
    )
}
spec fn doc_ByteString_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_ByteString(lo, hi) && doc_ByteString(t, lo, hi)) || exists|m: int| #![trigger r_ByteString_plus(lo, m), r_ByteString(m, hi)] lo < m < hi && r_ByteString_plus(lo, m) && r_ByteString(m, hi) && doc_ByteString_plus(t, lo, m) && doc_ByteString(t, m, hi)) }
spec fn r_TypeNameIdentifier(lo: int, hi: int) -> bool { true }
spec fn r_TypeNameIdentifier_plus(lo: int, hi: int) -> bool { true }
spec fn doc_TypeNameIdentifier(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{
    0 <= lo < hi <= t.len() && (
        (lo < hi && r_ByteString(lo, hi) && doc_ByteString(t, lo, hi))
        || (hi == lo + 1 && t[lo].tok is EventType)
        || (lo < hi && r_TypeOrEnumLikeIdentifierId(lo, hi) && doc_TypeOrEnumLikeIdentifierId(t, lo, hi))
    )
}
spec fn doc_TypeNameIdentifier_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{ lo < hi && ((r_TypeNameIdentifier(lo, hi) && doc_TypeNameIdentifier(t, lo, hi)) || exists|m: int| #![trigger r_TypeNameIdentifier_plus(lo, m), r_TypeNameIdentifier(m, hi)] lo < m < hi && r_TypeNameIdentifier_plus(lo, m) && r_TypeNameIdentifier(m, hi) && doc_TypeNameIdentifier_plus(t, lo, m) && doc_TypeNameIdentifier(t, m, hi)) }
spec fn r_ImportedName(lo: int, hi: int) -> bool { true }
spec fn r_ImportedName_plus(lo: int, hi: int) -> bool { true }
spec fn doc_ImportedName(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    0 <= lo < hi <= t.len() && (
        (lo < hi && r_TypeNameIdentifier(lo, hi) && doc_TypeNameIdentifier(t, lo, hi))
        || (exists|e0: int, s2: int| #![trigger r_TypeNameIdentifier(lo, e0), r_TypeNameIdentifier(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok is As && r_TypeNameIdentifier(lo, e0) && r_TypeNameIdentifier(s2, hi) && doc_TypeNameIdentifier(t, lo, e0) && doc_TypeNameIdentifier(t, s2, hi))
    )
}
spec fn doc_ImportedName_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{ lo < hi && ((r_ImportedName(lo, hi) && doc_ImportedName(t, lo, hi)) || exists|m: int| #![trigger r_ImportedName_plus(lo, m), r_ImportedName(m, hi)] lo < m < hi && r_ImportedName_plus(lo, m) && r_ImportedName(m, hi) && doc_ImportedName_plus(t, lo, m) && doc_ImportedName(t, m, hi)) }
spec fn r_ImportDeclarations(lo: int, hi: int) -> bool { true }
spec fn r_ImportDeclarations_plus(lo: int, hi: int) -> bool { true }
spec fn doc_ImportDeclarations(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 5nat
{
    0 <= lo < hi <= t.len() && (
        (exists|s1: int| #![trigger r_ImportedName_plus(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok is Import && r_ImportedName_plus(s1, hi) && doc_ImportedName_plus(t, s1, hi))
        || (exists|e0: int, s2: int| #![trigger r_ImportDeclarations(lo, e0), r_ImportedName(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok is Import && r_ImportDeclarations(lo, e0) && r_ImportedName(s2, hi) && doc_ImportDeclarations(t, lo, e0) && doc_ImportedName(t, s2, hi))
    )
}
spec fn doc_ImportDeclarations_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 6nat
{ lo < hi && ((r_ImportDeclarations(lo, hi) && doc_ImportDeclarations(t, lo, hi)) || exists|m: int| #![trigger r_ImportDeclarations_plus(lo, m), r_ImportDeclarations(m, hi)] lo < m < hi && r_ImportDeclarations_plus(lo, m) && r_ImportDeclarations(m, hi) && doc_ImportDeclarations_plus(t, lo, m) && doc_ImportDeclarations(t, m, hi)) }
spec fn r_MetaIdentifier(lo: int, hi: int) -> bool { true }
spec fn r_MetaIdentifier_plus(lo: int, hi: int) -> bool { true }
spec fn doc_MetaIdentifier(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    0 <= lo < hi <= t.len() && (
        (lo < hi && r_TypeNameIdentifier(lo, hi) && doc_TypeNameIdentifier(t, lo, hi))
        || (exists|e0: int, s2: int| #![trigger r_TypeNameIdentifier(lo, e0), r_TypeNameIdentifier(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok is Dot && r_TypeNameIdentifier(lo, e0) && r_TypeNameIdentifier(s2, hi) && doc_TypeNameIdentifier(t, lo, e0) && doc_TypeNameIdentifier(t, s2, hi))
        || (exists|e0: int, s2: int| #![trigger r_HexNumber(lo, e0), r_TypeNameIdentifier(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok is Dot && r_HexNumber(lo, e0) && r_TypeNameIdentifier(s2, hi) && doc_HexNumber(t, lo, e0) && doc_TypeNameIdentifier(t, s2, hi))
        || (hi == lo + 1 && t[lo].tok is ByStr)
    )
}
spec fn doc_MetaIdentifier_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{ lo < hi && ((r_MetaIdentifier(lo, hi) && doc_MetaIdentifier(t, lo, hi)) || exists|m: int| #![trigger r_MetaIdentifier_plus(lo, m), r_MetaIdentifier(m, hi)] lo < m < hi && r_MetaIdentifier_plus(lo, m) && r_MetaIdentifier(m, hi) && doc_MetaIdentifier_plus(t, lo, m) && doc_MetaIdentifier(t, m, hi)) }
spec fn r_VariableIdentifier(lo: int, hi: int) -> bool { true }
spec fn r_VariableIdentifier_plus(lo: int, hi: int) -> bool { true }
spec fn doc_VariableIdentifier(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{
    0 <= lo < hi <= t.len() && (
        (lo < hi && r_RegularId(lo, hi) && doc_RegularId(t, lo, hi))
        || (lo < hi && r_SpecialId(lo, hi) && doc_SpecialId(t, lo, hi))
        || (exists|e0: int, s2: int| #![trigger r_TypeNameIdentifier(lo, e0), r_RegularId(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok is Dot && r_TypeNameIdentifier(lo, e0) && r_RegularId(s2, hi) && doc_TypeNameIdentifier(t, lo, e0) && doc_RegularId(t, s2, hi))
    )
}
spec fn doc_VariableIdentifier_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{ lo < hi && ((r_VariableIdentifier(lo, hi) && doc_VariableIdentifier(t, lo, hi)) || exists|m: int| #![trigger r_VariableIdentifier_plus(lo, m), r_VariableIdentifier(m, hi)] lo < m < hi && r_VariableIdentifier_plus(lo, m) && r_VariableIdentifier(m, hi) && doc_VariableIdentifier_plus(t, lo, m) && doc_VariableIdentifier(t, m, hi)) }
spec fn r_BuiltinArguments(lo: int, hi: int) -> bool { true }
spec fn r_BuiltinArguments_plus(lo: int, hi: int) -> bool { true }
spec fn doc_BuiltinArguments(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{
    0 <= lo < hi <= t.len() && (
        (lo < hi && r_VariableIdentifier_plus(lo, hi) && doc_VariableIdentifier_plus(t, lo, hi))
        || (hi == lo + 2 && t[lo].tok is OpenParen && t[lo + 1].tok is CloseParen)
    )
}
spec fn doc_BuiltinArguments_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 5nat
{ lo < hi && ((r_BuiltinArguments(lo, hi) && doc_BuiltinArguments(t, lo, hi)) || exists|m: int| #![trigger r_BuiltinArguments_plus(lo, m), r_BuiltinArguments(m, hi)] lo < m < hi && r_BuiltinArguments_plus(lo, m) && r_BuiltinArguments(m, hi) && doc_BuiltinArguments_plus(t, lo, m) && doc_BuiltinArguments(t, m, hi)) }
spec fn r_RemainingTypes(lo: int, hi: int) -> bool { true }
spec fn r_RemainingTypes_plus(lo: int, hi: int) -> bool { true }
spec fn doc_RemainingTypes(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{
    0 <= lo < hi <= t.len() && (
        (lo < hi && r_MetaIdentifier(lo, hi) && doc_MetaIdentifier(t, lo, hi))
        || (exists|e0: int| #![trigger r_MetaIdentifier(lo, e0), r_TypeArgument_plus(e0, hi)] lo < e0 && e0 < hi && lo <= e0 <= hi && r_MetaIdentifier(lo, e0) && r_TypeArgument_plus(e0, hi) && doc_MetaIdentifier(t, lo, e0) && doc_TypeArgument_plus(t, e0, hi))
        || (exists|s1: int, e1: int| #![trigger r_TypeMapKey(s1, e1), r_TypeMapValue(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 < hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok is Map && r_TypeMapKey(s1, e1) && r_TypeMapValue(e1, hi) && doc_TypeMapKey(t, s1, e1) && doc_TypeMapValue(t, e1, hi))
        || (exists|s1: int, e1: int| #![trigger r_ScillaType(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok is OpenParen && t[e1].tok is CloseParen && r_ScillaType(s1, e1) && doc_ScillaType(t, s1, e1))
        || (lo < hi && r_AddressType(lo, hi) && doc_AddressType(t, lo, hi))
        || (exists|s1: int, e1: int, s3: int| #![trigger r_TemplateTypeId(s1, e1), r_RemainingTypes(s3, hi)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && t[lo].tok is Forall && t[e1].tok is Dot && r_TemplateTypeId(s1, e1) && r_RemainingTypes(s3, hi) && doc_TemplateTypeId(t, s1, e1) && doc_RemainingTypes(t, s3, hi))
        || (lo < hi && r_TemplateTypeId(lo, hi) && doc_TemplateTypeId(t, lo, hi))
    )
}
spec fn doc_RemainingTypes_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{ lo < hi && ((r_RemainingTypes(lo, hi) && doc_RemainingTypes(t, lo, hi)) || exists|m: int| #![trigger r_RemainingTypes_plus(lo, m), r_RemainingTypes(m, hi)] lo < m < hi && r_RemainingTypes_plus(lo, m) && r_RemainingTypes(m, hi) && doc_RemainingTypes_plus(t, lo, m) && doc_RemainingTypes(t, m, hi)) }
spec fn r_FunctionSignature(lo: int, hi: int) -> bool { true }
spec fn r_FunctionSignature_plus(lo: int, hi: int) -> bool { true }
spec fn doc_FunctionSignature(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (exists|e0: int, s2: int| #![trigger r_RemainingTypes(lo, e0), r_FunctionSignature(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok is Arrow && r_RemainingTypes(lo, e0) && r_FunctionSignature(s2, hi) && doc_RemainingTypes(t, lo, e0) && doc_FunctionSignature(t, s2, hi))
        || (exists|e0: int, s2: int| #![trigger r_RemainingTypes(lo, e0), r_RemainingTypes(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok is Arrow && r_RemainingTypes(lo, e0) && r_RemainingTypes(s2, hi) && doc_RemainingTypes(t, lo, e0) && doc_RemainingTypes(t, s2, hi))
    )
}
spec fn doc_FunctionSignature_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_FunctionSignature(lo, hi) && doc_FunctionSignature(t, lo, hi)) || exists|m: int| #![trigger r_FunctionSignature_plus(lo, m), r_FunctionSignature(m, hi)] lo < m < hi && r_FunctionSignature_plus(lo, m) && r_FunctionSignature(m, hi) && doc_FunctionSignature_plus(t, lo, m) && doc_FunctionSignature(t, m, hi)) }
spec fn r_ScillaType(lo: int, hi: int) -> bool { true }
spec fn r_ScillaType_plus(lo: int, hi: int) -> bool { true }
spec fn doc_ScillaType(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{
    0 <= lo < hi <= t.len() && (
        (lo < hi && r_FunctionSignature(lo, hi) && doc_FunctionSignature(t, lo, hi))
        || (lo < hi && r_RemainingTypes(lo, hi) && doc_RemainingTypes(t, lo, hi))
    )
}
spec fn doc_ScillaType_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 5nat
{ lo < hi && ((r_ScillaType(lo, hi) && doc_ScillaType(t, lo, hi)) || exists|m: int| #![trigger r_ScillaType_plus(lo, m), r_ScillaType(m, hi)] lo < m < hi && r_ScillaType_plus(lo, m) && r_ScillaType(m, hi) && doc_ScillaType_plus(t, lo, m) && doc_ScillaType(t, m, hi)) }
spec fn r_TypeArgument(lo: int, hi: int) -> bool { true }
spec fn r_TypeArgument_plus(lo: int, hi: int) -> bool { true }
spec fn doc_TypeArgument(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{
    0 <= lo < hi <= t.len() && (
        (exists|s1: int, e1: int| #![trigger r_ScillaType(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok is OpenParen && t[e1].tok is CloseParen && r_ScillaType(s1, e1) && doc_ScillaType(t, s1, e1))
        || (lo < hi && r_MetaIdentifier(lo, hi) && doc_MetaIdentifier(t, lo, hi))
        || (lo < hi && r_TemplateTypeId(lo, hi) && doc_TemplateTypeId(t, lo, hi))
        || (lo < hi && r_AddressType(lo, hi) && doc_AddressType(t, lo, hi))
        || (exists|s1: int, e1: int| #![trigger r_TypeMapKey(s1, e1), r_TypeMapValue(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 < hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok is Map && r_TypeMapKey(s1, e1) && r_TypeMapValue(e1, hi) && doc_TypeMapKey(t, s1, e1) && doc_TypeMapValue(t, e1, hi))
    )
}
spec fn doc_TypeArgument_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{ lo < hi && ((r_TypeArgument(lo, hi) && doc_TypeArgument(t, lo, hi)) || exists|m: int| #![trigger r_TypeArgument_plus(lo, m), r_TypeArgument(m, hi)] lo < m < hi && r_TypeArgument_plus(lo, m) && r_TypeArgument(m, hi) && doc_TypeArgument_plus(t, lo, m) && doc_TypeArgument(t, m, hi)) }
spec fn r_AddressType(lo: int, hi: int) -> bool { true }
spec fn r_AddressType_plus(lo: int, hi: int) -> bool { true }
spec fn doc_AddressType(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (exists|e0: int| #![trigger r_TypeNameIdentifier(lo, e0)] lo < e0 && hi == e0 + 2 && lo <= e0 <= hi && t[e0].tok is With && t[e0 + 1].tok is End && r_TypeNameIdentifier(lo, e0) && doc_TypeNameIdentifier(t, lo, e0))
        || (exists|e0: int| #![trigger r_TypeNameIdentifier(lo, e0)] lo < e0 && hi == e0 + 3 && lo <= e0 <= hi && t[e0].tok is With && t[e0 + 1].tok is Contract && t[e0 + 2].tok is End && r_TypeNameIdentifier(lo, e0) && doc_TypeNameIdentifier(t, lo, e0))
        || (exists|e0: int, s3: int, e3: int| #![trigger r_TypeNameIdentifier(lo, e0), r_AddressTypeFieldList(s3, e3)] lo < e0 && s3 == e0 + 2 && s3 < e3 && hi == e3 + 1 && lo <= e0 <= hi && lo <= s3 <= hi && lo <= e3 <= hi && t[e0].tok is With && t[e0 + 1].tok is Contract && t[e3].tok is End && r_TypeNameIdentifier(lo, e0) && r_AddressTypeFieldList(s3, e3) && doc_TypeNameIdentifier(t, lo, e0) && doc_AddressTypeFieldList(t, s3, e3))
        || (exists|e0: int| #![trigger r_TypeNameIdentifier(lo, e0)] lo < e0 && hi == e0 + 3 && lo <= e0 <= hi && t[e0].tok is With && t[e0 + 1].tok is Library && t[e0 + 2].tok is End && r_TypeNameIdentifier(lo, e0) && doc_TypeNameIdentifier(t, lo, e0))
        || (exists|e0: int, s2: int, e2: int| #![trigger r_TypeNameIdentifier(lo, e0), r_SpecialId(s2, e2)] lo < e0 && s2 == e0 + 1 && s2 < e2 && hi == e2 + 1 && lo <= e0 <= hi && lo <= s2 <= hi && lo <= e2 <= hi && t[e0].tok is With && t[e2].tok is End && r_TypeNameIdentifier(lo, e0) && r_SpecialId(s2, e2) && doc_TypeNameIdentifier(t, lo, e0) && doc_SpecialId(t, s2, e2))
    )
}
spec fn doc_AddressType_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_AddressType(lo, hi) && doc_AddressType(t, lo, hi)) || exists|m: int| #![trigger r_AddressType_plus(lo, m), r_AddressType(m, hi)] lo < m < hi && r_AddressType_plus(lo, m) && r_AddressType(m, hi) && doc_AddressType_plus(t, lo, m) && doc_AddressType(t, m, hi)) }
spec fn r_AddressTypeFieldList(lo: int, hi: int) -> bool { true }
spec fn r_AddressTypeFieldList_plus(lo: int, hi: int) -> bool { true }
spec fn doc_AddressTypeFieldList(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{
    0 <= lo < hi <= t.len() && (
        (lo < hi && r_AddressTypeField(lo, hi) && doc_AddressTypeField(t, lo, hi))
        || (exists|e0: int| #![trigger r_AddressTypeField(lo, e0), r_NextAddressTypeField_plus(e0, hi)] lo < e0 && e0 < hi && lo <= e0 <= hi && r_AddressTypeField(lo, e0) && r_NextAddressTypeField_plus(e0, hi) && doc_AddressTypeField(t, lo, e0) && doc_NextAddressTypeField_plus(t, e0, hi))
    )
}
spec fn doc_AddressTypeFieldList_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{ lo < hi && ((r_AddressTypeFieldList(lo, hi) && doc_AddressTypeFieldList(t, lo, hi)) || exists|m: int| #![trigger r_AddressTypeFieldList_plus(lo, m), r_AddressTypeFieldList(m, hi)] lo < m < hi && r_AddressTypeFieldList_plus(lo, m) && r_AddressTypeFieldList(m, hi) && doc_AddressTypeFieldList_plus(t, lo, m) && doc_AddressTypeFieldList(t, m, hi)) }
spec fn r_NextAddressTypeField(lo: int, hi: int) -> bool { true }
spec fn r_NextAddressTypeField_plus(lo: int, hi: int) -> bool { true }
spec fn doc_NextAddressTypeField(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (exists|s1: int| #![trigger r_AddressTypeField(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok is Comma && r_AddressTypeField(s1, hi) && doc_AddressTypeField(t, s1, hi))
    )
}
spec fn doc_NextAddressTypeField_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_NextAddressTypeField(lo, hi) && doc_NextAddressTypeField(t, lo, hi)) || exists|m: int| #![trigger r_NextAddressTypeField_plus(lo, m), r_NextAddressTypeField(m, hi)] lo < m < hi && r_NextAddressTypeField_plus(lo, m) && r_NextAddressTypeField(m, hi) && doc_NextAddressTypeField_plus(t, lo, m) && doc_NextAddressTypeField(t, m, hi)) }
spec fn r_AddressTypeField(lo: int, hi: int) -> bool { true }
spec fn r_AddressTypeField_plus(lo: int, hi: int) -> bool { true }
spec fn doc_AddressTypeField(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (exists|s1: int, e1: int, s3: int| #![trigger r_VariableIdentifier(s1, e1), r_ScillaType(s3, hi)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && t[lo].tok is Field && t[e1].tok is Colon && r_VariableIdentifier(s1, e1) && r_ScillaType(s3, hi) && doc_VariableIdentifier(t, s1, e1) && doc_ScillaType(t, s3, hi))
    )
}
spec fn doc_AddressTypeField_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_AddressTypeField(lo, hi) && doc_AddressTypeField(t, lo, hi)) || exists|m: int| #![trigger r_AddressTypeField_plus(lo, m), r_AddressTypeField(m, hi)] lo < m < hi && r_AddressTypeField_plus(lo, m) && r_AddressTypeField(m, hi) && doc_AddressTypeField_plus(t, lo, m) && doc_AddressTypeField(t, m, hi)) }
spec fn r_TypeMapKey(lo: int, hi: int) -> bool { true }
spec fn r_TypeMapKey_plus(lo: int, hi: int) -> bool { true }
spec fn doc_TypeMapKey(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{
    0 <= lo < hi <= t.len() && (
        (lo < hi && r_MetaIdentifier(lo, hi) && doc_MetaIdentifier(t, lo, hi))
        || (exists|s1: int, e1: int| #![trigger r_MetaIdentifier(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok is OpenParen && t[e1].tok is CloseParen && r_MetaIdentifier(s1, e1) && doc_MetaIdentifier(t, s1, e1))
        || (exists|s1: int, e1: int| #![trigger r_AddressType(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok is OpenParen && t[e1].tok is CloseParen && r_AddressType(s1, e1) && doc_AddressType(t, s1, e1))
        || (lo < hi && r_AddressType(lo, hi) && doc_AddressType(t, lo, hi))
    )
}
spec fn doc_TypeMapKey_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{ lo < hi && ((r_TypeMapKey(lo, hi) && doc_TypeMapKey(t, lo, hi)) || exists|m: int| #![trigger r_TypeMapKey_plus(lo, m), r_TypeMapKey(m, hi)] lo < m < hi && r_TypeMapKey_plus(lo, m) && r_TypeMapKey(m, hi) && doc_TypeMapKey_plus(t, lo, m) && doc_TypeMapKey(t, m, hi)) }
spec fn r_TypeMapValue(lo: int, hi: int) -> bool { true }
spec fn r_TypeMapValue_plus(lo: int, hi: int) -> bool { true }
spec fn doc_TypeMapValue(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{
    0 <= lo < hi <= t.len() && (
        (lo < hi && r_MetaIdentifier(lo, hi) && doc_MetaIdentifier(t, lo, hi))
        || (exists|s1: int, e1: int| #![trigger r_TypeMapKey(s1, e1), r_TypeMapValue(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 < hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok is Map && r_TypeMapKey(s1, e1) && r_TypeMapValue(e1, hi) && doc_TypeMapKey(t, s1, e1) && doc_TypeMapValue(t, e1, hi))
        || (exists|s1: int, e1: int| #![trigger r_TypeMapValueAllowingTypeArguments(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok is OpenParen && t[e1].tok is CloseParen && r_TypeMapValueAllowingTypeArguments(s1, e1) && doc_TypeMapValueAllowingTypeArguments(t, s1, e1))
        || (lo < hi && r_AddressType(lo, hi) && doc_AddressType(t, lo, hi))
    )
}
spec fn doc_TypeMapValue_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{ lo < hi && ((r_TypeMapValue(lo, hi) && doc_TypeMapValue(t, lo, hi)) || exists|m: int| #![trigger r_TypeMapValue_plus(lo, m), r_TypeMapValue(m, hi)] lo < m < hi && r_TypeMapValue_plus(lo, m) && r_TypeMapValue(m, hi) && doc_TypeMapValue_plus(t, lo, m) && doc_TypeMapValue(t, m, hi)) }
spec fn r_TypeMapValueArguments(lo: int, hi: int) -> bool { true }
spec fn r_TypeMapValueArguments_plus(lo: int, hi: int) -> bool { true }
spec fn doc_TypeMapValueArguments(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{
    0 <= lo < hi <= t.len() && (
        (exists|s1: int, e1: int| #![trigger r_TypeMapValueAllowingTypeArguments(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok is OpenParen && t[e1].tok is CloseParen && r_TypeMapValueAllowingTypeArguments(s1, e1) && doc_TypeMapValueAllowingTypeArguments(t, s1, e1))
        || (lo < hi && r_MetaIdentifier(lo, hi) && doc_MetaIdentifier(t, lo, hi))
        || (exists|s1: int, e1: int| #![trigger r_TypeMapKey(s1, e1), r_TypeMapValue(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 < hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok is Map && r_TypeMapKey(s1, e1) && r_TypeMapValue(e1, hi) && doc_TypeMapKey(t, s1, e1) && doc_TypeMapValue(t, e1, hi))
    )
}
spec fn doc_TypeMapValueArguments_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{ lo < hi && ((r_TypeMapValueArguments(lo, hi) && doc_TypeMapValueArguments(t, lo, hi)) || exists|m: int| #![trigger r_TypeMapValueArguments_plus(lo, m), r_TypeMapValueArguments(m, hi)] lo < m < hi && r_TypeMapValueArguments_plus(lo, m) && r_TypeMapValueArguments(m, hi) && doc_TypeMapValueArguments_plus(t, lo, m) && doc_TypeMapValueArguments(t, m, hi)) }
spec fn r_TypeMapValueAllowingTypeArguments(lo: int, hi: int) -> bool { true }
spec fn r_TypeMapValueAllowingTypeArguments_plus(lo: int, hi: int) -> bool { true }
spec fn doc_TypeMapValueAllowingTypeArguments(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{
    0 <= lo < hi <= t.len() && (
        (exists|e0: int| #![trigger r_MetaIdentifier(lo, e0), r_TypeMapValueArguments_plus(e0, hi)] lo < e0 && e0 < hi && lo <= e0 <= hi && r_MetaIdentifier(lo, e0) && r_TypeMapValueArguments_plus(e0, hi) && doc_MetaIdentifier(t, lo, e0) && doc_TypeMapValueArguments_plus(t, e0, hi))
        || (lo < hi && r_TypeMapValue(lo, hi) && doc_TypeMapValue(t, lo, hi))
    )
}
spec fn doc_TypeMapValueAllowingTypeArguments_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 5nat
{ lo < hi && ((r_TypeMapValueAllowingTypeArguments(lo, hi) && doc_TypeMapValueAllowingTypeArguments(t, lo, hi)) || exists|m: int| #![trigger r_TypeMapValueAllowingTypeArguments_plus(lo, m), r_TypeMapValueAllowingTypeArguments(m, hi)] lo < m < hi && r_TypeMapValueAllowingTypeArguments_plus(lo, m) && r_TypeMapValueAllowingTypeArguments(m, hi) && doc_TypeMapValueAllowingTypeArguments_plus(t, lo, m) && doc_TypeMapValueAllowingTypeArguments(t, m, hi)) }
spec fn r_Program(lo: int, hi: int) -> bool { true }
spec fn r_Program_plus(lo: int, hi: int) -> bool { true }
spec fn doc_Program(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (exists|s1: int, e1: int| #![trigger r_SignedInteger(s1, e1), r_ContractDefinition(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 < hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok is ScillaVersion && r_SignedInteger(s1, e1) && r_ContractDefinition(e1, hi) && doc_SignedInteger(t, s1, e1) && doc_ContractDefinition(t, e1, hi))
        || (exists|s1: int, e1: int, e2: int| #![trigger r_SignedInteger(s1, e1), r_LibraryDefinition(e1, e2), r_ContractDefinition(e2, hi)] s1 == lo + 1 && s1 < e1 && e1 < e2 && e2 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && t[lo].tok is ScillaVersion && r_SignedInteger(s1, e1) && r_LibraryDefinition(e1, e2) && r_ContractDefinition(e2, hi) && doc_SignedInteger(t, s1, e1) && doc_LibraryDefinition(t, e1, e2) && doc_ContractDefinition(t, e2, hi))
        || (exists|s1: int, e1: int, e2: int| #![trigger r_SignedInteger(s1, e1), r_ImportDeclarations(e1, e2), r_ContractDefinition(e2, hi)] s1 == lo + 1 && s1 < e1 && e1 < e2 && e2 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && t[lo].tok is ScillaVersion && r_SignedInteger(s1, e1) && r_ImportDeclarations(e1, e2) && r_ContractDefinition(e2, hi) && doc_SignedInteger(t, s1, e1) && doc_ImportDeclarations(t, e1, e2) && doc_ContractDefinition(t, e2, hi))
        || (exists|s1: int, e1: int, e2: int, e3: int| #![trigger r_SignedInteger(s1, e1), r_ImportDeclarations(e1, e2), r_LibraryDefinition(e2, e3), r_ContractDefinition(e3, hi)] s1 == lo + 1 && s1 < e1 && e1 < e2 && e2 < e3 && e3 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && lo <= e3 <= hi && t[lo].tok is ScillaVersion && r_SignedInteger(s1, e1) && r_ImportDeclarations(e1, e2) && r_LibraryDefinition(e2, e3) && r_ContractDefinition(e3, hi) && doc_SignedInteger(t, s1, e1) && doc_ImportDeclarations(t, e1, e2) && doc_LibraryDefinition(t, e2, e3) && doc_ContractDefinition(t, e3, hi))
    )
}
spec fn doc_Program_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_Program(lo, hi) && doc_Program(t, lo, hi)) || exists|m: int| #![trigger r_Program_plus(lo, m), r_Program(m, hi)] lo < m < hi && r_Program_plus(lo, m) && r_Program(m, hi) && doc_Program_plus(t, lo, m) && doc_Program(t, m, hi)) }
spec fn r_LibraryDefinition(lo: int, hi: int) -> bool { true }
spec fn r_LibraryDefinition_plus(lo: int, hi: int) -> bool { true }
spec fn doc_LibraryDefinition(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (exists|s1: int| #![trigger r_TypeNameIdentifier(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok is Library && r_TypeNameIdentifier(s1, hi) && doc_TypeNameIdentifier(t, s1, hi))
        || (exists|s1: int, e1: int| #![trigger r_TypeNameIdentifier(s1, e1), r_LibrarySingleDefinition_plus(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 < hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok is Library && r_TypeNameIdentifier(s1, e1) && r_LibrarySingleDefinition_plus(e1, hi) && doc_TypeNameIdentifier(t, s1, e1) && doc_LibrarySingleDefinition_plus(t, e1, hi))
    )
}
spec fn doc_LibraryDefinition_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_LibraryDefinition(lo, hi) && doc_LibraryDefinition(t, lo, hi)) || exists|m: int| #![trigger r_LibraryDefinition_plus(lo, m), r_LibraryDefinition(m, hi)] lo < m < hi && r_LibraryDefinition_plus(lo, m) && r_LibraryDefinition(m, hi) && doc_LibraryDefinition_plus(t, lo, m) && doc_LibraryDefinition(t, m, hi)) }
spec fn r_LibrarySingleDefinition(lo: int, hi: int) -> bool { true }
spec fn r_LibrarySingleDefinition_plus(lo: int, hi: int) -> bool { true }
spec fn doc_LibrarySingleDefinition(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (exists|s1: int, e1: int, s3: int| #![trigger r_RegularId(s1, e1), r_FullExpression(s3, hi)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && t[lo].tok is Let && t[e1].tok is Equals && r_RegularId(s1, e1) && r_FullExpression(s3, hi) && doc_RegularId(t, s1, e1) && doc_FullExpression(t, s3, hi))
        || (exists|s1: int, e1: int, e2: int, s4: int| #![trigger r_RegularId(s1, e1), r_TypeAnnotation(e1, e2), r_FullExpression(s4, hi)] s1 == lo + 1 && s1 < e1 && e1 < e2 && s4 == e2 + 1 && s4 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && lo <= s4 <= hi && t[lo].tok is Let && t[e2].tok is Equals && r_RegularId(s1, e1) && r_TypeAnnotation(e1, e2) && r_FullExpression(s4, hi) && doc_RegularId(t, s1, e1) && doc_TypeAnnotation(t, e1, e2) && doc_FullExpression(t, s4, hi))
        || (exists|s1: int| #![trigger r_TypeNameIdentifier(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok is Type && r_TypeNameIdentifier(s1, hi) && doc_TypeNameIdentifier(t, s1, hi))
        || (exists|s1: int, e1: int, s3: int| #![trigger r_TypeNameIdentifier(s1, e1), r_TypeAlternativeClause_plus(s3, hi)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && t[lo].tok is Type && t[e1].tok is Equals && r_TypeNameIdentifier(s1, e1) && r_TypeAlternativeClause_plus(s3, hi) && doc_TypeNameIdentifier(t, s1, e1) && doc_TypeAlternativeClause_plus(t, s3, hi))
    )
}
spec fn doc_LibrarySingleDefinition_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_LibrarySingleDefinition(lo, hi) && doc_LibrarySingleDefinition(t, lo, hi)) || exists|m: int| #![trigger r_LibrarySingleDefinition_plus(lo, m), r_LibrarySingleDefinition(m, hi)] lo < m < hi && r_LibrarySingleDefinition_plus(lo, m) && r_LibrarySingleDefinition(m, hi) && doc_LibrarySingleDefinition_plus(t, lo, m) && doc_LibrarySingleDefinition(t, m, hi)) }
spec fn r_TypedIdentifier(lo: int, hi: int) -> bool { true }
spec fn r_TypedIdentifier_plus(lo: int, hi: int) -> bool { true }
spec fn doc_TypedIdentifier(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (exists|e0: int| #![trigger r_RegularId(lo, e0), r_TypeAnnotation(e0, hi)] lo < e0 && e0 < hi && lo <= e0 <= hi && r_RegularId(lo, e0) && r_TypeAnnotation(e0, hi) && doc_RegularId(t, lo, e0) && doc_TypeAnnotation(t, e0, hi))
    )
}
spec fn doc_TypedIdentifier_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_TypedIdentifier(lo, hi) && doc_TypedIdentifier(t, lo, hi)) || exists|m: int| #![trigger r_TypedIdentifier_plus(lo, m), r_TypedIdentifier(m, hi)] lo < m < hi && r_TypedIdentifier_plus(lo, m) && r_TypedIdentifier(m, hi) && doc_TypedIdentifier_plus(t, lo, m) && doc_TypedIdentifier(t, m, hi)) }
spec fn r_TypeAnnotation(lo: int, hi: int) -> bool { true }
spec fn r_TypeAnnotation_plus(lo: int, hi: int) -> bool { true }
spec fn doc_TypeAnnotation(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (exists|s1: int| #![trigger r_ScillaType(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok is Colon && r_ScillaType(s1, hi) && doc_ScillaType(t, s1, hi))
    )
}
spec fn doc_TypeAnnotation_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_TypeAnnotation(lo, hi) && doc_TypeAnnotation(t, lo, hi)) || exists|m: int| #![trigger r_TypeAnnotation_plus(lo, m), r_TypeAnnotation(m, hi)] lo < m < hi && r_TypeAnnotation_plus(lo, m) && r_TypeAnnotation(m, hi) && doc_TypeAnnotation_plus(t, lo, m) && doc_TypeAnnotation(t, m, hi)) }
spec fn r_TypeAlternativeClause(lo: int, hi: int) -> bool { true }
spec fn r_TypeAlternativeClause_plus(lo: int, hi: int) -> bool { true }
spec fn doc_TypeAlternativeClause(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (exists|s1: int| #![trigger r_TypeNameIdentifier(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok is Pipe && r_TypeNameIdentifier(s1, hi) && doc_TypeNameIdentifier(t, s1, hi))
        || (exists|s1: int, e1: int, s3: int| #![trigger r_TypeNameIdentifier(s1, e1), r_TypeArgument_plus(s3, hi)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && t[lo].tok is Pipe && t[e1].tok is Of && r_TypeNameIdentifier(s1, e1) && r_TypeArgument_plus(s3, hi) && doc_TypeNameIdentifier(t, s1, e1) && doc_TypeArgument_plus(t, s3, hi))
    )
}
spec fn doc_TypeAlternativeClause_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_TypeAlternativeClause(lo, hi) && doc_TypeAlternativeClause(t, lo, hi)) || exists|m: int| #![trigger r_TypeAlternativeClause_plus(lo, m), r_TypeAlternativeClause(m, hi)] lo < m < hi && r_TypeAlternativeClause_plus(lo, m) && r_TypeAlternativeClause(m, hi) && doc_TypeAlternativeClause_plus(t, lo, m) && doc_TypeAlternativeClause(t, m, hi)) }
spec fn r_ContractTypeArguments(lo: int, hi: int) -> bool { true }
spec fn r_ContractTypeArguments_plus(lo: int, hi: int) -> bool { true }
spec fn doc_ContractTypeArguments(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (hi == lo + 2 && t[lo].tok is OpenBrace && t[lo + 1].tok is CloseBrace)
        || (exists|s1: int, e1: int| #![trigger r_TypeArgument_plus(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok is OpenBrace && t[e1].tok is CloseBrace && r_TypeArgument_plus(s1, e1) && doc_TypeArgument_plus(t, s1, e1))
    )
}
spec fn doc_ContractTypeArguments_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_ContractTypeArguments(lo, hi) && doc_ContractTypeArguments(t, lo, hi)) || exists|m: int| #![trigger r_ContractTypeArguments_plus(lo, m), r_ContractTypeArguments(m, hi)] lo < m < hi && r_ContractTypeArguments_plus(lo, m) && r_ContractTypeArguments(m, hi) && doc_ContractTypeArguments_plus(t, lo, m) && doc_ContractTypeArguments(t, m, hi)) }
spec fn r_FullExpression(lo: int, hi: int) -> bool { true }
spec fn r_FullExpression_plus(lo: int, hi: int) -> bool { true }
spec fn doc_FullExpression(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{
    0 <= lo < hi <= t.len() && (
        (exists|s1: int, e1: int, s3: int, e3: int, s5: int| #![trigger r_RegularId(s1, e1), r_FullExpression(s3, e3), r_FullExpression(s5, hi)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < e3 && s5 == e3 + 1 && s5 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && lo <= e3 <= hi && lo <= s5 <= hi && t[lo].tok is Let && t[e1].tok is Equals && t[e3].tok is In && r_RegularId(s1, e1) && r_FullExpression(s3, e3) && r_FullExpression(s5, hi) && doc_RegularId(t, s1, e1) && doc_FullExpression(t, s3, e3) && doc_FullExpression(t, s5, hi))
        || (exists|s1: int, e1: int, e2: int, s4: int, e4: int, s6: int| #![trigger r_RegularId(s1, e1), r_TypeAnnotation(e1, e2), r_FullExpression(s4, e4), r_FullExpression(s6, hi)] s1 == lo + 1 && s1 < e1 && e1 < e2 && s4 == e2 + 1 && s4 < e4 && s6 == e4 + 1 && s6 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && lo <= s4 <= hi && lo <= e4 <= hi && lo <= s6 <= hi && t[lo].tok is Let && t[e2].tok is Equals && t[e4].tok is In && r_RegularId(s1, e1) && r_TypeAnnotation(e1, e2) && r_FullExpression(s4, e4) && r_FullExpression(s6, hi) && doc_RegularId(t, s1, e1) && doc_TypeAnnotation(t, e1, e2) && doc_FullExpression(t, s4, e4) && doc_FullExpression(t, s6, hi))
        || (exists|s2: int, e2: int, e3: int, s6: int| #![trigger r_RegularId(s2, e2), r_TypeAnnotation(e2, e3), r_FullExpression(s6, hi)] s2 == lo + 2 && s2 < e2 && e2 < e3 && s6 == e3 + 2 && s6 < hi && lo <= s2 <= hi && lo <= e2 <= hi && lo <= e3 <= hi && lo <= s6 <= hi && t[lo].tok is Fun && t[lo + 1].tok is OpenParen && t[e3].tok is CloseParen && t[e3 + 1].tok is DoubleArrow && r_RegularId(s2, e2) && r_TypeAnnotation(e2, e3) && r_FullExpression(s6, hi) && doc_RegularId(t, s2, e2) && doc_TypeAnnotation(t, e2, e3) && doc_FullExpression(t, s6, hi))
        || (exists|e0: int| #![trigger r_VariableIdentifier(lo, e0), r_VariableIdentifier_plus(e0, hi)] lo < e0 && e0 < hi && lo <= e0 <= hi && r_VariableIdentifier(lo, e0) && r_VariableIdentifier_plus(e0, hi) && doc_VariableIdentifier(t, lo, e0) && doc_VariableIdentifier_plus(t, e0, hi))
        || (lo < hi && r_AtomicExpression(lo, hi) && doc_AtomicExpression(t, lo, hi))
        || (exists|s1: int, e1: int| #![trigger r_RegularId(s1, e1), r_BuiltinArguments(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 < hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok is Builtin && r_RegularId(s1, e1) && r_BuiltinArguments(e1, hi) && doc_RegularId(t, s1, e1) && doc_BuiltinArguments(t, e1, hi))
        || (exists|s1: int, e1: int, e2: int| #![trigger r_RegularId(s1, e1), r_ContractTypeArguments(e1, e2), r_BuiltinArguments(e2, hi)] s1 == lo + 1 && s1 < e1 && e1 < e2 && e2 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && t[lo].tok is Builtin && r_RegularId(s1, e1) && r_ContractTypeArguments(e1, e2) && r_BuiltinArguments(e2, hi) && doc_RegularId(t, s1, e1) && doc_ContractTypeArguments(t, e1, e2) && doc_BuiltinArguments(t, e2, hi))
        || (exists|s1: int, e1: int| #![trigger r_MessageEntry(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok is OpenBrace && t[e1].tok is CloseBrace && r_MessageEntry(s1, e1) && doc_MessageEntry(t, s1, e1))
        || (exists|s1: int, e1: int, e2: int| #![trigger r_MessageEntry(s1, e1), r_NextMessageEntry_plus(e1, e2)] s1 == lo + 1 && s1 < e1 && e1 < e2 && hi == e2 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && t[lo].tok is OpenBrace && t[e2].tok is CloseBrace && r_MessageEntry(s1, e1) && r_NextMessageEntry_plus(e1, e2) && doc_MessageEntry(t, s1, e1) && doc_NextMessageEntry_plus(t, e1, e2))
        || (exists|s1: int, e1: int, s3: int, e3: int| #![trigger r_VariableIdentifier(s1, e1), r_PatternMatchExpressionClause_plus(s3, e3)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < e3 && hi == e3 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && lo <= e3 <= hi && t[lo].tok is Match && t[e1].tok is With && t[e3].tok is End && r_VariableIdentifier(s1, e1) && r_PatternMatchExpressionClause_plus(s3, e3) && doc_VariableIdentifier(t, s1, e1) && doc_PatternMatchExpressionClause_plus(t, s3, e3))
        || (lo < hi && r_MetaIdentifier(lo, hi) && doc_MetaIdentifier(t, lo, hi))
        || (exists|e0: int| #![trigger r_MetaIdentifier(lo, e0), r_VariableIdentifier_plus(e0, hi)] lo < e0 && e0 < hi && lo <= e0 <= hi && r_MetaIdentifier(lo, e0) && r_VariableIdentifier_plus(e0, hi) && doc_MetaIdentifier(t, lo, e0) && doc_VariableIdentifier_plus(t, e0, hi))
        || (exists|e0: int| #![trigger r_MetaIdentifier(lo, e0), r_ContractTypeArguments(e0, hi)] lo < e0 && e0 < hi && lo <= e0 <= hi && r_MetaIdentifier(lo, e0) && r_ContractTypeArguments(e0, hi) && doc_MetaIdentifier(t, lo, e0) && doc_ContractTypeArguments(t, e0, hi))
        || (exists|e0: int, e1: int| #![trigger r_MetaIdentifier(lo, e0), r_ContractTypeArguments(e0, e1), r_VariableIdentifier_plus(e1, hi)] lo < e0 && e0 < e1 && e1 < hi && lo <= e0 <= hi && lo <= e1 <= hi && r_MetaIdentifier(lo, e0) && r_ContractTypeArguments(e0, e1) && r_VariableIdentifier_plus(e1, hi) && doc_MetaIdentifier(t, lo, e0) && doc_ContractTypeArguments(t, e0, e1) && doc_VariableIdentifier_plus(t, e1, hi))
        || (exists|s1: int, e1: int, s3: int| #![trigger r_TemplateTypeId(s1, e1), r_FullExpression(s3, hi)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && t[lo].tok is Tfun && t[e1].tok is DoubleArrow && r_TemplateTypeId(s1, e1) && r_FullExpression(s3, hi) && doc_TemplateTypeId(t, s1, e1) && doc_FullExpression(t, s3, hi))
        || (exists|s1: int, e1: int| #![trigger r_VariableIdentifier(s1, e1), r_TypeArgument_plus(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 < hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok is At && r_VariableIdentifier(s1, e1) && r_TypeArgument_plus(e1, hi) && doc_VariableIdentifier(t, s1, e1) && doc_TypeArgument_plus(t, e1, hi))
    )
}
spec fn doc_FullExpression_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{ lo < hi && ((r_FullExpression(lo, hi) && doc_FullExpression(t, lo, hi)) || exists|m: int| #![trigger r_FullExpression_plus(lo, m), r_FullExpression(m, hi)] lo < m < hi && r_FullExpression_plus(lo, m) && r_FullExpression(m, hi) && doc_FullExpression_plus(t, lo, m) && doc_FullExpression(t, m, hi)) }
spec fn r_PatternMatchExpressionClause(lo: int, hi: int) -> bool { true }
spec fn r_PatternMatchExpressionClause_plus(lo: int, hi: int) -> bool { true }
spec fn doc_PatternMatchExpressionClause(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (exists|s1: int, e1: int, s3: int| #![trigger r_Pattern(s1, e1), r_FullExpression(s3, hi)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && t[lo].tok is Pipe && t[e1].tok is DoubleArrow && r_Pattern(s1, e1) && r_FullExpression(s3, hi) && doc_Pattern(t, s1, e1) && doc_FullExpression(t, s3, hi))
    )
}
spec fn doc_PatternMatchExpressionClause_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_PatternMatchExpressionClause(lo, hi) && doc_PatternMatchExpressionClause(t, lo, hi)) || exists|m: int| #![trigger r_PatternMatchExpressionClause_plus(lo, m), r_PatternMatchExpressionClause(m, hi)] lo < m < hi && r_PatternMatchExpressionClause_plus(lo, m) && r_PatternMatchExpressionClause(m, hi) && doc_PatternMatchExpressionClause_plus(t, lo, m) && doc_PatternMatchExpressionClause(t, m, hi)) }
spec fn r_Pattern(lo: int, hi: int) -> bool { true }
spec fn r_Pattern_plus(lo: int, hi: int) -> bool { true }
spec fn doc_Pattern(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{
    0 <= lo < hi <= t.len() && (
        (hi == lo + 1 && t[lo].tok is Underscore)
        || (lo < hi && r_RegularId(lo, hi) && doc_RegularId(t, lo, hi))
        || (lo < hi && r_MetaIdentifier(lo, hi) && doc_MetaIdentifier(t, lo, hi))
        || (exists|e0: int| #![trigger r_MetaIdentifier(lo, e0), r_ArgumentPattern_plus(e0, hi)] lo < e0 && e0 < hi && lo <= e0 <= hi && r_MetaIdentifier(lo, e0) && r_ArgumentPattern_plus(e0, hi) && doc_MetaIdentifier(t, lo, e0) && doc_ArgumentPattern_plus(t, e0, hi))
    )
}
spec fn doc_Pattern_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{ lo < hi && ((r_Pattern(lo, hi) && doc_Pattern(t, lo, hi)) || exists|m: int| #![trigger r_Pattern_plus(lo, m), r_Pattern(m, hi)] lo < m < hi && r_Pattern_plus(lo, m) && r_Pattern(m, hi) && doc_Pattern_plus(t, lo, m) && doc_Pattern(t, m, hi)) }
spec fn r_ArgumentPattern(lo: int, hi: int) -> bool { true }
spec fn r_ArgumentPattern_plus(lo: int, hi: int) -> bool { true }
spec fn doc_ArgumentPattern(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{
    0 <= lo < hi <= t.len() && (
        (hi == lo + 1 && t[lo].tok is Underscore)
        || (lo < hi && r_RegularId(lo, hi) && doc_RegularId(t, lo, hi))
        || (lo < hi && r_MetaIdentifier(lo, hi) && doc_MetaIdentifier(t, lo, hi))
        || (exists|s1: int, e1: int| #![trigger r_Pattern(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok is OpenParen && t[e1].tok is CloseParen && r_Pattern(s1, e1) && doc_Pattern(t, s1, e1))
    )
}
spec fn doc_ArgumentPattern_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{ lo < hi && ((r_ArgumentPattern(lo, hi) && doc_ArgumentPattern(t, lo, hi)) || exists|m: int| #![trigger r_ArgumentPattern_plus(lo, m), r_ArgumentPattern(m, hi)] lo < m < hi && r_ArgumentPattern_plus(lo, m) && r_ArgumentPattern(m, hi) && doc_ArgumentPattern_plus(t, lo, m) && doc_ArgumentPattern(t, m, hi)) }
spec fn r_NextMessageEntry(lo: int, hi: int) -> bool { true }
spec fn r_NextMessageEntry_plus(lo: int, hi: int) -> bool { true }
spec fn doc_NextMessageEntry(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (exists|s1: int| #![trigger r_MessageEntry(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok is Semicolon && r_MessageEntry(s1, hi) && doc_MessageEntry(t, s1, hi))
    )
}
spec fn doc_NextMessageEntry_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_NextMessageEntry(lo, hi) && doc_NextMessageEntry(t, lo, hi)) || exists|m: int| #![trigger r_NextMessageEntry_plus(lo, m), r_NextMessageEntry(m, hi)] lo < m < hi && r_NextMessageEntry_plus(lo, m) && r_NextMessageEntry(m, hi) && doc_NextMessageEntry_plus(t, lo, m) && doc_NextMessageEntry(t, m, hi)) }
spec fn r_MessageEntry(lo: int, hi: int) -> bool { true }
spec fn r_MessageEntry_plus(lo: int, hi: int) -> bool { true }
spec fn doc_MessageEntry(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (exists|e0: int, s2: int| #![trigger r_VariableIdentifier(lo, e0), r_ValueLiteral(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok is Colon && r_VariableIdentifier(lo, e0) && r_ValueLiteral(s2, hi) && doc_VariableIdentifier(t, lo, e0) && doc_ValueLiteral(t, s2, hi))
        || (exists|e0: int, s2: int| #![trigger r_VariableIdentifier(lo, e0), r_VariableIdentifier(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok is Colon && r_VariableIdentifier(lo, e0) && r_VariableIdentifier(s2, hi) && doc_VariableIdentifier(t, lo, e0) && doc_VariableIdentifier(t, s2, hi))
    )
}
spec fn doc_MessageEntry_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_MessageEntry(lo, hi) && doc_MessageEntry(t, lo, hi)) || exists|m: int| #![trigger r_MessageEntry_plus(lo, m), r_MessageEntry(m, hi)] lo < m < hi && r_MessageEntry_plus(lo, m) && r_MessageEntry(m, hi) && doc_MessageEntry_plus(t, lo, m) && doc_MessageEntry(t, m, hi)) }
spec fn r_AtomicExpression(lo: int, hi: int) -> bool { true }
spec fn r_AtomicExpression_plus(lo: int, hi: int) -> bool { true }
spec fn doc_AtomicExpression(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    0 <= lo < hi <= t.len() && (
        (lo < hi && r_VariableIdentifier(lo, hi) && doc_VariableIdentifier(t, lo, hi))
        || (lo < hi && r_ValueLiteral(lo, hi) && doc_ValueLiteral(t, lo, hi))
    )
}
spec fn doc_AtomicExpression_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{ lo < hi && ((r_AtomicExpression(lo, hi) && doc_AtomicExpression(t, lo, hi)) || exists|m: int| #![trigger r_AtomicExpression_plus(lo, m), r_AtomicExpression(m, hi)] lo < m < hi && r_AtomicExpression_plus(lo, m) && r_AtomicExpression(m, hi) && doc_AtomicExpression_plus(t, lo, m) && doc_AtomicExpression(t, m, hi)) }
spec fn r_ValueLiteral(lo: int, hi: int) -> bool { true }
spec fn r_ValueLiteral_plus(lo: int, hi: int) -> bool { true }
spec fn doc_ValueLiteral(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{
    0 <= lo < hi <= t.len() && (
        (exists|e0: int| #![trigger r_TypeNameIdentifier(lo, e0), r_SignedInteger(e0, hi)] lo < e0 && e0 < hi && lo <= e0 <= hi && r_TypeNameIdentifier(lo, e0) && r_SignedInteger(e0, hi) && doc_TypeNameIdentifier(t, lo, e0) && doc_SignedInteger(t, e0, hi))
        || (lo < hi && r_HexNumber(lo, hi) && doc_HexNumber(t, lo, hi))
        || (lo < hi && r_StringLiteral(lo, hi) && doc_StringLiteral(t, lo, hi))
        || (exists|s1: int, e1: int| #![trigger r_TypeMapKey(s1, e1), r_TypeMapValue(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 < hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok is Emp && r_TypeMapKey(s1, e1) && r_TypeMapValue(e1, hi) && doc_TypeMapKey(t, s1, e1) && doc_TypeMapValue(t, e1, hi))
    )
}
spec fn doc_ValueLiteral_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{ lo < hi && ((r_ValueLiteral(lo, hi) && doc_ValueLiteral(t, lo, hi)) || exists|m: int| #![trigger r_ValueLiteral_plus(lo, m), r_ValueLiteral(m, hi)] lo < m < hi && r_ValueLiteral_plus(lo, m) && r_ValueLiteral(m, hi) && doc_ValueLiteral_plus(t, lo, m) && doc_ValueLiteral(t, m, hi)) }
spec fn r_Statement(lo: int, hi: int) -> bool { true }
spec fn r_Statement_plus(lo: int, hi: int) -> bool { true }
spec fn doc_Statement(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{
    0 <= lo < hi <= t.len() && (
        (exists|e0: int, s2: int| #![trigger r_RegularId(lo, e0), r_VariableIdentifier(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok is LeftArrow && r_RegularId(lo, e0) && r_VariableIdentifier(s2, hi) && doc_RegularId(t, lo, e0) && doc_VariableIdentifier(t, s2, hi))
        || (lo < hi && r_RemoteFetchStatement(lo, hi) && doc_RemoteFetchStatement(t, lo, hi))
        || (exists|e0: int, s2: int| #![trigger r_RegularId(lo, e0), r_VariableIdentifier(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok is ColonEquals && r_RegularId(lo, e0) && r_VariableIdentifier(s2, hi) && doc_RegularId(t, lo, e0) && doc_VariableIdentifier(t, s2, hi))
        || (exists|e0: int, s2: int| #![trigger r_RegularId(lo, e0), r_FullExpression(s2, hi)] lo < e0 && s2 == e0 + 1 && s2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && t[e0].tok is Equals && r_RegularId(lo, e0) && r_FullExpression(s2, hi) && doc_RegularId(t, lo, e0) && doc_FullExpression(t, s2, hi))
        || (exists|e0: int, s3: int| #![trigger r_RegularId(lo, e0), r_TypeNameIdentifier(s3, hi)] lo < e0 && s3 == e0 + 2 && s3 < hi && lo <= e0 <= hi && lo <= s3 <= hi && t[e0].tok is LeftArrow && t[e0 + 1].tok is Ampersand && r_RegularId(lo, e0) && r_TypeNameIdentifier(s3, hi) && doc_RegularId(t, lo, e0) && doc_TypeNameIdentifier(t, s3, hi))
        || (exists|e0: int, s3: int, e3: int| #![trigger r_RegularId(lo, e0), r_TypeNameIdentifier(s3, e3), r_BlockchainFetchArguments(e3, hi)] lo < e0 && s3 == e0 + 2 && s3 < e3 && e3 < hi && lo <= e0 <= hi && lo <= s3 <= hi && lo <= e3 <= hi && t[e0].tok is LeftArrow && t[e0 + 1].tok is Ampersand && r_RegularId(lo, e0) && r_TypeNameIdentifier(s3, e3) && r_BlockchainFetchArguments(e3, hi) && doc_RegularId(t, lo, e0) && doc_TypeNameIdentifier(t, s3, e3) && doc_BlockchainFetchArguments(t, e3, hi))
        || (exists|e0: int, s2: int, e2: int| #![trigger r_RegularId(lo, e0), r_RegularId(s2, e2), r_MapAccess_plus(e2, hi)] lo < e0 && s2 == e0 + 1 && s2 < e2 && e2 < hi && lo <= e0 <= hi && lo <= s2 <= hi && lo <= e2 <= hi && t[e0].tok is LeftArrow && r_RegularId(lo, e0) && r_RegularId(s2, e2) && r_MapAccess_plus(e2, hi) && doc_RegularId(t, lo, e0) && doc_RegularId(t, s2, e2) && doc_MapAccess_plus(t, e2, hi))
        || (exists|e0: int, s3: int, e3: int| #![trigger r_RegularId(lo, e0), r_RegularId(s3, e3), r_MapAccess_plus(e3, hi)] lo < e0 && s3 == e0 + 2 && s3 < e3 && e3 < hi && lo <= e0 <= hi && lo <= s3 <= hi && lo <= e3 <= hi && t[e0].tok is LeftArrow && t[e0 + 1].tok is Exists && r_RegularId(lo, e0) && r_RegularId(s3, e3) && r_MapAccess_plus(e3, hi) && doc_RegularId(t, lo, e0) && doc_RegularId(t, s3, e3) && doc_MapAccess_plus(t, e3, hi))
        || (exists|e0: int, e1: int, s3: int| #![trigger r_RegularId(lo, e0), r_MapAccess_plus(e0, e1), r_VariableIdentifier(s3, hi)] lo < e0 && e0 < e1 && s3 == e1 + 1 && s3 < hi && lo <= e0 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && t[e1].tok is ColonEquals && r_RegularId(lo, e0) && r_MapAccess_plus(e0, e1) && r_VariableIdentifier(s3, hi) && doc_RegularId(t, lo, e0) && doc_MapAccess_plus(t, e0, e1) && doc_VariableIdentifier(t, s3, hi))
        || (exists|s1: int, e1: int| #![trigger r_RegularId(s1, e1), r_MapAccess_plus(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 < hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok is Delete && r_RegularId(s1, e1) && r_MapAccess_plus(e1, hi) && doc_RegularId(t, s1, e1) && doc_MapAccess_plus(t, e1, hi))
        || (hi == lo + 1 && t[lo].tok is Accept)
        || (exists|s1: int| #![trigger r_VariableIdentifier(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok is Send && r_VariableIdentifier(s1, hi) && doc_VariableIdentifier(t, s1, hi))
        || (exists|s1: int| #![trigger r_VariableIdentifier(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok is Event && r_VariableIdentifier(s1, hi) && doc_VariableIdentifier(t, s1, hi))
        || (hi == lo + 1 && t[lo].tok is Throw)
        || (exists|s1: int| #![trigger r_VariableIdentifier(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok is Throw && r_VariableIdentifier(s1, hi) && doc_VariableIdentifier(t, s1, hi))
        || (exists|s1: int, e1: int, s3: int, e3: int| #![trigger r_VariableIdentifier(s1, e1), r_PatternMatchClause_plus(s3, e3)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < e3 && hi == e3 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && lo <= e3 <= hi && t[lo].tok is Match && t[e1].tok is With && t[e3].tok is End && r_VariableIdentifier(s1, e1) && r_PatternMatchClause_plus(s3, e3) && doc_VariableIdentifier(t, s1, e1) && doc_PatternMatchClause_plus(t, s3, e3))
        || (lo < hi && r_ComponentId(lo, hi) && doc_ComponentId(t, lo, hi))
        || (exists|e0: int| #![trigger r_ComponentId(lo, e0), r_VariableIdentifier_plus(e0, hi)] lo < e0 && e0 < hi && lo <= e0 <= hi && r_ComponentId(lo, e0) && r_VariableIdentifier_plus(e0, hi) && doc_ComponentId(t, lo, e0) && doc_VariableIdentifier_plus(t, e0, hi))
        || (exists|s1: int, e1: int| #![trigger r_VariableIdentifier(s1, e1), r_ComponentId(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 < hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok is Forall && r_VariableIdentifier(s1, e1) && r_ComponentId(e1, hi) && doc_VariableIdentifier(t, s1, e1) && doc_ComponentId(t, e1, hi))
    )
}
spec fn doc_Statement_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{ lo < hi && ((r_Statement(lo, hi) && doc_Statement(t, lo, hi)) || exists|m: int| #![trigger r_Statement_plus(lo, m), r_Statement(m, hi)] lo < m < hi && r_Statement_plus(lo, m) && r_Statement(m, hi) && doc_Statement_plus(t, lo, m) && doc_Statement(t, m, hi)) }
spec fn r_NextStatement(lo: int, hi: int) -> bool { true }
spec fn r_NextStatement_plus(lo: int, hi: int) -> bool { true }
spec fn doc_NextStatement(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (exists|s1: int| #![trigger r_Statement(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok is Semicolon && r_Statement(s1, hi) && doc_Statement(t, s1, hi))
    )
}
spec fn doc_NextStatement_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_NextStatement(lo, hi) && doc_NextStatement(t, lo, hi)) || exists|m: int| #![trigger r_NextStatement_plus(lo, m), r_NextStatement(m, hi)] lo < m < hi && r_NextStatement_plus(lo, m) && r_NextStatement(m, hi) && doc_NextStatement_plus(t, lo, m) && doc_NextStatement(t, m, hi)) }
spec fn r_StatementBlock(lo: int, hi: int) -> bool { true }
spec fn r_StatementBlock_plus(lo: int, hi: int) -> bool { true }
spec fn doc_StatementBlock(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 4nat
{
    0 <= lo < hi <= t.len() && (
        (lo < hi && r_Statement(lo, hi) && doc_Statement(t, lo, hi))
        || (exists|e0: int| #![trigger r_Statement(lo, e0), r_NextStatement_plus(e0, hi)] lo < e0 && e0 < hi && lo <= e0 <= hi && r_Statement(lo, e0) && r_NextStatement_plus(e0, hi) && doc_Statement(t, lo, e0) && doc_NextStatement_plus(t, e0, hi))
    )
}
spec fn doc_StatementBlock_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 5nat
{ lo < hi && ((r_StatementBlock(lo, hi) && doc_StatementBlock(t, lo, hi)) || exists|m: int| #![trigger r_StatementBlock_plus(lo, m), r_StatementBlock(m, hi)] lo < m < hi && r_StatementBlock_plus(lo, m) && r_StatementBlock(m, hi) && doc_StatementBlock_plus(t, lo, m) && doc_StatementBlock(t, m, hi)) }
spec fn r_BlockchainFetchArguments(lo: int, hi: int) -> bool { true }
spec fn r_BlockchainFetchArguments_plus(lo: int, hi: int) -> bool { true }
spec fn doc_BlockchainFetchArguments(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (exists|s1: int, e1: int| #![trigger r_VariableIdentifier_plus(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok is OpenParen && t[e1].tok is CloseParen && r_VariableIdentifier_plus(s1, e1) && doc_VariableIdentifier_plus(t, s1, e1))
    )
}
spec fn doc_BlockchainFetchArguments_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_BlockchainFetchArguments(lo, hi) && doc_BlockchainFetchArguments(t, lo, hi)) || exists|m: int| #![trigger r_BlockchainFetchArguments_plus(lo, m), r_BlockchainFetchArguments(m, hi)] lo < m < hi && r_BlockchainFetchArguments_plus(lo, m) && r_BlockchainFetchArguments(m, hi) && doc_BlockchainFetchArguments_plus(t, lo, m) && doc_BlockchainFetchArguments(t, m, hi)) }
spec fn r_ComponentId(lo: int, hi: int) -> bool { true }
spec fn r_ComponentId_plus(lo: int, hi: int) -> bool { true }
spec fn doc_ComponentId(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{
    0 <= lo < hi <= t.len() && (
        (lo < hi && r_TypeNameIdentifier(lo, hi) && doc_TypeNameIdentifier(t, lo, hi))
        || (lo < hi && r_RegularId(lo, hi) && doc_RegularId(t, lo, hi))
    )
}
spec fn doc_ComponentId_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 3nat
{ lo < hi && ((r_ComponentId(lo, hi) && doc_ComponentId(t, lo, hi)) || exists|m: int| #![trigger r_ComponentId_plus(lo, m), r_ComponentId(m, hi)] lo < m < hi && r_ComponentId_plus(lo, m) && r_ComponentId(m, hi) && doc_ComponentId_plus(t, lo, m) && doc_ComponentId(t, m, hi)) }
spec fn r_PatternMatchClause(lo: int, hi: int) -> bool { true }
spec fn r_PatternMatchClause_plus(lo: int, hi: int) -> bool { true }
spec fn doc_PatternMatchClause(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (exists|s1: int, e1: int| #![trigger r_Pattern(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok is Pipe && t[e1].tok is DoubleArrow && r_Pattern(s1, e1) && doc_Pattern(t, s1, e1))
        || (exists|s1: int, e1: int, s3: int| #![trigger r_Pattern(s1, e1), r_StatementBlock(s3, hi)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && t[lo].tok is Pipe && t[e1].tok is DoubleArrow && r_Pattern(s1, e1) && r_StatementBlock(s3, hi) && doc_Pattern(t, s1, e1) && doc_StatementBlock(t, s3, hi))
    )
}
spec fn doc_PatternMatchClause_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_PatternMatchClause(lo, hi) && doc_PatternMatchClause(t, lo, hi)) || exists|m: int| #![trigger r_PatternMatchClause_plus(lo, m), r_PatternMatchClause(m, hi)] lo < m < hi && r_PatternMatchClause_plus(lo, m) && r_PatternMatchClause(m, hi) && doc_PatternMatchClause_plus(t, lo, m) && doc_PatternMatchClause(t, m, hi)) }
spec fn r_RemoteFetchStatement(lo: int, hi: int) -> bool { true }
spec fn r_RemoteFetchStatement_plus(lo: int, hi: int) -> bool { true }
spec fn doc_RemoteFetchStatement(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (exists|e0: int, s3: int, e3: int, s5: int| #![trigger r_RegularId(lo, e0), r_RegularId(s3, e3), r_VariableIdentifier(s5, hi)] lo < e0 && s3 == e0 + 2 && s3 < e3 && s5 == e3 + 1 && s5 < hi && lo <= e0 <= hi && lo <= s3 <= hi && lo <= e3 <= hi && lo <= s5 <= hi && t[e0].tok is LeftArrow && t[e0 + 1].tok is Ampersand && t[e3].tok is Dot && r_RegularId(lo, e0) && r_RegularId(s3, e3) && r_VariableIdentifier(s5, hi) && doc_RegularId(t, lo, e0) && doc_RegularId(t, s3, e3) && doc_VariableIdentifier(t, s5, hi))
        || (exists|e0: int, s3: int, e3: int, s5: int| #![trigger r_RegularId(lo, e0), r_SpecialId(s3, e3), r_SpecialId(s5, hi)] lo < e0 && s3 == e0 + 2 && s3 < e3 && s5 == e3 + 1 && s5 < hi && lo <= e0 <= hi && lo <= s3 <= hi && lo <= e3 <= hi && lo <= s5 <= hi && t[e0].tok is LeftArrow && t[e0 + 1].tok is Ampersand && t[e3].tok is Dot && r_RegularId(lo, e0) && r_SpecialId(s3, e3) && r_SpecialId(s5, hi) && doc_RegularId(t, lo, e0) && doc_SpecialId(t, s3, e3) && doc_SpecialId(t, s5, hi))
        || (exists|e0: int, s3: int, e3: int, s5: int, e5: int| #![trigger r_RegularId(lo, e0), r_RegularId(s3, e3), r_RegularId(s5, e5), r_MapAccess_plus(e5, hi)] lo < e0 && s3 == e0 + 2 && s3 < e3 && s5 == e3 + 1 && s5 < e5 && e5 < hi && lo <= e0 <= hi && lo <= s3 <= hi && lo <= e3 <= hi && lo <= s5 <= hi && lo <= e5 <= hi && t[e0].tok is LeftArrow && t[e0 + 1].tok is Ampersand && t[e3].tok is Dot && r_RegularId(lo, e0) && r_RegularId(s3, e3) && r_RegularId(s5, e5) && r_MapAccess_plus(e5, hi) && doc_RegularId(t, lo, e0) && doc_RegularId(t, s3, e3) && doc_RegularId(t, s5, e5) && doc_MapAccess_plus(t, e5, hi))
        || (exists|e0: int, s4: int, e4: int, s6: int, e6: int| #![trigger r_RegularId(lo, e0), r_RegularId(s4, e4), r_RegularId(s6, e6), r_MapAccess_plus(e6, hi)] lo < e0 && s4 == e0 + 3 && s4 < e4 && s6 == e4 + 1 && s6 < e6 && e6 < hi && lo <= e0 <= hi && lo <= s4 <= hi && lo <= e4 <= hi && lo <= s6 <= hi && lo <= e6 <= hi && t[e0].tok is LeftArrow && t[e0 + 1].tok is Ampersand && t[e0 + 2].tok is Exists && t[e4].tok is Dot && r_RegularId(lo, e0) && r_RegularId(s4, e4) && r_RegularId(s6, e6) && r_MapAccess_plus(e6, hi) && doc_RegularId(t, lo, e0) && doc_RegularId(t, s4, e4) && doc_RegularId(t, s6, e6) && doc_MapAccess_plus(t, e6, hi))
        || (exists|e0: int, s3: int, e3: int, s5: int| #![trigger r_RegularId(lo, e0), r_VariableIdentifier(s3, e3), r_AddressType(s5, hi)] lo < e0 && s3 == e0 + 2 && s3 < e3 && s5 == e3 + 1 && s5 < hi && lo <= e0 <= hi && lo <= s3 <= hi && lo <= e3 <= hi && lo <= s5 <= hi && t[e0].tok is LeftArrow && t[e0 + 1].tok is Ampersand && t[e3].tok is As && r_RegularId(lo, e0) && r_VariableIdentifier(s3, e3) && r_AddressType(s5, hi) && doc_RegularId(t, lo, e0) && doc_VariableIdentifier(t, s3, e3) && doc_AddressType(t, s5, hi))
    )
}
spec fn doc_RemoteFetchStatement_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_RemoteFetchStatement(lo, hi) && doc_RemoteFetchStatement(t, lo, hi)) || exists|m: int| #![trigger r_RemoteFetchStatement_plus(lo, m), r_RemoteFetchStatement(m, hi)] lo < m < hi && r_RemoteFetchStatement_plus(lo, m) && r_RemoteFetchStatement(m, hi) && doc_RemoteFetchStatement_plus(t, lo, m) && doc_RemoteFetchStatement(t, m, hi)) }
spec fn r_MapAccess(lo: int, hi: int) -> bool { true }
spec fn r_MapAccess_plus(lo: int, hi: int) -> bool { true }
spec fn doc_MapAccess(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (exists|s1: int, e1: int| #![trigger r_VariableIdentifier(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok is OpenBracket && t[e1].tok is CloseBracket && r_VariableIdentifier(s1, e1) && doc_VariableIdentifier(t, s1, e1))
    )
}
spec fn doc_MapAccess_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_MapAccess(lo, hi) && doc_MapAccess(t, lo, hi)) || exists|m: int| #![trigger r_MapAccess_plus(lo, m), r_MapAccess(m, hi)] lo < m < hi && r_MapAccess_plus(lo, m) && r_MapAccess(m, hi) && doc_MapAccess_plus(t, lo, m) && doc_MapAccess(t, m, hi)) }
spec fn r_ParameterPair(lo: int, hi: int) -> bool { true }
spec fn r_ParameterPair_plus(lo: int, hi: int) -> bool { true }
spec fn doc_ParameterPair(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{
    0 <= lo < hi <= t.len() && (
        (lo < hi && r_TypedIdentifier(lo, hi) && doc_TypedIdentifier(t, lo, hi))
    )
}
spec fn doc_ParameterPair_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{ lo < hi && ((r_ParameterPair(lo, hi) && doc_ParameterPair(t, lo, hi)) || exists|m: int| #![trigger r_ParameterPair_plus(lo, m), r_ParameterPair(m, hi)] lo < m < hi && r_ParameterPair_plus(lo, m) && r_ParameterPair(m, hi) && doc_ParameterPair_plus(t, lo, m) && doc_ParameterPair(t, m, hi)) }
spec fn r_NextParameterPair(lo: int, hi: int) -> bool { true }
spec fn r_NextParameterPair_plus(lo: int, hi: int) -> bool { true }
spec fn doc_NextParameterPair(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (exists|s1: int| #![trigger r_ParameterPair(s1, hi)] s1 == lo + 1 && s1 < hi && lo <= s1 <= hi && t[lo].tok is Comma && r_ParameterPair(s1, hi) && doc_ParameterPair(t, s1, hi))
    )
}
spec fn doc_NextParameterPair_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_NextParameterPair(lo, hi) && doc_NextParameterPair(t, lo, hi)) || exists|m: int| #![trigger r_NextParameterPair_plus(lo, m), r_NextParameterPair(m, hi)] lo < m < hi && r_NextParameterPair_plus(lo, m) && r_NextParameterPair(m, hi) && doc_NextParameterPair_plus(t, lo, m) && doc_NextParameterPair(t, m, hi)) }
spec fn r_ComponentParameters(lo: int, hi: int) -> bool { true }
spec fn r_ComponentParameters_plus(lo: int, hi: int) -> bool { true }
spec fn doc_ComponentParameters(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (hi == lo + 2 && t[lo].tok is OpenParen && t[lo + 1].tok is CloseParen)
        || (exists|s1: int, e1: int| #![trigger r_ParameterPair(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok is OpenParen && t[e1].tok is CloseParen && r_ParameterPair(s1, e1) && doc_ParameterPair(t, s1, e1))
        || (exists|s1: int, e1: int, e2: int| #![trigger r_ParameterPair(s1, e1), r_NextParameterPair_plus(e1, e2)] s1 == lo + 1 && s1 < e1 && e1 < e2 && hi == e2 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && t[lo].tok is OpenParen && t[e2].tok is CloseParen && r_ParameterPair(s1, e1) && r_NextParameterPair_plus(e1, e2) && doc_ParameterPair(t, s1, e1) && doc_NextParameterPair_plus(t, e1, e2))
    )
}
spec fn doc_ComponentParameters_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_ComponentParameters(lo, hi) && doc_ComponentParameters(t, lo, hi)) || exists|m: int| #![trigger r_ComponentParameters_plus(lo, m), r_ComponentParameters(m, hi)] lo < m < hi && r_ComponentParameters_plus(lo, m) && r_ComponentParameters(m, hi) && doc_ComponentParameters_plus(t, lo, m) && doc_ComponentParameters(t, m, hi)) }
spec fn r_ComponentDefinition(lo: int, hi: int) -> bool { true }
spec fn r_ComponentDefinition_plus(lo: int, hi: int) -> bool { true }
spec fn doc_ComponentDefinition(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{
    0 <= lo < hi <= t.len() && (
        (lo < hi && r_TransitionDefinition(lo, hi) && doc_TransitionDefinition(t, lo, hi))
        || (lo < hi && r_ProcedureDefinition(lo, hi) && doc_ProcedureDefinition(t, lo, hi))
    )
}
spec fn doc_ComponentDefinition_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 2nat
{ lo < hi && ((r_ComponentDefinition(lo, hi) && doc_ComponentDefinition(t, lo, hi)) || exists|m: int| #![trigger r_ComponentDefinition_plus(lo, m), r_ComponentDefinition(m, hi)] lo < m < hi && r_ComponentDefinition_plus(lo, m) && r_ComponentDefinition(m, hi) && doc_ComponentDefinition_plus(t, lo, m) && doc_ComponentDefinition(t, m, hi)) }
spec fn r_TransitionDefinition(lo: int, hi: int) -> bool { true }
spec fn r_TransitionDefinition_plus(lo: int, hi: int) -> bool { true }
spec fn doc_TransitionDefinition(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (exists|s1: int, e1: int, e2: int| #![trigger r_ComponentId(s1, e1), r_ComponentParameters(e1, e2), r_ComponentBody(e2, hi)] s1 == lo + 1 && s1 < e1 && e1 < e2 && e2 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && t[lo].tok is Transition && r_ComponentId(s1, e1) && r_ComponentParameters(e1, e2) && r_ComponentBody(e2, hi) && doc_ComponentId(t, s1, e1) && doc_ComponentParameters(t, e1, e2) && doc_ComponentBody(t, e2, hi))
    )
}
spec fn doc_TransitionDefinition_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_TransitionDefinition(lo, hi) && doc_TransitionDefinition(t, lo, hi)) || exists|m: int| #![trigger r_TransitionDefinition_plus(lo, m), r_TransitionDefinition(m, hi)] lo < m < hi && r_TransitionDefinition_plus(lo, m) && r_TransitionDefinition(m, hi) && doc_TransitionDefinition_plus(t, lo, m) && doc_TransitionDefinition(t, m, hi)) }
spec fn r_ProcedureDefinition(lo: int, hi: int) -> bool { true }
spec fn r_ProcedureDefinition_plus(lo: int, hi: int) -> bool { true }
spec fn doc_ProcedureDefinition(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (exists|s1: int, e1: int, e2: int| #![trigger r_ComponentId(s1, e1), r_ComponentParameters(e1, e2), r_ComponentBody(e2, hi)] s1 == lo + 1 && s1 < e1 && e1 < e2 && e2 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && t[lo].tok is Procedure && r_ComponentId(s1, e1) && r_ComponentParameters(e1, e2) && r_ComponentBody(e2, hi) && doc_ComponentId(t, s1, e1) && doc_ComponentParameters(t, e1, e2) && doc_ComponentBody(t, e2, hi))
    )
}
spec fn doc_ProcedureDefinition_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_ProcedureDefinition(lo, hi) && doc_ProcedureDefinition(t, lo, hi)) || exists|m: int| #![trigger r_ProcedureDefinition_plus(lo, m), r_ProcedureDefinition(m, hi)] lo < m < hi && r_ProcedureDefinition_plus(lo, m) && r_ProcedureDefinition(m, hi) && doc_ProcedureDefinition_plus(t, lo, m) && doc_ProcedureDefinition(t, m, hi)) }
spec fn r_ComponentBody(lo: int, hi: int) -> bool { true }
spec fn r_ComponentBody_plus(lo: int, hi: int) -> bool { true }
spec fn doc_ComponentBody(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (hi == lo + 1 && t[lo].tok is End)
        || (exists|e0: int| #![trigger r_StatementBlock(lo, e0)] lo < e0 && hi == e0 + 1 && lo <= e0 <= hi && t[e0].tok is End && r_StatementBlock(lo, e0) && doc_StatementBlock(t, lo, e0))
    )
}
spec fn doc_ComponentBody_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_ComponentBody(lo, hi) && doc_ComponentBody(t, lo, hi)) || exists|m: int| #![trigger r_ComponentBody_plus(lo, m), r_ComponentBody(m, hi)] lo < m < hi && r_ComponentBody_plus(lo, m) && r_ComponentBody(m, hi) && doc_ComponentBody_plus(t, lo, m) && doc_ComponentBody(t, m, hi)) }
spec fn r_ContractDefinition(lo: int, hi: int) -> bool { true }
spec fn r_ContractDefinition_plus(lo: int, hi: int) -> bool { true }
spec fn doc_ContractDefinition(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (exists|s1: int, e1: int| #![trigger r_TypeNameIdentifier(s1, e1), r_ComponentParameters(e1, hi)] s1 == lo + 1 && s1 < e1 && e1 < hi && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok is Contract && r_TypeNameIdentifier(s1, e1) && r_ComponentParameters(e1, hi) && doc_TypeNameIdentifier(t, s1, e1) && doc_ComponentParameters(t, e1, hi))
        || (exists|s1: int, e1: int, e2: int| #![trigger r_TypeNameIdentifier(s1, e1), r_ComponentParameters(e1, e2), r_ComponentDefinition_plus(e2, hi)] s1 == lo + 1 && s1 < e1 && e1 < e2 && e2 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && t[lo].tok is Contract && r_TypeNameIdentifier(s1, e1) && r_ComponentParameters(e1, e2) && r_ComponentDefinition_plus(e2, hi) && doc_TypeNameIdentifier(t, s1, e1) && doc_ComponentParameters(t, e1, e2) && doc_ComponentDefinition_plus(t, e2, hi))
        || (exists|s1: int, e1: int, e2: int| #![trigger r_TypeNameIdentifier(s1, e1), r_ComponentParameters(e1, e2), r_ContractField_plus(e2, hi)] s1 == lo + 1 && s1 < e1 && e1 < e2 && e2 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && t[lo].tok is Contract && r_TypeNameIdentifier(s1, e1) && r_ComponentParameters(e1, e2) && r_ContractField_plus(e2, hi) && doc_TypeNameIdentifier(t, s1, e1) && doc_ComponentParameters(t, e1, e2) && doc_ContractField_plus(t, e2, hi))
        || (exists|s1: int, e1: int, e2: int, e3: int| #![trigger r_TypeNameIdentifier(s1, e1), r_ComponentParameters(e1, e2), r_ContractField_plus(e2, e3), r_ComponentDefinition_plus(e3, hi)] s1 == lo + 1 && s1 < e1 && e1 < e2 && e2 < e3 && e3 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && lo <= e3 <= hi && t[lo].tok is Contract && r_TypeNameIdentifier(s1, e1) && r_ComponentParameters(e1, e2) && r_ContractField_plus(e2, e3) && r_ComponentDefinition_plus(e3, hi) && doc_TypeNameIdentifier(t, s1, e1) && doc_ComponentParameters(t, e1, e2) && doc_ContractField_plus(t, e2, e3) && doc_ComponentDefinition_plus(t, e3, hi))
        || (exists|s1: int, e1: int, e2: int| #![trigger r_TypeNameIdentifier(s1, e1), r_ComponentParameters(e1, e2), r_WithConstraint(e2, hi)] s1 == lo + 1 && s1 < e1 && e1 < e2 && e2 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && t[lo].tok is Contract && r_TypeNameIdentifier(s1, e1) && r_ComponentParameters(e1, e2) && r_WithConstraint(e2, hi) && doc_TypeNameIdentifier(t, s1, e1) && doc_ComponentParameters(t, e1, e2) && doc_WithConstraint(t, e2, hi))
        || (exists|s1: int, e1: int, e2: int, e3: int| #![trigger r_TypeNameIdentifier(s1, e1), r_ComponentParameters(e1, e2), r_WithConstraint(e2, e3), r_ComponentDefinition_plus(e3, hi)] s1 == lo + 1 && s1 < e1 && e1 < e2 && e2 < e3 && e3 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && lo <= e3 <= hi && t[lo].tok is Contract && r_TypeNameIdentifier(s1, e1) && r_ComponentParameters(e1, e2) && r_WithConstraint(e2, e3) && r_ComponentDefinition_plus(e3, hi) && doc_TypeNameIdentifier(t, s1, e1) && doc_ComponentParameters(t, e1, e2) && doc_WithConstraint(t, e2, e3) && doc_ComponentDefinition_plus(t, e3, hi))
        || (exists|s1: int, e1: int, e2: int, e3: int| #![trigger r_TypeNameIdentifier(s1, e1), r_ComponentParameters(e1, e2), r_WithConstraint(e2, e3), r_ContractField_plus(e3, hi)] s1 == lo + 1 && s1 < e1 && e1 < e2 && e2 < e3 && e3 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && lo <= e3 <= hi && t[lo].tok is Contract && r_TypeNameIdentifier(s1, e1) && r_ComponentParameters(e1, e2) && r_WithConstraint(e2, e3) && r_ContractField_plus(e3, hi) && doc_TypeNameIdentifier(t, s1, e1) && doc_ComponentParameters(t, e1, e2) && doc_WithConstraint(t, e2, e3) && doc_ContractField_plus(t, e3, hi))
        || (exists|s1: int, e1: int, e2: int, e3: int, e4: int| #![trigger r_TypeNameIdentifier(s1, e1), r_ComponentParameters(e1, e2), r_WithConstraint(e2, e3), r_ContractField_plus(e3, e4), r_ComponentDefinition_plus(e4, hi)] s1 == lo + 1 && s1 < e1 && e1 < e2 && e2 < e3 && e3 < e4 && e4 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= e2 <= hi && lo <= e3 <= hi && lo <= e4 <= hi && t[lo].tok is Contract && r_TypeNameIdentifier(s1, e1) && r_ComponentParameters(e1, e2) && r_WithConstraint(e2, e3) && r_ContractField_plus(e3, e4) && r_ComponentDefinition_plus(e4, hi) && doc_TypeNameIdentifier(t, s1, e1) && doc_ComponentParameters(t, e1, e2) && doc_WithConstraint(t, e2, e3) && doc_ContractField_plus(t, e3, e4) && doc_ComponentDefinition_plus(t, e4, hi))
    )
}
spec fn doc_ContractDefinition_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_ContractDefinition(lo, hi) && doc_ContractDefinition(t, lo, hi)) || exists|m: int| #![trigger r_ContractDefinition_plus(lo, m), r_ContractDefinition(m, hi)] lo < m < hi && r_ContractDefinition_plus(lo, m) && r_ContractDefinition(m, hi) && doc_ContractDefinition_plus(t, lo, m) && doc_ContractDefinition(t, m, hi)) }
spec fn r_ContractField(lo: int, hi: int) -> bool { true }
spec fn r_ContractField_plus(lo: int, hi: int) -> bool { true }
spec fn doc_ContractField(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (exists|s1: int, e1: int, s3: int| #![trigger r_TypedIdentifier(s1, e1), r_FullExpression(s3, hi)] s1 == lo + 1 && s1 < e1 && s3 == e1 + 1 && s3 < hi && lo <= s1 <= hi && lo <= e1 <= hi && lo <= s3 <= hi && t[lo].tok is Field && t[e1].tok is Equals && r_TypedIdentifier(s1, e1) && r_FullExpression(s3, hi) && doc_TypedIdentifier(t, s1, e1) && doc_FullExpression(t, s3, hi))
    )
}
spec fn doc_ContractField_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_ContractField(lo, hi) && doc_ContractField(t, lo, hi)) || exists|m: int| #![trigger r_ContractField_plus(lo, m), r_ContractField(m, hi)] lo < m < hi && r_ContractField_plus(lo, m) && r_ContractField(m, hi) && doc_ContractField_plus(t, lo, m) && doc_ContractField(t, m, hi)) }
spec fn r_WithConstraint(lo: int, hi: int) -> bool { true }
spec fn r_WithConstraint_plus(lo: int, hi: int) -> bool { true }
spec fn doc_WithConstraint(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 0nat
{
    0 <= lo < hi <= t.len() && (
        (exists|s1: int, e1: int| #![trigger r_FullExpression(s1, e1)] s1 == lo + 1 && s1 < e1 && hi == e1 + 1 && lo <= s1 <= hi && lo <= e1 <= hi && t[lo].tok is With && t[e1].tok is DoubleArrow && r_FullExpression(s1, e1) && doc_FullExpression(t, s1, e1))
    )
}
spec fn doc_WithConstraint_plus(t: Toks, lo: int, hi: int) -> bool
    decreases hi - lo, 1nat
{ lo < hi && ((r_WithConstraint(lo, hi) && doc_WithConstraint(t, lo, hi)) || exists|m: int| #![trigger r_WithConstraint_plus(lo, m), r_WithConstraint(m, hi)] lo < m < hi && r_WithConstraint_plus(lo, m) && r_WithConstraint(m, hi) && doc_WithConstraint_plus(t, lo, m) && doc_WithConstraint(t, m, hi)) }
