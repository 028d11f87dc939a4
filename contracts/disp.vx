==== prelude
// The Scilla notation of a type.
spec fn show(t: Type) -> Seq<char> decreases t, 1nat {
    match t {
        Type::Int32 => "Int32"@,
        Type::Int64 => "Int64"@,
        Type::Int128 => "Int128"@,
        Type::Int256 => "Int256"@,
        Type::Uint32 => "Uint32"@,
        Type::Uint64 => "Uint64"@,
        Type::Uint128 => "Uint128"@,
        Type::Uint256 => "Uint256"@,
        Type::String => "String"@,
        Type::BNum => "BNum"@,
        Type::Bool => "Bool"@,
        Type::ByStr => "ByStr"@,
        Type::ByStr20 => "ByStr20"@,
        Type::ByStrX(n) => "ByStr"@ + dec(n as nat),
        Type::Map(k, v) => "(Map "@ + show(*k) + " "@ + show(*v) + ")"@,
        Type::Option(k) => "(Option "@ + show(*k) + ")"@,
        Type::List(k) => "(List "@ + show(*k) + ")"@,
        Type::Pair(k, v) => "(Pair "@ + show(*k) + " "@ + show(*v) + ")"@,
        Type::ByStr20With { type_name, fields } =>
            "(ByStr20 with"@ + (if type_name@.len() == 0 { Seq::empty() } else { " "@ + type_name@ })
                + show_fields(fields.0@, fields.0@.len() as int) + " end)"@,
        Type::Other(s) => s@,
    }
}
// The first n fields, separated by commas.
spec fn show_fields(fs: Seq<Field>, n: int) -> Seq<char> decreases fs, n {
    if n <= 0 || n > fs.len() { Seq::empty() }
    else { show_fields(fs, n - 1) + (if n == 1 { Seq::empty() } else { ","@ }) + " field "@ + fs[n - 1].name@ + ": "@ + show(fs[n - 1].raw_type) }
}
broadcast proof fn lemma_assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures (a + b) + c == #[trigger] (a + (b + c))
{ assert((a + b) + c =~= a + (b + c)); }
broadcast proof fn lemma_empty(a: Seq<char>, b: Seq<char>)
    ensures b.len() == 0 ==> #[trigger] (a + b) == a, a.len() == 0 ==> a + b == b
{
    if b.len() == 0 { assert(a + b =~= a); }
    if a.len() == 0 { assert(a + b =~= b); }
}
broadcast group vx_facts {
    axiom_str_view_injective, lemma_assoc, lemma_empty,
}
==== text text Type
spec fn text(&self) -> Seq<char> { show(*self) }
==== fn Type::fmt
props C09
decreases *self
---- entry
proof { reveal_strlit(""); }
---- enter:0
let ghost g0 = f.buf@;
---- for:0
    f.buf@ == g0 + show_fields(__it0@, __i0 as int),
---- body:0
proof { assert(decreases_to!(*self => __it0@)); }
