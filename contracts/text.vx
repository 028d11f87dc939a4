==== prelude
broadcast proof fn lemma_assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures (a + b) + c == #[trigger] (a + (b + c))
{ assert((a + b) + c =~= a + (b + c)); }
broadcast proof fn lemma_empty(a: Seq<char>, b: Seq<char>)
    ensures b.len() == 0 ==> #[trigger] (a + b) == a, a.len() == 0 ==> a + b == b
{
    if b.len() == 0 { assert(a + b =~= a); }
    if a.len() == 0 { assert(a + b =~= b); }
}
broadcast group vx_facts {
    axiom_str_view_injective, lemma_assoc, lemma_empty,
}
