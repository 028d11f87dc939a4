==== prelude
// ---- what the actions of the grammar use ----
impl<T> VxInto<T> for T {
    spec fn into_ok(&self, t: T) -> bool { t == *self }
    fn vx_into(self) -> (r: T) { self }
}
impl<T> VxInto<Box<T>> for T {
    spec fn into_ok(&self, t: Box<T>) -> bool { *t == *self }
    fn vx_into(self) -> (r: Box<T>) { Box::new(self) }
}
trait VxStringFrom { fn vx_from(s: &str) -> (r: String) ensures r@ == s@; }
impl VxStringFrom for String {
    #[verifier::external_body]
    fn vx_from(s: &str) -> (r: String) { unimplemented!() }
}
trait VxVec<T>: Sized {
    spec fn items(&self) -> Seq<T>;
    fn vx_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.items();
    fn vx_extend(&mut self, l: Vec<T>) ensures final(self).items() == old(self).items() + l@;
}
impl<T> VxVec<T> for Vec<T> {
    spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_extend(&mut self, l: Vec<T>) { unimplemented!() }
}
// `once(a).chain(l).collect()`
fn vx_cons<T>(a: T, l: Vec<T>) -> (r: Vec<T>) ensures r@ == seq![a] + l@ {
    let mut r = Vec::new();
    r.push(a);
    r.vx_extend(l);
    assert(r@ =~= seq![a] + l@);
    r
}
trait VxOrDefault<T> { spec fn or_default_ok(&self, r: T) -> bool; fn vx_or_default(self) -> (r: T) ensures self.or_default_ok(r); }
impl<T> VxOrDefault<Vec<T>> for Option<Vec<T>> {
    spec fn or_default_ok(&self, r: Vec<T>) -> bool { match self { Some(v) => r == v, None => r@ == Seq::<T>::empty() } }
    fn vx_or_default(self) -> (r: Vec<T>) { match self { Some(v) => v, None => Vec::new() } }
}
struct VxRefused;
// an allocation takes at most isize::MAX bytes, and a positioned node takes at least one
#[verifier::external_body]
broadcast proof fn axiom_nodes_len<T>(v: Vec<WithMetaData<T>>)
    ensures #[trigger] v@.len() <= isize::MAX,
{}
broadcast proof fn lemma_insert_first<T>(s: Seq<T>, a: T)
    ensures #[trigger] tail(s.insert(0, a)) == s,
{ assert(tail(s.insert(0, a)) =~= s); }
broadcast group vx_facts { axiom_nodes_len, lemma_insert_first, axiom_str_view_injective, lemma_tail, lemma_list_push, lemma_imports_push }
