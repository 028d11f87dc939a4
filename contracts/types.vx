==== prelude
// ---- the abstract types ----
ghost struct GField { name: Seq<char>, ty: VT }
// A Scilla type as the library reports it.
ghost enum VT {
    Int32, Int64, Int128, Int256, Uint32, Uint64, Uint128, Uint256, Str, BNum, Bool, ByStr, ByStr20,
    ByStrX(nat),
    ByStr20With(Seq<char>, Seq<GField>),
    Map(Box<VT>, Box<VT>), Option(Box<VT>), Pair(Box<VT>, Box<VT>), List(Box<VT>),
    Other(Seq<char>),
}
ghost struct GA { kind: Seq<char>, fields: Seq<GField> }
// A declared type: constructor name, arguments, address part.
ghost struct GT { main: Seq<char>, subs: Seq<GT>, addr: Option<GA> }

spec fn v_type(t: Type) -> VT decreases t {
    match t {
        Type::Int32 => VT::Int32, Type::Int64 => VT::Int64, Type::Int128 => VT::Int128, Type::Int256 => VT::Int256,
        Type::Uint32 => VT::Uint32, Type::Uint64 => VT::Uint64, Type::Uint128 => VT::Uint128, Type::Uint256 => VT::Uint256,
        Type::String => VT::Str, Type::BNum => VT::BNum, Type::Bool => VT::Bool,
        Type::ByStr => VT::ByStr, Type::ByStr20 => VT::ByStr20, Type::ByStrX(n) => VT::ByStrX(n as nat),
        Type::ByStr20With { type_name, fields } => VT::ByStr20With(type_name@, v_fields(fields.0)),
        Type::Map(k, v) => VT::Map(Box::new(v_type(*k)), Box::new(v_type(*v))),
        Type::Option(k) => VT::Option(Box::new(v_type(*k))),
        Type::Pair(k, v) => VT::Pair(Box::new(v_type(*k)), Box::new(v_type(*v))),
        Type::List(k) => VT::List(Box::new(v_type(*k))),
        Type::Other(s) => VT::Other(s@),
    }
}
spec fn v_field(f: Field) -> GField decreases f { GField { name: f.name@, ty: v_type(f.raw_type) } }
spec fn v_fields(f: Vec<Field>) -> Seq<GField> decreases f {
    Seq::new(f@.len(), |i: int| if 0 <= i < f@.len() { v_field(f@[i]) } else { arbitrary() })
}
spec fn v_sr(t: SrType) -> GT decreases t {
    GT {
        main: t.main_type@,
        subs: v_srs(t.sub_types),
        addr: match t.address_type { None => None, Some(a) => Some(GA { kind: a.type_name@, fields: v_fields(a.fields.0) }) },
    }
}
spec fn v_srs(v: Vec<SrType>) -> Seq<GT> decreases v {
    Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { v_sr(v@[i]) } else { arbitrary() })
}

// C08: what a declared type means.
spec fn conv(g: GT) -> VT decreases g {
    let m = g.main;
    if m == "Int32"@ { VT::Int32 } else if m == "Int64"@ { VT::Int64 } else if m == "Int128"@ { VT::Int128 } else if m == "Int256"@ { VT::Int256 }
    else if m == "Uint32"@ { VT::Uint32 } else if m == "Uint64"@ { VT::Uint64 } else if m == "Uint128"@ { VT::Uint128 } else if m == "Uint256"@ { VT::Uint256 }
    else if m == "String"@ { VT::Str } else if m == "ByStr"@ { VT::ByStr } else if m == "BNum"@ { VT::BNum } else if m == "Bool"@ { VT::Bool }
    else if m == "Option"@ && g.subs.len() == 1 { VT::Option(Box::new(conv(g.subs[0]))) }
    else if m == "List"@ && g.subs.len() == 1 { VT::List(Box::new(conv(g.subs[0]))) }
    else if m == "Pair"@ && g.subs.len() == 2 { VT::Pair(Box::new(conv(g.subs[0])), Box::new(conv(g.subs[1]))) }
    else if m == "Map"@ && g.subs.len() == 2 { VT::Map(Box::new(conv(g.subs[0])), Box::new(conv(g.subs[1]))) }
    else if m == "ByStr20"@ { match g.addr { None => VT::ByStr20, Some(a) => VT::ByStr20With(a.kind, a.fields) } }
    else if "ByStr"@.is_prefix_of(m) && usize_of(m.subrange(5, m.len() as int)) is Some {
        let n = usize_of(m.subrange(5, m.len() as int))->0;
        if n == 20 { VT::ByStr20 } else { VT::ByStrX(n) }
    }
    else { VT::Other(m) }
}

broadcast proof fn v_sr_def(t: SrType)
    ensures
        (#[trigger] v_sr(t)).main == t.main_type@,
        v_sr(t).subs.len() == t.sub_types@.len(),
        forall|i: int| 0 <= i < t.sub_types@.len() ==> #[trigger] v_sr(t).subs[i] == v_sr(t.sub_types@[i]),
        t.sub_types@.len() == 0 ==> v_sr(t).subs == Seq::<GT>::empty(),
        v_sr(t).addr == (match t.address_type { None => None, Some(a) => Some(GA { kind: a.type_name@, fields: v_fields(a.fields.0) }) }),
{
    if t.sub_types@.len() == 0 { assert(v_sr(t).subs =~= Seq::<GT>::empty()); }
}
broadcast proof fn v_fields_def(v: Vec<Field>)
    ensures
        (#[trigger] v_fields(v)).len() == v@.len(),
        forall|i: int| 0 <= i < v@.len() ==> #[trigger] v_fields(v)[i] == v_field(v@[i]),
        v@.len() == 0 ==> v_fields(v) == Seq::<GField>::empty(),
{
    if v@.len() == 0 { assert(v_fields(v) =~= Seq::<GField>::empty()); }
}
// the constructor names are pairwise different
proof fn type_names_differ()
    ensures
        "Int32"@ != "Int64"@,
        "Int32"@ != "Int128"@,
        "Int32"@ != "Int256"@,
        "Int32"@ != "Uint32"@,
        "Int32"@ != "Uint64"@,
        "Int32"@ != "Uint128"@,
        "Int32"@ != "Uint256"@,
        "Int32"@ != "String"@,
        "Int32"@ != "ByStr"@,
        "Int32"@ != "BNum"@,
        "Int32"@ != "Bool"@,
        "Int32"@ != "Option"@,
        "Int32"@ != "List"@,
        "Int32"@ != "Pair"@,
        "Int32"@ != "Map"@,
        "Int32"@ != "ByStr20"@,
        "Int64"@ != "Int128"@,
        "Int64"@ != "Int256"@,
        "Int64"@ != "Uint32"@,
        "Int64"@ != "Uint64"@,
        "Int64"@ != "Uint128"@,
        "Int64"@ != "Uint256"@,
        "Int64"@ != "String"@,
        "Int64"@ != "ByStr"@,
        "Int64"@ != "BNum"@,
        "Int64"@ != "Bool"@,
        "Int64"@ != "Option"@,
        "Int64"@ != "List"@,
        "Int64"@ != "Pair"@,
        "Int64"@ != "Map"@,
        "Int64"@ != "ByStr20"@,
        "Int128"@ != "Int256"@,
        "Int128"@ != "Uint32"@,
        "Int128"@ != "Uint64"@,
        "Int128"@ != "Uint128"@,
        "Int128"@ != "Uint256"@,
        "Int128"@ != "String"@,
        "Int128"@ != "ByStr"@,
        "Int128"@ != "BNum"@,
        "Int128"@ != "Bool"@,
        "Int128"@ != "Option"@,
        "Int128"@ != "List"@,
        "Int128"@ != "Pair"@,
        "Int128"@ != "Map"@,
        "Int128"@ != "ByStr20"@,
        "Int256"@ != "Uint32"@,
        "Int256"@ != "Uint64"@,
        "Int256"@ != "Uint128"@,
        "Int256"@ != "Uint256"@,
        "Int256"@ != "String"@,
        "Int256"@ != "ByStr"@,
        "Int256"@ != "BNum"@,
        "Int256"@ != "Bool"@,
        "Int256"@ != "Option"@,
        "Int256"@ != "List"@,
        "Int256"@ != "Pair"@,
        "Int256"@ != "Map"@,
        "Int256"@ != "ByStr20"@,
        "Uint32"@ != "Uint64"@,
        "Uint32"@ != "Uint128"@,
        "Uint32"@ != "Uint256"@,
        "Uint32"@ != "String"@,
        "Uint32"@ != "ByStr"@,
        "Uint32"@ != "BNum"@,
        "Uint32"@ != "Bool"@,
        "Uint32"@ != "Option"@,
        "Uint32"@ != "List"@,
        "Uint32"@ != "Pair"@,
        "Uint32"@ != "Map"@,
        "Uint32"@ != "ByStr20"@,
        "Uint64"@ != "Uint128"@,
        "Uint64"@ != "Uint256"@,
        "Uint64"@ != "String"@,
        "Uint64"@ != "ByStr"@,
        "Uint64"@ != "BNum"@,
        "Uint64"@ != "Bool"@,
        "Uint64"@ != "Option"@,
        "Uint64"@ != "List"@,
        "Uint64"@ != "Pair"@,
        "Uint64"@ != "Map"@,
        "Uint64"@ != "ByStr20"@,
        "Uint128"@ != "Uint256"@,
        "Uint128"@ != "String"@,
        "Uint128"@ != "ByStr"@,
        "Uint128"@ != "BNum"@,
        "Uint128"@ != "Bool"@,
        "Uint128"@ != "Option"@,
        "Uint128"@ != "List"@,
        "Uint128"@ != "Pair"@,
        "Uint128"@ != "Map"@,
        "Uint128"@ != "ByStr20"@,
        "Uint256"@ != "String"@,
        "Uint256"@ != "ByStr"@,
        "Uint256"@ != "BNum"@,
        "Uint256"@ != "Bool"@,
        "Uint256"@ != "Option"@,
        "Uint256"@ != "List"@,
        "Uint256"@ != "Pair"@,
        "Uint256"@ != "Map"@,
        "Uint256"@ != "ByStr20"@,
        "String"@ != "ByStr"@,
        "String"@ != "BNum"@,
        "String"@ != "Bool"@,
        "String"@ != "Option"@,
        "String"@ != "List"@,
        "String"@ != "Pair"@,
        "String"@ != "Map"@,
        "String"@ != "ByStr20"@,
        "ByStr"@ != "BNum"@,
        "ByStr"@ != "Bool"@,
        "ByStr"@ != "Option"@,
        "ByStr"@ != "List"@,
        "ByStr"@ != "Pair"@,
        "ByStr"@ != "Map"@,
        "ByStr"@ != "ByStr20"@,
        "BNum"@ != "Bool"@,
        "BNum"@ != "Option"@,
        "BNum"@ != "List"@,
        "BNum"@ != "Pair"@,
        "BNum"@ != "Map"@,
        "BNum"@ != "ByStr20"@,
        "Bool"@ != "Option"@,
        "Bool"@ != "List"@,
        "Bool"@ != "Pair"@,
        "Bool"@ != "Map"@,
        "Bool"@ != "ByStr20"@,
        "Option"@ != "List"@,
        "Option"@ != "Pair"@,
        "Option"@ != "Map"@,
        "Option"@ != "ByStr20"@,
        "List"@ != "Pair"@,
        "List"@ != "Map"@,
        "List"@ != "ByStr20"@,
        "Pair"@ != "Map"@,
        "Pair"@ != "ByStr20"@,
        "Map"@ != "ByStr20"@,
{
    reveal_strlit("Int32");
    reveal_strlit("Int64");
    reveal_strlit("Int128");
    reveal_strlit("Int256");
    reveal_strlit("Uint32");
    reveal_strlit("Uint64");
    reveal_strlit("Uint128");
    reveal_strlit("Uint256");
    reveal_strlit("String");
    reveal_strlit("ByStr");
    reveal_strlit("BNum");
    reveal_strlit("Bool");
    reveal_strlit("Option");
    reveal_strlit("List");
    reveal_strlit("Pair");
    reveal_strlit("Map");
    reveal_strlit("ByStr20");
    assert("Int32"@[3] != "Int64"@[3]);
    assert("Int32"@.len() != "Int128"@.len());
    assert("Int32"@.len() != "Int256"@.len());
    assert("Int32"@.len() != "Uint32"@.len());
    assert("Int32"@.len() != "Uint64"@.len());
    assert("Int32"@.len() != "Uint128"@.len());
    assert("Int32"@.len() != "Uint256"@.len());
    assert("Int32"@.len() != "String"@.len());
    assert("Int32"@[0] != "ByStr"@[0]);
    assert("Int32"@.len() != "BNum"@.len());
    assert("Int32"@.len() != "Bool"@.len());
    assert("Int32"@.len() != "Option"@.len());
    assert("Int32"@.len() != "List"@.len());
    assert("Int32"@.len() != "Pair"@.len());
    assert("Int32"@.len() != "Map"@.len());
    assert("Int32"@.len() != "ByStr20"@.len());
    assert("Int64"@.len() != "Int128"@.len());
    assert("Int64"@.len() != "Int256"@.len());
    assert("Int64"@.len() != "Uint32"@.len());
    assert("Int64"@.len() != "Uint64"@.len());
    assert("Int64"@.len() != "Uint128"@.len());
    assert("Int64"@.len() != "Uint256"@.len());
    assert("Int64"@.len() != "String"@.len());
    assert("Int64"@[0] != "ByStr"@[0]);
    assert("Int64"@.len() != "BNum"@.len());
    assert("Int64"@.len() != "Bool"@.len());
    assert("Int64"@.len() != "Option"@.len());
    assert("Int64"@.len() != "List"@.len());
    assert("Int64"@.len() != "Pair"@.len());
    assert("Int64"@.len() != "Map"@.len());
    assert("Int64"@.len() != "ByStr20"@.len());
    assert("Int128"@[3] != "Int256"@[3]);
    assert("Int128"@[0] != "Uint32"@[0]);
    assert("Int128"@[0] != "Uint64"@[0]);
    assert("Int128"@.len() != "Uint128"@.len());
    assert("Int128"@.len() != "Uint256"@.len());
    assert("Int128"@[0] != "String"@[0]);
    assert("Int128"@.len() != "ByStr"@.len());
    assert("Int128"@.len() != "BNum"@.len());
    assert("Int128"@.len() != "Bool"@.len());
    assert("Int128"@[0] != "Option"@[0]);
    assert("Int128"@.len() != "List"@.len());
    assert("Int128"@.len() != "Pair"@.len());
    assert("Int128"@.len() != "Map"@.len());
    assert("Int128"@.len() != "ByStr20"@.len());
    assert("Int256"@[0] != "Uint32"@[0]);
    assert("Int256"@[0] != "Uint64"@[0]);
    assert("Int256"@.len() != "Uint128"@.len());
    assert("Int256"@.len() != "Uint256"@.len());
    assert("Int256"@[0] != "String"@[0]);
    assert("Int256"@.len() != "ByStr"@.len());
    assert("Int256"@.len() != "BNum"@.len());
    assert("Int256"@.len() != "Bool"@.len());
    assert("Int256"@[0] != "Option"@[0]);
    assert("Int256"@.len() != "List"@.len());
    assert("Int256"@.len() != "Pair"@.len());
    assert("Int256"@.len() != "Map"@.len());
    assert("Int256"@.len() != "ByStr20"@.len());
    assert("Uint32"@[4] != "Uint64"@[4]);
    assert("Uint32"@.len() != "Uint128"@.len());
    assert("Uint32"@.len() != "Uint256"@.len());
    assert("Uint32"@[0] != "String"@[0]);
    assert("Uint32"@.len() != "ByStr"@.len());
    assert("Uint32"@.len() != "BNum"@.len());
    assert("Uint32"@.len() != "Bool"@.len());
    assert("Uint32"@[0] != "Option"@[0]);
    assert("Uint32"@.len() != "List"@.len());
    assert("Uint32"@.len() != "Pair"@.len());
    assert("Uint32"@.len() != "Map"@.len());
    assert("Uint32"@.len() != "ByStr20"@.len());
    assert("Uint64"@.len() != "Uint128"@.len());
    assert("Uint64"@.len() != "Uint256"@.len());
    assert("Uint64"@[0] != "String"@[0]);
    assert("Uint64"@.len() != "ByStr"@.len());
    assert("Uint64"@.len() != "BNum"@.len());
    assert("Uint64"@.len() != "Bool"@.len());
    assert("Uint64"@[0] != "Option"@[0]);
    assert("Uint64"@.len() != "List"@.len());
    assert("Uint64"@.len() != "Pair"@.len());
    assert("Uint64"@.len() != "Map"@.len());
    assert("Uint64"@.len() != "ByStr20"@.len());
    assert("Uint128"@[4] != "Uint256"@[4]);
    assert("Uint128"@.len() != "String"@.len());
    assert("Uint128"@.len() != "ByStr"@.len());
    assert("Uint128"@.len() != "BNum"@.len());
    assert("Uint128"@.len() != "Bool"@.len());
    assert("Uint128"@.len() != "Option"@.len());
    assert("Uint128"@.len() != "List"@.len());
    assert("Uint128"@.len() != "Pair"@.len());
    assert("Uint128"@.len() != "Map"@.len());
    assert("Uint128"@[0] != "ByStr20"@[0]);
    assert("Uint256"@.len() != "String"@.len());
    assert("Uint256"@.len() != "ByStr"@.len());
    assert("Uint256"@.len() != "BNum"@.len());
    assert("Uint256"@.len() != "Bool"@.len());
    assert("Uint256"@.len() != "Option"@.len());
    assert("Uint256"@.len() != "List"@.len());
    assert("Uint256"@.len() != "Pair"@.len());
    assert("Uint256"@.len() != "Map"@.len());
    assert("Uint256"@[0] != "ByStr20"@[0]);
    assert("String"@.len() != "ByStr"@.len());
    assert("String"@.len() != "BNum"@.len());
    assert("String"@.len() != "Bool"@.len());
    assert("String"@[0] != "Option"@[0]);
    assert("String"@.len() != "List"@.len());
    assert("String"@.len() != "Pair"@.len());
    assert("String"@.len() != "Map"@.len());
    assert("String"@.len() != "ByStr20"@.len());
    assert("ByStr"@.len() != "BNum"@.len());
    assert("ByStr"@.len() != "Bool"@.len());
    assert("ByStr"@.len() != "Option"@.len());
    assert("ByStr"@.len() != "List"@.len());
    assert("ByStr"@.len() != "Pair"@.len());
    assert("ByStr"@.len() != "Map"@.len());
    assert("ByStr"@.len() != "ByStr20"@.len());
    assert("BNum"@[1] != "Bool"@[1]);
    assert("BNum"@.len() != "Option"@.len());
    assert("BNum"@[0] != "List"@[0]);
    assert("BNum"@[0] != "Pair"@[0]);
    assert("BNum"@.len() != "Map"@.len());
    assert("BNum"@.len() != "ByStr20"@.len());
    assert("Bool"@.len() != "Option"@.len());
    assert("Bool"@[0] != "List"@[0]);
    assert("Bool"@[0] != "Pair"@[0]);
    assert("Bool"@.len() != "Map"@.len());
    assert("Bool"@.len() != "ByStr20"@.len());
    assert("Option"@.len() != "List"@.len());
    assert("Option"@.len() != "Pair"@.len());
    assert("Option"@.len() != "Map"@.len());
    assert("Option"@.len() != "ByStr20"@.len());
    assert("List"@[0] != "Pair"@[0]);
    assert("List"@.len() != "Map"@.len());
    assert("List"@.len() != "ByStr20"@.len());
    assert("Pair"@.len() != "Map"@.len());
    assert("Pair"@.len() != "ByStr20"@.len());
    assert("Map"@.len() != "ByStr20"@.len());
}
broadcast group type_facts { axiom_str_view_injective, v_sr_def, v_fields_def }

==== text into SrIdentifier SrType
impl VxInto<SrType> for SrIdentifier {
    spec fn into_ok(&self, t: SrType) -> bool { v_sr(t) == leaf(self.unresolved@) }
    fn vx_into(self) -> (r: SrType) { SrType::from_SrIdentifier(self) }
}
==== text into SrType Type
impl VxInto<Type> for SrType {
    spec fn into_ok(&self, t: Type) -> bool { v_type(t) == conv(v_sr(*self)) }
    fn vx_into(self) -> (r: Type) decreases self, 1int { Type::from_SrType(self) }
}

==== prelude
spec fn leaf(m: Seq<char>) -> GT { GT { main: m, subs: Seq::empty(), addr: None } }

==== fn SrType::from_SrIdentifier
props C08
ret r
ensures v_sr(r) == leaf(value.unresolved@)

==== fn SrType::push_sub_type
props C08
ensures
    final(self).main_type@ == old(self).main_type@,
    final(self).address_type == old(self).address_type,
    v_srs(final(self).sub_types) == v_srs(old(self).sub_types).push(v_sr(sub_type)),

==== fn Type::from_SrType
props C08
ret r
ensures v_type(r) == conv(v_sr(type_definition))
decreases type_definition, 0int
---- entry
proof { type_names_differ(); reveal_strlit("ByStr"); }

==== fn SrIdentifier::new
ret r
ensures r.unresolved@ == unresolved@, r.kind == kind

==== fn Field::new
ret r
ensures r.name@ == name@, r.raw_type == raw_type

==== fn FieldList::push
ensures
    v_fields(final(self).0) == v_fields(old(self).0).push(v_field(field)),

==== fn Transition::new
ret r
ensures r.name@ == name@, r.params == params

==== fn Transition::new_without_param
ret r
ensures r.name@ == name@, v_fields(r.params.0) == Seq::<GField>::empty()

==== prelude
// `#[derive(Default)]` of a newtype over Vec
impl FieldList {
    fn default() -> (r: FieldList) ensures r.0@.len() == 0, v_fields(r.0) == Seq::<GField>::empty() {
        let r = FieldList(Vec::new());
        assert(v_fields(r.0) =~= Seq::<GField>::empty());
        r
    }
}
