==== prelude
// ---- the emitter's stack and contract, as values ----
ghost enum GS { Id(Seq<char>, SrIdentifierKind), Var(GField), Ty(GT) }
ghost struct GTr { name: Seq<char>, params: Seq<GField> }
ghost struct GC { name: Seq<char>, init: Seq<GField>, fields: Seq<GField>, transitions: Seq<GTr> }

spec fn v_obj(o: StackObject) -> GS {
    match o {
        StackObject::IrIdentifier(i) => GS::Id(i.unresolved@, i.kind),
        StackObject::VariableDeclaration(f) => GS::Var(v_field(f)),
        StackObject::TypeDefinition(t) => GS::Ty(v_sr(t)),
    }
}
spec fn v_stack(s: Seq<StackObject>) -> Seq<GS> { Seq::new(s.len(), |i: int| v_obj(s[i])) }
spec fn st(e: SrEmitter) -> Seq<GS> { v_stack(e.stack@) }
broadcast proof fn v_stack_push(s: Seq<StackObject>, o: StackObject)
    ensures #[trigger] v_stack(s.push(o)) == v_stack(s).push(v_obj(o)),
{ assert(v_stack(s.push(o)) =~= v_stack(s).push(v_obj(o))); }
broadcast proof fn v_stack_pop(s: Seq<StackObject>)
    requires s.len() > 0,
    ensures #[trigger] v_stack(s.drop_last()) == v_stack(s).drop_last(), v_stack(s).last() == v_obj(s.last()),
{ assert(v_stack(s.drop_last()) =~= v_stack(s).drop_last()); }
broadcast proof fn gs_push_pop(s: Seq<GS>, o: GS)
    ensures #[trigger] s.push(o).drop_last() == s,
{ assert(s.push(o).drop_last() =~= s); }
// stated where a type is pushed: as a fact of every type it would unfold without end
broadcast proof fn v_obj_two(t: SrType)
    ensures
        #[trigger] v_obj(StackObject::TypeDefinition(t)) == GS::Ty(v_sr(t)),
        t.sub_types@.len() == 2 ==> v_sr(t).subs == seq![v_sr(t.sub_types@[0]), v_sr(t.sub_types@[1])],
{
    if t.sub_types@.len() == 2 { assert(v_sr(t).subs =~= seq![v_sr(t.sub_types@[0]), v_sr(t.sub_types@[1])]); }
}
broadcast proof fn v_trs_push(s: Seq<Transition>, o: Transition)
    ensures #[trigger] v_trs(s.push(o)) == v_trs(s).push(v_tr(o)),
{ assert(v_trs(s.push(o)) =~= v_trs(s).push(v_tr(o))); }
broadcast group vx_facts { type_facts, v_stack_push, v_stack_pop, gs_push_pop, v_obj_two, v_trs_push, gt_st_noargs, gt_vata_noargs }
spec fn v_tr(t: Transition) -> GTr { GTr { name: t.name@, params: v_fields(t.params.0) } }
spec fn v_trs(t: Seq<Transition>) -> Seq<GTr> { Seq::new(t.len(), |i: int| v_tr(t[i])) }
spec fn v_contract(c: Contract) -> GC {
    GC { name: c.name@, init: v_fields(c.init_params.0), fields: v_fields(c.fields.0), transitions: v_trs(c.transitions.0@) }
}
spec fn vc(e: SrEmitter) -> GC { v_contract(e.contract) }
// nothing but `add` was pushed
spec fn pushed(a: SrEmitter, b: SrEmitter, add: GS) -> bool { st(b) == st(a).push(add) && vc(b) == vc(a) }
spec fn same(a: SrEmitter, b: SrEmitter) -> bool { st(b) == st(a) && vc(b) == vc(a) }
spec fn cont(r: Result<TraversalResult, String>) -> bool { r is Ok && r->Ok_0 is Continue }
spec fn skip(r: Result<TraversalResult, String>) -> bool { r is Ok && r->Ok_0 is SkipChildren }

// ---- what a type annotation declares ----
spec fn id_tni(n: NodeTypeNameIdentifier) -> Seq<char> { n.text() }
spec fn ok_meta(n: NodeMetaIdentifier) -> bool { true }
spec fn gt_mapof(k: GT, v: GT) -> GT { GT { main: "Map"@, subs: seq![k, v], addr: None } }

// Function types, polymorphic types and type variables are not supported where a type is declared.
spec fn ok_st(n: NodeScillaType) -> bool decreases n {
    match n {
        NodeScillaType::GenericTypeWithArgs(lead, args) => forall|i: int| 0 <= i < args@.len() ==> ok_ta(#[trigger] args@[i].node),
        NodeScillaType::MapType(k, v) => ok_key(k.node) && ok_val(v.node),
        NodeScillaType::EnclosedType(a) => ok_st(a.node),
        NodeScillaType::ScillaAddresseType(a) => ok_at(a.node),
        _ => false,
    }
}
spec fn gt_st(n: NodeScillaType) -> GT decreases n {
    match n {
        NodeScillaType::GenericTypeWithArgs(lead, args) => GT { main: lead.node.text(), subs: gt_tas(args), addr: None },
        NodeScillaType::MapType(k, v) => gt_mapof(gt_key(k.node), gt_val(v.node)),
        NodeScillaType::EnclosedType(a) => gt_st(a.node),
        NodeScillaType::ScillaAddresseType(a) => gt_at(a.node),
        _ => arbitrary(),
    }
}
spec fn ok_ta(n: NodeTypeArgument) -> bool decreases n {
    match n {
        NodeTypeArgument::EnclosedTypeArgument(t) => ok_st(t.node),
        NodeTypeArgument::GenericTypeArgument(m) => true,
        NodeTypeArgument::TemplateTypeArgument(_) => false,
        NodeTypeArgument::AddressTypeArgument(a) => ok_at(a.node),
        NodeTypeArgument::MapTypeArgument(k, v) => ok_key(k.node) && ok_val(v.node),
    }
}
spec fn gt_ta(n: NodeTypeArgument) -> GT decreases n {
    match n {
        NodeTypeArgument::EnclosedTypeArgument(t) => gt_st(t.node),
        NodeTypeArgument::GenericTypeArgument(m) => leaf(m.node.text()),
        NodeTypeArgument::TemplateTypeArgument(_) => arbitrary(),
        NodeTypeArgument::AddressTypeArgument(a) => gt_at(a.node),
        NodeTypeArgument::MapTypeArgument(k, v) => gt_mapof(gt_key(k.node), gt_val(v.node)),
    }
}
spec fn gt_tas(v: Vec<WithMetaData<NodeTypeArgument>>) -> Seq<GT> decreases v {
    Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { gt_ta(v@[i].node) } else { arbitrary() })
}
spec fn ok_key(n: NodeTypeMapKey) -> bool decreases n {
    match n {
        NodeTypeMapKey::GenericMapKey(m) | NodeTypeMapKey::EnclosedGenericId(m) => true,
        NodeTypeMapKey::EnclosedAddressMapKeyType(a) | NodeTypeMapKey::AddressMapKeyType(a) => ok_at(a.node),
    }
}
spec fn gt_key(n: NodeTypeMapKey) -> GT decreases n {
    match n {
        NodeTypeMapKey::GenericMapKey(m) | NodeTypeMapKey::EnclosedGenericId(m) => leaf(m.node.text()),
        NodeTypeMapKey::EnclosedAddressMapKeyType(a) | NodeTypeMapKey::AddressMapKeyType(a) => gt_at(a.node),
    }
}
spec fn ok_val(n: NodeTypeMapValue) -> bool decreases n {
    match n {
        NodeTypeMapValue::MapValueTypeOrEnumLikeIdentifier(m) => true,
        NodeTypeMapValue::MapKeyValue(e) => ok_key(e.node.key.node) && ok_val(e.node.value.node),
        NodeTypeMapValue::MapValueParenthesizedType(a) => ok_vata(a.node),
        NodeTypeMapValue::MapValueAddressType(a) => ok_at(a.node),
    }
}
spec fn gt_val(n: NodeTypeMapValue) -> GT decreases n {
    match n {
        NodeTypeMapValue::MapValueTypeOrEnumLikeIdentifier(m) => leaf(m.node.text()),
        NodeTypeMapValue::MapKeyValue(e) => gt_mapof(gt_key(e.node.key.node), gt_val(e.node.value.node)),
        NodeTypeMapValue::MapValueParenthesizedType(a) => gt_vata(a.node),
        NodeTypeMapValue::MapValueAddressType(a) => gt_at(a.node),
    }
}
spec fn ok_vata(n: NodeTypeMapValueAllowingTypeArguments) -> bool decreases n {
    match n {
        NodeTypeMapValueAllowingTypeArguments::TypeMapValueNoArgs(m) => ok_val(m.node),
        NodeTypeMapValueAllowingTypeArguments::TypeMapValueWithArgs(m, args) => forall|i: int| 0 <= i < args@.len() ==> ok_va(#[trigger] args@[i].node),
    }
}
spec fn gt_vata(n: NodeTypeMapValueAllowingTypeArguments) -> GT decreases n {
    match n {
        NodeTypeMapValueAllowingTypeArguments::TypeMapValueNoArgs(m) => gt_val(m.node),
        NodeTypeMapValueAllowingTypeArguments::TypeMapValueWithArgs(m, args) => GT { main: m.node.text(), subs: gt_vas(args), addr: None },
    }
}
spec fn ok_va(n: NodeTypeMapValueArguments) -> bool decreases n {
    match n {
        NodeTypeMapValueArguments::EnclosedTypeMapValue(e) => ok_vata(e.node),
        NodeTypeMapValueArguments::GenericMapValueArgument(m) => true,
        NodeTypeMapValueArguments::MapKeyValueType(k, v) => ok_key(k.node) && ok_val(v.node),
    }
}
spec fn gt_va(n: NodeTypeMapValueArguments) -> GT decreases n {
    match n {
        NodeTypeMapValueArguments::EnclosedTypeMapValue(e) => gt_vata(e.node),
        NodeTypeMapValueArguments::GenericMapValueArgument(m) => leaf(m.node.text()),
        NodeTypeMapValueArguments::MapKeyValueType(k, v) => gt_mapof(gt_key(k.node), gt_val(v.node)),
    }
}
spec fn gt_vas(v: Vec<WithMetaData<NodeTypeMapValueArguments>>) -> Seq<GT> decreases v {
    Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { gt_va(v@[i].node) } else { arbitrary() })
}
spec fn ok_at(n: NodeAddressType) -> bool decreases n {
    forall|i: int| 0 <= i < n.address_fields@.len() ==> ok_atf(#[trigger] n.address_fields@[i].node)
}
spec fn ok_atf(n: NodeAddressTypeField) -> bool decreases n { ok_st(n.type_name.node) }
spec fn gt_at(n: NodeAddressType) -> GT decreases n {
    GT { main: n.identifier.node.text(), subs: Seq::empty(), addr: Some(GA { kind: n.type_name.node@, fields: gf_atfs(n.address_fields) }) }
}
spec fn gf_atf(n: NodeAddressTypeField) -> GField decreases n {
    GField { name: n.identifier.node.text(), ty: conv(gt_st(n.type_name.node)) }
}
spec fn gf_atfs(v: Vec<WithMetaData<NodeAddressTypeField>>) -> Seq<GField> decreases v {
    Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { gf_atf(v@[i].node) } else { arbitrary() })
}

// ---- declarations ----
spec fn ok_ti(n: NodeTypedIdentifier) -> bool { ok_st(n.annotation.node.type_name.node) }
spec fn gf_ti(n: NodeTypedIdentifier) -> GField { GField { name: n.identifier_name.node@, ty: conv(gt_st(n.annotation.node.type_name.node)) } }
spec fn ok_pp(n: NodeParameterPair) -> bool { ok_ti(n.identifier_with_type.node) }
spec fn gf_pp(n: NodeParameterPair) -> GField { gf_ti(n.identifier_with_type.node) }
spec fn ok_params(p: Seq<WithMetaData<NodeParameterPair>>) -> bool { forall|i: int| 0 <= i < p.len() ==> ok_pp(#[trigger] p[i].node) }
spec fn gf_params(p: Seq<WithMetaData<NodeParameterPair>>) -> Seq<GField> { Seq::new(p.len(), |i: int| gf_pp(p[i].node)) }
spec fn ok_fields(p: Seq<WithMetaData<NodeContractField>>) -> bool { forall|i: int| 0 <= i < p.len() ==> ok_ti(#[trigger] p[i].node.typed_identifier.node) }
spec fn gf_fields(p: Seq<WithMetaData<NodeContractField>>) -> Seq<GField> { Seq::new(p.len(), |i: int| gf_ti(p[i].node.typed_identifier.node)) }
spec fn name_cid(n: NodeComponentId) -> Seq<char> {
    match n { NodeComponentId::WithTypeLikeName(t) => t.node.text(), NodeComponentId::WithRegularId(s) => s.node@ }
}
spec fn gtr(n: NodeTransitionDefinition) -> GTr { GTr { name: name_cid(n.name.node), params: gf_params(n.parameters.node.parameters@) } }
// a transition's parameters must have supported types; a procedure is not looked at
spec fn ok_comp(n: NodeComponentDefinition) -> bool {
    match n {
        NodeComponentDefinition::TransitionComponent(t) => ok_params(t.node.parameters.node.parameters@),
        NodeComponentDefinition::ProcedureComponent(_) => true,
    }
}
// the transitions among the components, in order
spec fn gtr_comps(p: Seq<WithMetaData<NodeComponentDefinition>>) -> Seq<GTr> decreases p.len() {
    if p.len() == 0 { Seq::empty() } else {
        match p.last().node {
            NodeComponentDefinition::TransitionComponent(t) => gtr_comps(p.drop_last()).push(gtr(t.node)),
            NodeComponentDefinition::ProcedureComponent(_) => gtr_comps(p.drop_last()),
        }
    }
}
spec fn ok_comps(p: Seq<WithMetaData<NodeComponentDefinition>>) -> bool { forall|i: int| 0 <= i < p.len() ==> ok_comp(#[trigger] p[i].node) }
spec fn ok_cd(n: NodeContractDefinition) -> bool {
    ok_params(n.parameters.node.parameters@) && ok_fields(n.fields@) && ok_comps(n.components@)
}
// C05, C06, C07: the contract a definition describes, added to what `c` holds
spec fn gc_cd(c: GC, n: NodeContractDefinition) -> GC {
    GC {
        name: n.contract_name.node.text(),
        init: c.init + gf_params(n.parameters.node.parameters@),
        fields: c.fields + gf_fields(n.fields@),
        transitions: c.transitions + gtr_comps(n.components@),
    }
}
// C16: two programs with equal contract interfaces give equal contracts, whatever else they hold.
spec fn same_interface(a: NodeContractDefinition, b: NodeContractDefinition) -> bool {
    a.contract_name.node.text() == b.contract_name.node.text()
        && gf_params(a.parameters.node.parameters@) == gf_params(b.parameters.node.parameters@)
        && gf_fields(a.fields@) == gf_fields(b.fields@)
        && gtr_comps(a.components@) == gtr_comps(b.components@)
}
proof fn lemma_frame(c: GC, a: NodeContractDefinition, b: NodeContractDefinition)
    requires same_interface(a, b),
    ensures gc_cd(c, a) == gc_cd(c, b),
{ }


==== fn SrEmitter::pop_ir_identifier
props C05 C06 C07 C08
ret r
ensures
    vc(*final(self)) == vc(*old(self)),
    st(*old(self)).len() > 0 && st(*old(self)).last() is Id ==> ({
        let x = st(*old(self)).last();
        r is Ok && r->Ok_0.unresolved@ == x->Id_0 && r->Ok_0.kind == x->Id_1 && st(*final(self)) == st(*old(self)).drop_last() }),
---- entry
proof {
    if old(self).stack@.len() > 0 { assert(st(*old(self)).last() == v_obj(old(self).stack@.last())); }
}

==== fn SrEmitter::pop_variable_declaration
props C05 C06 C07 C08
ret r
ensures
    vc(*final(self)) == vc(*old(self)),
    st(*old(self)).len() > 0 && st(*old(self)).last() is Var ==> ({
        let x = st(*old(self)).last();
        r is Ok && v_field(r->Ok_0) == x->Var_0 && st(*final(self)) == st(*old(self)).drop_last() }),
---- entry
proof {
    if old(self).stack@.len() > 0 { assert(st(*old(self)).last() == v_obj(old(self).stack@.last())); }
}

==== fn SrEmitter::pop_type_definition
props C05 C06 C07 C08
ret r
ensures
    vc(*final(self)) == vc(*old(self)),
    st(*old(self)).len() > 0 && st(*old(self)).last() is Ty ==> ({
        let x = st(*old(self)).last();
        r is Ok && v_sr(r->Ok_0) == x->Ty_0 && st(*final(self)) == st(*old(self)).drop_last() }),
---- entry
proof {
    if old(self).stack@.len() > 0 { assert(st(*old(self)).last() == v_obj(old(self).stack@.last())); }
}

==== fn SrEmitter::push_source_position, SrEmitter::pop_source_position
ensures same(*old(self), *final(self)),


==== prelude
spec fn pushed_id(a: SrEmitter, b: SrEmitter, t: Seq<char>) -> bool {
    &&& st(b).len() == st(a).len() + 1 && st(b).drop_last() == st(a)
    &&& st(b).last() is Id && st(b).last()->Id_0 == t
    &&& vc(b) == vc(a)
}

==== fn SrEmitter::emit_byte_str
props C08
ret r
ensures
    r is Ok,
    same(*old(self), *final(self)),
decreases $2, 0int

==== fn NodeByteStr::visit
props C08
ret r
ensures
    r is Ok,
    same(*old($1), *final($1)),
decreases self, 1int

==== fn SrEmitter::emit_type_name_identifier
props C05 C07 C08
ret r
ensures
    r is Ok,
    $1 is Enter ==> pushed_id(*old(self), *final(self), (*$2).text()),
    $1 is Exit ==> same(*old(self), *final(self)),
decreases $2, 0int

==== fn NodeTypeNameIdentifier::visit
props C05 C07 C08
ret r
ensures
    r is Ok,
    pushed_id(*old($1), *final($1), (*self).text()),
decreases self, 1int

==== fn WithMetaData<NodeTypeNameIdentifier>::visit
props C05 C07 C08
ret r
ensures
    r is Ok,
    pushed_id(*old($1), *final($1), self.node.text()),
decreases self, 1int

==== fn SrEmitter::emit_meta_identifier
props C08
ret r
requires $1 is Enter || (*$2) is MetaName,
ensures
    r is Ok,
    skip(r) && $1 is Enter ==> pushed_id(*old(self), *final(self), (*$2).text()),
    cont(r) || $1 is Exit ==> (*$2) is MetaName && same(*old(self), *final(self)),
decreases $2, 0int

==== fn NodeMetaIdentifier::visit
props C08
ret r
ensures
    r is Ok,
    pushed_id(*old($1), *final($1), (*self).text()),
decreases self, 1int

==== fn WithMetaData<NodeMetaIdentifier>::visit
props C08
ret r
ensures
    r is Ok,
    pushed_id(*old($1), *final($1), self.node.text()),
decreases self, 1int

==== fn SrEmitter::emit_variable_identifier
props C08
ret r
ensures
    skip(r),
    same(*old(self), *final(self)),
decreases $2, 0int

==== fn NodeVariableIdentifier::visit
props C08
ret r
ensures
    r is Ok,
    same(*old($1), *final($1)),
decreases self, 1int

==== fn WithMetaData<NodeVariableIdentifier>::visit
props C08
ret r
ensures
    r is Ok,
    same(*old($1), *final($1)),
decreases self, 1int

==== fn SrEmitter::emit_type_map_key
props C08
ret r
requires $1 is Enter,
ensures
    r is Ok ==> skip(r) && ok_key((*$2)) && pushed(*old(self), *final(self), GS::Ty(gt_key((*$2)))),
    r is Err ==> !ok_key((*$2)),
decreases $2, 0int

==== fn NodeTypeMapKey::visit
props C08
ret r
ensures
    r is Ok ==> ok_key((*self)) && pushed(*old($1), *final($1), GS::Ty(gt_key((*self)))),
    r is Err ==> !ok_key((*self)),
decreases self, 1int

==== fn WithMetaData<NodeTypeMapKey>::visit
props C08
ret r
ensures
    r is Ok ==> ok_key(self.node) && pushed(*old($1), *final($1), GS::Ty(gt_key(self.node))),
    r is Err ==> !ok_key(self.node),
decreases self, 1int

==== fn SrEmitter::emit_type_map_value
props C08
ret r
requires $1 is Enter,
ensures
    r is Ok ==> skip(r) && ok_val((*$2)) && pushed(*old(self), *final(self), GS::Ty(gt_val((*$2)))),
    r is Err ==> !ok_val((*$2)),
decreases $2, 0int

==== fn NodeTypeMapValue::visit
props C08
ret r
ensures
    r is Ok ==> ok_val((*self)) && pushed(*old($1), *final($1), GS::Ty(gt_val((*self)))),
    r is Err ==> !ok_val((*self)),
decreases self, 1int

==== fn WithMetaData<NodeTypeMapValue>::visit
props C08
ret r
ensures
    r is Ok ==> ok_val(self.node) && pushed(*old($1), *final($1), GS::Ty(gt_val(self.node))),
    r is Err ==> !ok_val(self.node),
decreases self, 1int

==== fn SrEmitter::emit_type_argument
props C08
ret r
requires $1 is Enter,
ensures
    r is Ok ==> skip(r) && ok_ta((*$2)) && pushed(*old(self), *final(self), GS::Ty(gt_ta((*$2)))),
    r is Err ==> !ok_ta((*$2)),
decreases $2, 0int

==== fn NodeTypeArgument::visit
props C08
ret r
ensures
    r is Ok ==> ok_ta((*self)) && pushed(*old($1), *final($1), GS::Ty(gt_ta((*self)))),
    r is Err ==> !ok_ta((*self)),
decreases self, 1int

==== fn WithMetaData<NodeTypeArgument>::visit
props C08
ret r
ensures
    r is Ok ==> ok_ta(self.node) && pushed(*old($1), *final($1), GS::Ty(gt_ta(self.node))),
    r is Err ==> !ok_ta(self.node),
decreases self, 1int

==== fn SrEmitter::emit_scilla_type
props C08
ret r
requires $1 is Enter,
ensures
    r is Ok ==> skip(r) && ok_st((*$2)) && pushed(*old(self), *final(self), GS::Ty(gt_st((*$2)))),
    r is Err ==> !ok_st((*$2)),
decreases $2, 0int

==== fn NodeScillaType::visit
props C08
ret r
ensures
    r is Ok ==> ok_st((*self)) && pushed(*old($1), *final($1), GS::Ty(gt_st((*self)))),
    r is Err ==> !ok_st((*self)),
decreases self, 1int

==== fn WithMetaData<NodeScillaType>::visit
props C08
ret r
ensures
    r is Ok ==> ok_st(self.node) && pushed(*old($1), *final($1), GS::Ty(gt_st(self.node))),
    r is Err ==> !ok_st(self.node),
decreases self, 1int

==== fn SrEmitter::emit_type_map_entry
props C08
ret r
ensures
    cont(r),
    same(*old(self), *final(self)),
decreases $2, 0int

==== fn NodeTypeMapEntry::visit
props C08
ret r
ensures
    r is Ok ==> ok_key((*self).key.node) && ok_val((*self).value.node) && vc(*final($1)) == vc(*old($1)) && st(*final($1)) == st(*old($1)).push(GS::Ty(gt_key((*self).key.node))).push(GS::Ty(gt_val((*self).value.node))),
    r is Err ==> !(ok_key((*self).key.node) && ok_val((*self).value.node)),
decreases self, 1int

==== fn WithMetaData<NodeTypeMapEntry>::visit
props C08
ret r
ensures
    r is Ok ==> ok_key(self.node.key.node) && ok_val(self.node.value.node) && vc(*final($1)) == vc(*old($1)) && st(*final($1)) == st(*old($1)).push(GS::Ty(gt_key(self.node.key.node))).push(GS::Ty(gt_val(self.node.value.node))),
    r is Err ==> !(ok_key(self.node.key.node) && ok_val(self.node.value.node)),
decreases self, 1int

==== fn SrEmitter::emit_address_type_field
props C08
ret r
requires $1 is Enter,
ensures
    r is Ok ==> skip(r) && ok_atf((*$2)) && pushed(*old(self), *final(self), GS::Var(gf_atf((*$2)))),
    r is Err ==> !ok_atf((*$2)),
decreases $2, 0int

==== fn NodeAddressTypeField::visit
props C08
ret r
ensures
    r is Ok ==> ok_atf((*self)) && pushed(*old($1), *final($1), GS::Var(gf_atf((*self)))),
    r is Err ==> !ok_atf((*self)),
decreases self, 1int

==== fn WithMetaData<NodeAddressTypeField>::visit
props C08
ret r
ensures
    r is Ok ==> ok_atf(self.node) && pushed(*old($1), *final($1), GS::Var(gf_atf(self.node))),
    r is Err ==> !ok_atf(self.node),
decreases self, 1int

==== fn SrEmitter::emit_address_type
props C08
ret r
requires $1 is Enter,
ensures
    r is Ok ==> skip(r) && ok_at((*$2)) && pushed(*old(self), *final(self), GS::Ty(gt_at((*$2)))),
    r is Err ==> !ok_at((*$2)),
decreases $2, 0int

==== fn NodeAddressType::visit
props C08
ret r
ensures
    r is Ok ==> ok_at((*self)) && pushed(*old($1), *final($1), GS::Ty(gt_at((*self)))),
    r is Err ==> !ok_at((*self)),
decreases self, 1int

==== fn WithMetaData<NodeAddressType>::visit
props C08
ret r
ensures
    r is Ok ==> ok_at(self.node) && pushed(*old($1), *final($1), GS::Ty(gt_at(self.node))),
    r is Err ==> !ok_at(self.node),
decreases self, 1int

==== fn SrEmitter::emit_full_expression
props C16
ret r
requires $1 is Enter,
ensures
    skip(r),
    same(*old(self), *final(self)),
decreases $2, 0int

==== fn NodeFullExpression::visit
props C16
ret r
ensures
    r is Ok,
    same(*old($1), *final($1)),
decreases self, 1int

==== fn WithMetaData<NodeFullExpression>::visit
props C16
ret r
ensures
    r is Ok,
    same(*old($1), *final($1)),
decreases self, 1int

==== fn SrEmitter::emit_component_id
props C07
ret r
requires $1 is Enter,
ensures
    skip(r),
    pushed(*old(self), *final(self), GS::Id(name_cid((*$2)), SrIdentifierKind::ComponentName)),
decreases $2, 0int

==== fn NodeComponentId::visit
props C07
ret r
ensures
    r is Ok,
    pushed(*old($1), *final($1), GS::Id(name_cid((*self)), SrIdentifierKind::ComponentName)),
decreases self, 1int

==== fn WithMetaData<NodeComponentId>::visit
props C07
ret r
ensures
    r is Ok,
    pushed(*old($1), *final($1), GS::Id(name_cid(self.node), SrIdentifierKind::ComponentName)),
decreases self, 1int

==== fn SrEmitter::emit_component_parameters
props C05
ret r
ensures
    $1 is Enter && r is Ok ==> ok_params((*$2).parameters@) && vc(*final(self)) == (GC { init: vc(*old(self)).init + gf_params((*$2).parameters@), ..vc(*old(self)) }),
    $1 is Enter && r is Err ==> !ok_params((*$2).parameters@),
    $1 is Exit ==> r is Ok && vc(*final(self)) == vc(*old(self)),
decreases $2, 0int

==== fn NodeComponentParameters::visit
props C05
ret r
ensures
    r is Ok ==> ok_params((*self).parameters@) && vc(*final($1)) == (GC { init: vc(*old($1)).init + gf_params((*self).parameters@), ..vc(*old($1)) }),
    r is Err ==> !ok_params((*self).parameters@),
decreases self, 1int

==== fn WithMetaData<NodeComponentParameters>::visit
props C05
ret r
ensures
    r is Ok ==> ok_params(self.node.parameters@) && vc(*final($1)) == (GC { init: vc(*old($1)).init + gf_params(self.node.parameters@), ..vc(*old($1)) }),
    r is Err ==> !ok_params(self.node.parameters@),
decreases self, 1int

==== fn SrEmitter::emit_parameter_pair
props C05 C07
ret r
ensures
    cont(r),
    same(*old(self), *final(self)),
decreases $2, 0int

==== fn NodeParameterPair::visit
props C05 C07
ret r
ensures
    r is Ok ==> ok_pp((*self)) && pushed(*old($1), *final($1), GS::Var(gf_pp((*self)))),
    r is Err ==> !ok_pp((*self)),
decreases self, 1int

==== fn WithMetaData<NodeParameterPair>::visit
props C05 C07
ret r
ensures
    r is Ok ==> ok_pp(self.node) && pushed(*old($1), *final($1), GS::Var(gf_pp(self.node))),
    r is Err ==> !ok_pp(self.node),
decreases self, 1int

==== fn SrEmitter::emit_typed_identifier
props C05 C06 C07
ret r
requires $1 is Enter,
ensures
    r is Ok ==> skip(r) && ok_ti((*$2)) && pushed(*old(self), *final(self), GS::Var(gf_ti((*$2)))),
    r is Err ==> !ok_ti((*$2)),
decreases $2, 0int

==== fn NodeTypedIdentifier::visit
props C05 C06 C07
ret r
ensures
    r is Ok ==> ok_ti((*self)) && pushed(*old($1), *final($1), GS::Var(gf_ti((*self)))),
    r is Err ==> !ok_ti((*self)),
decreases self, 1int

==== fn WithMetaData<NodeTypedIdentifier>::visit
props C05 C06 C07
ret r
ensures
    r is Ok ==> ok_ti(self.node) && pushed(*old($1), *final($1), GS::Var(gf_ti(self.node))),
    r is Err ==> !ok_ti(self.node),
decreases self, 1int

==== fn SrEmitter::emit_type_annotation
props C08
ret r
ensures
    cont(r),
    same(*old(self), *final(self)),
decreases $2, 0int

==== fn NodeTypeAnnotation::visit
props C08
ret r
ensures
    r is Ok ==> ok_st((*self).type_name.node) && pushed(*old($1), *final($1), GS::Ty(gt_st((*self).type_name.node))),
    r is Err ==> !ok_st((*self).type_name.node),
decreases self, 1int

==== fn WithMetaData<NodeTypeAnnotation>::visit
props C08
ret r
ensures
    r is Ok ==> ok_st(self.node.type_name.node) && pushed(*old($1), *final($1), GS::Ty(gt_st(self.node.type_name.node))),
    r is Err ==> !ok_st(self.node.type_name.node),
decreases self, 1int

==== fn SrEmitter::emit_contract_definition
props C05 C06 C07
ret r
requires $1 is Enter,
ensures
    r is Ok ==> skip(r) && ok_cd((*$2)) && vc(*final(self)) == gc_cd(vc(*old(self)), (*$2)),
    r is Err ==> !ok_cd((*$2)),
decreases $2, 0int

==== fn NodeContractDefinition::visit
props C05 C06 C07
ret r
ensures
    r is Ok ==> ok_cd((*self)) && vc(*final($1)) == gc_cd(vc(*old($1)), (*self)),
    r is Err ==> !ok_cd((*self)),
decreases self, 1int

==== fn WithMetaData<NodeContractDefinition>::visit
props C05 C06 C07
ret r
ensures
    r is Ok ==> ok_cd(self.node) && vc(*final($1)) == gc_cd(vc(*old($1)), self.node),
    r is Err ==> !ok_cd(self.node),
decreases self, 1int

==== fn SrEmitter::emit_contract_field
props C06
ret r
requires $1 is Enter,
ensures
    r is Ok ==> skip(r) && ok_ti((*$2).typed_identifier.node) && vc(*final(self)) == (GC { fields: vc(*old(self)).fields.push(gf_ti((*$2).typed_identifier.node)), ..vc(*old(self)) }),
    r is Err ==> !ok_ti((*$2).typed_identifier.node),
decreases $2, 0int

==== fn NodeContractField::visit
props C06
ret r
ensures
    r is Ok ==> ok_ti((*self).typed_identifier.node) && vc(*final($1)) == (GC { fields: vc(*old($1)).fields.push(gf_ti((*self).typed_identifier.node)), ..vc(*old($1)) }),
    r is Err ==> !ok_ti((*self).typed_identifier.node),
decreases self, 1int

==== fn WithMetaData<NodeContractField>::visit
props C06
ret r
ensures
    r is Ok ==> ok_ti(self.node.typed_identifier.node) && vc(*final($1)) == (GC { fields: vc(*old($1)).fields.push(gf_ti(self.node.typed_identifier.node)), ..vc(*old($1)) }),
    r is Err ==> !ok_ti(self.node.typed_identifier.node),
decreases self, 1int

==== fn SrEmitter::emit_with_constraint
props C16
ret r
ensures
    r is Ok,
    same(*old(self), *final(self)),
decreases $2, 0int

==== fn NodeWithConstraint::visit
props C16
ret r
ensures
    r is Ok,
    same(*old($1), *final($1)),
decreases self, 1int

==== fn WithMetaData<NodeWithConstraint>::visit
props C16
ret r
ensures
    r is Ok,
    same(*old($1), *final($1)),
decreases self, 1int

==== prelude
spec fn gc_comp(c: GC, n: NodeComponentDefinition) -> GC {
    match n {
        NodeComponentDefinition::TransitionComponent(t) => GC { transitions: c.transitions.push(gtr(t.node)), ..c },
        NodeComponentDefinition::ProcedureComponent(_) => c,
    }
}

==== fn SrEmitter::emit_component_definition
props C07
ret r
ensures
    r is Ok,
    $1 is Enter ==> cont(r),
    same(*old(self), *final(self)),
decreases $2, 0int

==== fn NodeComponentDefinition::visit
props C07
ret r
ensures
    r is Ok ==> ok_comp((*self)) && vc(*final($1)) == gc_comp(vc(*old($1)), (*self)),
    r is Err ==> !ok_comp((*self)),
decreases self, 1int

==== fn WithMetaData<NodeComponentDefinition>::visit
props C07
ret r
ensures
    r is Ok ==> ok_comp(self.node) && vc(*final($1)) == gc_comp(vc(*old($1)), self.node),
    r is Err ==> !ok_comp(self.node),
decreases self, 1int

==== fn SrEmitter::emit_procedure_definition
props C07 C16
ret r
requires $1 is Enter,
ensures
    skip(r),
    same(*old(self), *final(self)),
decreases $2, 0int

==== fn NodeProcedureDefinition::visit
props C07 C16
ret r
ensures
    r is Ok,
    same(*old($1), *final($1)),
decreases self, 1int

==== fn WithMetaData<NodeProcedureDefinition>::visit
props C07 C16
ret r
ensures
    r is Ok,
    same(*old($1), *final($1)),
decreases self, 1int

==== fn SrEmitter::emit_transition_definition
props C07
ret r
requires $1 is Enter,
ensures
    r is Ok ==> skip(r) && ok_params((*$2).parameters.node.parameters@) && vc(*final(self)) == (GC { transitions: vc(*old(self)).transitions.push(gtr((*$2))), ..vc(*old(self)) }),
    r is Err ==> !ok_params((*$2).parameters.node.parameters@),
decreases $2, 0int

==== fn NodeTransitionDefinition::visit
props C07
ret r
ensures
    r is Ok ==> ok_params((*self).parameters.node.parameters@) && vc(*final($1)) == (GC { transitions: vc(*old($1)).transitions.push(gtr((*self))), ..vc(*old($1)) }),
    r is Err ==> !ok_params((*self).parameters.node.parameters@),
decreases self, 1int

==== fn WithMetaData<NodeTransitionDefinition>::visit
props C07
ret r
ensures
    r is Ok ==> ok_params(self.node.parameters.node.parameters@) && vc(*final($1)) == (GC { transitions: vc(*old($1)).transitions.push(gtr(self.node)), ..vc(*old($1)) }),
    r is Err ==> !ok_params(self.node.parameters.node.parameters@),
decreases self, 1int

==== fn SrEmitter::emit_type_map_value_arguments
props C08
ret r
requires $1 is Enter,
ensures
    r is Ok ==> skip(r) && ok_va((*$2)) && pushed(*old(self), *final(self), GS::Ty(gt_va((*$2)))),
    r is Err ==> !ok_va((*$2)),
decreases $2, 0int

==== fn NodeTypeMapValueArguments::visit
props C08
ret r
ensures
    r is Ok ==> ok_va((*self)) && pushed(*old($1), *final($1), GS::Ty(gt_va((*self)))),
    r is Err ==> !ok_va((*self)),
decreases self, 1int

==== fn WithMetaData<NodeTypeMapValueArguments>::visit
props C08
ret r
ensures
    r is Ok ==> ok_va(self.node) && pushed(*old($1), *final($1), GS::Ty(gt_va(self.node))),
    r is Err ==> !ok_va(self.node),
decreases self, 1int

==== fn SrEmitter::emit_type_map_value_allowing_type_arguments
props C08
ret r
requires $1 is Enter,
ensures
    r is Ok ==> skip(r) && ok_vata((*$2)) && pushed(*old(self), *final(self), GS::Ty(gt_vata((*$2)))),
    r is Err ==> !ok_vata((*$2)),
decreases $2, 0int

==== fn NodeTypeMapValueAllowingTypeArguments::visit
props C08
ret r
ensures
    r is Ok ==> ok_vata((*self)) && pushed(*old($1), *final($1), GS::Ty(gt_vata((*self)))),
    r is Err ==> !ok_vata((*self)),
decreases self, 1int

==== fn WithMetaData<NodeTypeMapValueAllowingTypeArguments>::visit
props C08
ret r
ensures
    r is Ok ==> ok_vata(self.node) && pushed(*old($1), *final($1), GS::Ty(gt_vata(self.node))),
    r is Err ==> !ok_vata(self.node),
decreases self, 1int

==== fn SrEmitter::emit
props C05 C06 C07 C16
ret r
ensures
    r is Ok <==> ok_cd($1.contract_definition.node),
    r is Ok ==> v_contract(r->Ok_0) == gc_cd(vc(self), $1.contract_definition.node),

==== fn SrEmitter::emit_imported_name, SrEmitter::emit_import_declarations, SrEmitter::emit_builtin_arguments, SrEmitter::emit_message_entry, SrEmitter::emit_pattern_match_expression_clause, SrEmitter::emit_atomic_expression, SrEmitter::emit_contract_type_arguments, SrEmitter::emit_value_literal, SrEmitter::emit_map_access, SrEmitter::emit_pattern, SrEmitter::emit_argument_pattern, SrEmitter::emit_pattern_match_clause, SrEmitter::emit_blockchain_fetch_arguments, SrEmitter::emit_statement, SrEmitter::emit_remote_fetch_statement, SrEmitter::emit_component_body, SrEmitter::emit_statement_block, SrEmitter::emit_program, SrEmitter::emit_library_definition, SrEmitter::emit_library_single_definition, SrEmitter::emit_type_alternative_clause
props C04
requires false
decreases $2, 0int
==== fn NodeImportedName::visit, WithMetaData<NodeImportedName>::visit, NodeImportDeclarations::visit, WithMetaData<NodeImportDeclarations>::visit, NodeBuiltinArguments::visit, WithMetaData<NodeBuiltinArguments>::visit, NodeMessageEntry::visit, WithMetaData<NodeMessageEntry>::visit, NodePatternMatchExpressionClause::visit, WithMetaData<NodePatternMatchExpressionClause>::visit, NodeAtomicExpression::visit, WithMetaData<NodeAtomicExpression>::visit, NodeContractTypeArguments::visit, WithMetaData<NodeContractTypeArguments>::visit, NodeValueLiteral::visit, WithMetaData<NodeValueLiteral>::visit, NodeMapAccess::visit, WithMetaData<NodeMapAccess>::visit, NodePattern::visit, WithMetaData<NodePattern>::visit, NodeArgumentPattern::visit, WithMetaData<NodeArgumentPattern>::visit, NodePatternMatchClause::visit, WithMetaData<NodePatternMatchClause>::visit, NodeBlockchainFetchArguments::visit, NodeStatement::visit, NodeRemoteFetchStatement::visit, NodeComponentBody::visit, WithMetaData<NodeComponentBody>::visit, NodeStatementBlock::visit, WithMetaData<NodeStatementBlock>::visit, NodeProgram::visit, NodeLibraryDefinition::visit, WithMetaData<NodeLibraryDefinition>::visit, NodeLibrarySingleDefinition::visit, WithMetaData<NodeLibrarySingleDefinition>::visit, NodeTypeAlternativeClause::visit, WithMetaData<NodeTypeAlternativeClause>::visit
props C04
requires false
decreases self, 1int

==== add SrEmitter::emit_scilla_type
---- for:0
    st(*self) == st(*old(self)), vc(*self) == vc(*old(self)),
    v_sr($m0).main == (*$2)->GenericTypeWithArgs_0.node.text(), v_sr($m0).addr is None,
    v_sr($m0).subs.len() == __i0,
    forall|j: int| 0 <= j < __i0 ==> ok_ta(#[trigger] __it0@[j].node),
    forall|j: int| 0 <= j < __i0 ==> v_sr($m0).subs[j] == gt_ta((#[trigger] __it0@[j]).node),
---- after:0
assert(v_sr($m0).subs =~= gt_tas(*__it0));

==== add SrEmitter::emit_type_map_value_allowing_type_arguments
---- for:0
    st(*self) == st(*old(self)), vc(*self) == vc(*old(self)),
    v_sr($m0).main == (*$2)->TypeMapValueWithArgs_0.node.text(), v_sr($m0).addr is None,
    v_sr($m0).subs.len() == __i0,
    forall|j: int| 0 <= j < __i0 ==> ok_va(#[trigger] __it0@[j].node),
    forall|j: int| 0 <= j < __i0 ==> v_sr($m0).subs[j] == gt_va((#[trigger] __it0@[j]).node),
---- after:0
assert(v_sr($m0).subs =~= gt_vas(*__it0));

==== add SrEmitter::emit_address_type
---- for:0
    st(*self) == st(*old(self)), vc(*self) == vc(*old(self)),
    $m1@.len() == __i0,
    forall|j: int| 0 <= j < __i0 ==> ok_atf(#[trigger] __it0@[j].node),
    forall|j: int| 0 <= j < __i0 ==> v_field(#[trigger] $m1@[j]) == gf_atf(__it0@[j].node),
---- after:0
assert(v_fields($m1) =~= gf_atfs(*__it0));
==== add SrEmitter::emit_component_parameters
---- enter:0
assert(vc(*old(self)).init + gf_params(__it0@.take(0)) =~= vc(*old(self)).init);
---- for:0
    vc(*self) == (GC { init: vc(*old(self)).init + gf_params(__it0@.take(__i0 as int)), ..vc(*old(self)) }),
    forall|j: int| 0 <= j < __i0 ==> ok_pp(#[trigger] __it0@[j].node),
---- next:0
assert(vc(*old(self)).init + gf_params(__it0@.take(__i0 as int)) =~= (vc(*old(self)).init + gf_params(__it0@.take(__i0 - 1))).push(gf_pp(__it0@[__i0 - 1].node)));
---- after:0
assert(__it0@.take(__it0@.len() as int) =~= __it0@);
==== add NodeComponentParameters::visit
---- enter:0
let ghost vx_c0 = vc(*$1);
---- for:0
    vc(*$1) == vx_c0,
==== add SrEmitter::emit_contract_definition
---- enter:0
let ghost vx_c0 = vc(*self);
assert(vx_c0.fields + gf_fields(__it0@.take(0)) =~= vx_c0.fields);
---- for:0
    vc(*self) == (GC { fields: vx_c0.fields + gf_fields(__it0@.take(__i0 as int)), ..vx_c0 }),
    forall|j: int| 0 <= j < __i0 ==> ok_ti(#[trigger] __it0@[j].node.typed_identifier.node),
---- next:0
assert(vx_c0.fields + gf_fields(__it0@.take(__i0 as int)) =~= (vx_c0.fields + gf_fields(__it0@.take(__i0 - 1))).push(gf_ti(__it0@[__i0 - 1].node.typed_identifier.node)));
---- after:0
assert(__it0@.take(__it0@.len() as int) =~= __it0@);
---- enter:1
let ghost vx_c1 = vc(*self);
assert(vx_c1.transitions + gtr_comps(__it1@.take(0)) =~= vx_c1.transitions);
---- for:1
    vc(*self) == (GC { transitions: vx_c1.transitions + gtr_comps(__it1@.take(__i1 as int)), ..vx_c1 }),
    forall|j: int| 0 <= j < __i1 ==> ok_comp(#[trigger] __it1@[j].node),
---- next:1
proof {
    let s = __it1@.take(__i1 as int);
    assert(s.drop_last() =~= __it1@.take(__i1 - 1));
    assert(s.last() == __it1@[__i1 - 1]);
    assert(vx_c1.transitions + gtr_comps(s) =~= gc_comp(GC { transitions: vx_c1.transitions + gtr_comps(s.drop_last()), ..vx_c1 }, s.last().node).transitions);
}
---- after:1
assert(__it1@.take(__it1@.len() as int) =~= __it1@);
==== add SrEmitter::emit_transition_definition
---- for:0
    pushed(*old(self), *self, GS::Id(name_cid((*$2).name.node), SrIdentifierKind::ComponentName)),
    $v0@.len() == __i0,
    forall|j: int| 0 <= j < __i0 ==> ok_pp(#[trigger] __it0@[j].node),
    forall|j: int| 0 <= j < __i0 ==> v_field(#[trigger] $v0@[j]) == gf_pp(__it0@[j].node),
---- after:0
assert(v_fields($v0) =~= gf_params(__it0@));
==== prelude
broadcast proof fn gt_tas_def(v: Vec<WithMetaData<NodeTypeArgument>>)
    ensures (#[trigger] gt_tas(v)).len() == v@.len(), v@.len() == 0 ==> gt_tas(v) == Seq::<GT>::empty(),
{ if v@.len() == 0 { assert(gt_tas(v) =~= Seq::<GT>::empty()); } }
broadcast proof fn gt_vas_def(v: Vec<WithMetaData<NodeTypeMapValueArguments>>)
    ensures (#[trigger] gt_vas(v)).len() == v@.len(), v@.len() == 0 ==> gt_vas(v) == Seq::<GT>::empty(),
{ if v@.len() == 0 { assert(gt_vas(v) =~= Seq::<GT>::empty()); } }
broadcast proof fn gt_st_noargs(n: NodeScillaType)
    requires n is GenericTypeWithArgs, n->GenericTypeWithArgs_1@.len() == 0,
    ensures #[trigger] gt_st(n) == leaf(n->GenericTypeWithArgs_0.node.text()),
{ gt_tas_def(n->GenericTypeWithArgs_1); }
broadcast proof fn gt_vata_noargs(n: NodeTypeMapValueAllowingTypeArguments)
    requires n is TypeMapValueWithArgs, n->TypeMapValueWithArgs_1@.len() == 0,
    ensures #[trigger] gt_vata(n) == leaf(n->TypeMapValueWithArgs_0.node.text()),
{ gt_vas_def(n->TypeMapValueWithArgs_1); }

==== loops ::visit
---- for
true, // ret: anything
