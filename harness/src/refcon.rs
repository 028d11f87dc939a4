//! Reference meaning: the contract interface a tree declares.
use scilla_parser::ast::nodes::*;
use scilla_parser::{Contract, Field, FieldList, Transition, TransitionList, Type};

type R<T> = Result<T, ()>;

pub fn tn(n: &NodeTypeNameIdentifier) -> String {
    match n {
        NodeTypeNameIdentifier::ByteStringType(NodeByteStr::Type(s) | NodeByteStr::Constant(s)) => s.node.clone(),
        NodeTypeNameIdentifier::EventType => "Event".into(),
        NodeTypeNameIdentifier::TypeOrEnumLikeIdentifier(s) => s.node.clone(),
    }
}
pub fn meta(n: &NodeMetaIdentifier) -> String {
    match n {
        NodeMetaIdentifier::MetaName(a) => tn(&a.node),
        NodeMetaIdentifier::MetaNameInNamespace(a, b) => format!("{}.{}", tn(&a.node), tn(&b.node)),
        NodeMetaIdentifier::MetaNameInHexspace(a, b) => format!("{}.{}", a.node, tn(&b.node)),
        NodeMetaIdentifier::ByteString => "ByStr".into(),
    }
}
pub fn var(n: &NodeVariableIdentifier) -> String {
    match n {
        NodeVariableIdentifier::VariableName(s) | NodeVariableIdentifier::SpecialIdentifier(s) => s.node.clone(),
        NodeVariableIdentifier::VariableInNamespace(a, s) => format!("{}.{}", tn(&a.node), s.node),
    }
}
/// The type a name applied to arguments denotes.
fn named(name: String, mut args: Vec<Type>) -> Type {
    let b = |t: Type| Box::new(t);
    match (name.as_str(), args.len()) {
        ("Int32", _) => Type::Int32,
        ("Int64", _) => Type::Int64,
        ("Int128", _) => Type::Int128,
        ("Int256", _) => Type::Int256,
        ("Uint32", _) => Type::Uint32,
        ("Uint64", _) => Type::Uint64,
        ("Uint128", _) => Type::Uint128,
        ("Uint256", _) => Type::Uint256,
        ("String", _) => Type::String,
        ("BNum", _) => Type::BNum,
        ("Bool", _) => Type::Bool,
        ("ByStr", _) => Type::ByStr,
        ("ByStr20", _) => Type::ByStr20,
        ("Option", 1) => Type::Option(b(args.remove(0))),
        ("List", 1) => Type::List(b(args.remove(0))),
        ("Pair", 2) => {
            let y = args.pop().unwrap();
            Type::Pair(b(args.pop().unwrap()), b(y))
        }
        ("Map", 2) => {
            let y = args.pop().unwrap();
            Type::Map(b(args.pop().unwrap()), b(y))
        }
        (n, _) => {
            if let Some(d) = n.strip_prefix("ByStr") {
                if !d.is_empty() && d.bytes().all(|c| c.is_ascii_digit()) {
                    if let Ok(k) = d.parse::<usize>() {
                        return if k == 20 { Type::ByStr20 } else { Type::ByStrX(k) };
                    }
                }
            }
            Type::Other(name)
        }
    }
}
fn map(k: Type, v: Type) -> Type {
    Type::Map(Box::new(k), Box::new(v))
}
fn address(n: &NodeAddressType) -> R<Type> {
    let mut fields = vec![];
    for f in &n.address_fields {
        fields.push(Field { name: var(&f.node.identifier.node), r#type: ty(&f.node.type_name.node)? });
    }
    let name = tn(&n.identifier.node);
    if name == "ByStr20" {
        return Ok(Type::ByStr20With { type_name: n.type_name.node.clone(), fields: FieldList(fields) });
    }
    Ok(named(name, vec![]))
}
pub fn ty(n: &NodeScillaType) -> R<Type> {
    match n {
        NodeScillaType::GenericTypeWithArgs(m, a) => {
            let mut v = vec![];
            for x in a {
                v.push(arg(&x.node)?);
            }
            Ok(named(meta(&m.node), v))
        }
        NodeScillaType::MapType(k, v) => Ok(map(key(&k.node)?, value(&v.node)?)),
        NodeScillaType::EnclosedType(t) => ty(&t.node),
        NodeScillaType::ScillaAddresseType(a) => address(&a.node),
        NodeScillaType::FunctionType(..) | NodeScillaType::PolyFunctionType(..) | NodeScillaType::TypeVarType(_) => Err(()),
    }
}
fn arg(n: &NodeTypeArgument) -> R<Type> {
    match n {
        NodeTypeArgument::EnclosedTypeArgument(t) => ty(&t.node),
        NodeTypeArgument::GenericTypeArgument(m) => Ok(named(meta(&m.node), vec![])),
        NodeTypeArgument::TemplateTypeArgument(_) => Err(()),
        NodeTypeArgument::AddressTypeArgument(a) => address(&a.node),
        NodeTypeArgument::MapTypeArgument(k, v) => Ok(map(key(&k.node)?, value(&v.node)?)),
    }
}
fn key(n: &NodeTypeMapKey) -> R<Type> {
    match n {
        NodeTypeMapKey::GenericMapKey(m) | NodeTypeMapKey::EnclosedGenericId(m) => Ok(named(meta(&m.node), vec![])),
        NodeTypeMapKey::EnclosedAddressMapKeyType(a) | NodeTypeMapKey::AddressMapKeyType(a) => address(&a.node),
    }
}
fn value(n: &NodeTypeMapValue) -> R<Type> {
    match n {
        NodeTypeMapValue::MapValueTypeOrEnumLikeIdentifier(m) => Ok(named(meta(&m.node), vec![])),
        NodeTypeMapValue::MapKeyValue(e) => Ok(map(key(&e.node.key.node)?, value(&e.node.value.node)?)),
        NodeTypeMapValue::MapValueParenthesizedType(t) => value_args(&t.node),
        NodeTypeMapValue::MapValueAddressType(a) => address(&a.node),
    }
}
fn value_args(n: &NodeTypeMapValueAllowingTypeArguments) -> R<Type> {
    match n {
        NodeTypeMapValueAllowingTypeArguments::TypeMapValueNoArgs(v) => value(&v.node),
        NodeTypeMapValueAllowingTypeArguments::TypeMapValueWithArgs(m, a) => {
            let mut v = vec![];
            for x in a {
                v.push(match &x.node {
                    NodeTypeMapValueArguments::EnclosedTypeMapValue(t) => value_args(&t.node)?,
                    NodeTypeMapValueArguments::GenericMapValueArgument(m) => named(meta(&m.node), vec![]),
                    NodeTypeMapValueArguments::MapKeyValueType(k, v) => map(key(&k.node)?, value(&v.node)?),
                });
            }
            Ok(named(meta(&m.node), v))
        }
    }
}
fn params(p: &NodeComponentParameters) -> R<FieldList> {
    let mut v = vec![];
    for x in &p.parameters {
        let t = &x.node.identifier_with_type.node;
        v.push(Field { name: t.identifier_name.node.clone(), r#type: ty(&t.annotation.node.type_name.node)? });
    }
    Ok(FieldList(v))
}
pub fn contract(p: &NodeProgram) -> R<Contract> {
    let c = &p.contract_definition.node;
    let mut fields = vec![];
    for f in &c.fields {
        let t = &f.node.typed_identifier.node;
        fields.push(Field { name: t.identifier_name.node.clone(), r#type: ty(&t.annotation.node.type_name.node)? });
    }
    let mut transitions = vec![];
    for x in &c.components {
        if let NodeComponentDefinition::TransitionComponent(t) = &x.node {
            let name = match &t.node.name.node {
                NodeComponentId::WithTypeLikeName(n) => tn(&n.node),
                NodeComponentId::WithRegularId(s) => s.node.clone(),
            };
            transitions.push(Transition { name, params: params(&t.node.parameters.node)? });
        }
    }
    Ok(Contract { name: tn(&c.contract_name.node), init_params: params(&c.parameters.node)?, fields: FieldList(fields), transitions: TransitionList(transitions) })
}

/// Scilla notation of a type.
pub fn show(t: &Type) -> String {
    match t {
        Type::Int32 => "Int32".into(),
        Type::Int64 => "Int64".into(),
        Type::Int128 => "Int128".into(),
        Type::Int256 => "Int256".into(),
        Type::Uint32 => "Uint32".into(),
        Type::Uint64 => "Uint64".into(),
        Type::Uint128 => "Uint128".into(),
        Type::Uint256 => "Uint256".into(),
        Type::String => "String".into(),
        Type::BNum => "BNum".into(),
        Type::Bool => "Bool".into(),
        Type::ByStr => "ByStr".into(),
        Type::ByStr20 => "ByStr20".into(),
        Type::ByStrX(n) => format!("ByStr{}", n),
        Type::Map(a, b) => format!("(Map {} {})", show(a), show(b)),
        Type::Pair(a, b) => format!("(Pair {} {})", show(a), show(b)),
        Type::Option(a) => format!("(Option {})", show(a)),
        Type::List(a) => format!("(List {})", show(a)),
        Type::ByStr20With { type_name, fields } => {
            let mut s = String::from("(ByStr20 with");
            if !type_name.is_empty() {
                s.push(' ');
                s.push_str(type_name);
            }
            let fs: Vec<String> = fields.0.iter().map(|f| format!(" field {}: {}", f.name, show(&f.r#type))).collect();
            s.push_str(&fs.join(","));
            s.push_str(" end)");
            s
        }
        Type::Other(n) => n.clone(),
    }
}
