//! Reference parser: recursive descent over the documented grammar, building the expected tree with
//! the expected positions. Independent of the grammar file under test.
use crate::reflex::Tok;
use scilla_parser::ast::nodes::*;
use scilla_parser::parser::lexer::{SourcePosition, Token};

pub struct P<'a> {
    t: &'a [Tok<'a>],
    i: usize,
}
type R<T> = Result<T, ()>;
type W<T> = WithMetaData<T>;
type K<'a> = Token<&'a str>;

pub fn parse(t: &[Tok]) -> R<NodeProgram> {
    let mut p = P { t, i: 0 };
    let r = p.program()?;
    if p.i == t.len() {
        Ok(r)
    } else {
        Err(())
    }
}

impl<'a> P<'a> {
    fn peek(&self, k: usize) -> Option<&K<'a>> {
        self.t.get(self.i + k).map(|x| &x.1)
    }
    fn at(&self, k: &K) -> bool {
        self.peek(0) == Some(k)
    }
    fn eat(&mut self, k: &K) -> bool {
        if self.at(k) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, k: &K) -> R<()> {
        if self.eat(k) {
            Ok(())
        } else {
            Err(())
        }
    }
    fn w<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<W<T>> {
        let s = self.i;
        let node = f(self)?;
        assert!(self.i > s);
        Ok(WithMetaData { node, start: self.t[s].0, end: self.t[self.i - 1].2 })
    }
    fn text(&mut self, f: impl Fn(&K<'a>) -> Option<&'a str>) -> R<W<String>> {
        let t = self.peek(0).ok_or(())?;
        let s = f(t).ok_or(())?.to_string();
        let (start, _, end) = self.t[self.i].clone();
        self.i += 1;
        Ok(WithMetaData { node: s, start, end })
    }
    fn is_regular(&self, k: usize) -> bool {
        matches!(self.peek(k), Some(Token::Identifier(_)))
    }
    fn is_special(&self, k: usize) -> bool {
        matches!(self.peek(k), Some(Token::SpecialIdentifier(_)))
    }
    fn is_tn(&self, k: usize) -> bool {
        matches!(self.peek(k), Some(Token::ByStrWithSize(_) | Token::EventType | Token::CustomIdentifier(_)))
    }
    fn is_hex(&self) -> bool {
        matches!(self.peek(0), Some(Token::HexNumber(_)))
    }
    fn is_meta(&self) -> bool {
        self.is_tn(0) || self.at(&Token::ByStr) || self.is_hex()
    }
    fn is_var(&self) -> bool {
        self.is_regular(0) || self.is_special(0) || (self.is_tn(0) && self.peek(1) == Some(&Token::Dot) && self.is_regular(2))
    }
    fn is_address(&self) -> bool {
        self.is_tn(0) && self.peek(1) == Some(&Token::With)
    }
    fn regular(&mut self) -> R<W<String>> {
        self.text(|t| match t {
            Token::Identifier(s) => Some(*s),
            _ => None,
        })
    }
    fn special(&mut self) -> R<W<String>> {
        self.text(|t| match t {
            Token::SpecialIdentifier(s) => Some(*s),
            _ => None,
        })
    }
    fn template(&mut self) -> R<W<String>> {
        self.text(|t| match t {
            Token::TemplateIdentifier(s) => Some(*s),
            _ => None,
        })
    }
    fn number(&mut self) -> R<W<String>> {
        self.text(|t| match t {
            Token::Number(s) => Some(*s),
            _ => None,
        })
    }
    fn hex(&mut self) -> R<W<String>> {
        self.text(|t| match t {
            Token::HexNumber(s) => Some(*s),
            _ => None,
        })
    }
    fn string(&mut self) -> R<W<String>> {
        self.text(|t| match t {
            Token::StringLiteral(s) => Some(*s),
            _ => None,
        })
    }
    fn tn(&mut self) -> R<W<NodeTypeNameIdentifier>> {
        self.w(|p| match p.peek(0) {
            Some(Token::EventType) => {
                p.i += 1;
                Ok(NodeTypeNameIdentifier::EventType)
            }
            Some(Token::ByStrWithSize(_)) => {
                let s = p.text(|t| match t {
                    Token::ByStrWithSize(s) => Some(*s),
                    _ => None,
                })?;
                Ok(NodeTypeNameIdentifier::ByteStringType(NodeByteStr::Type(s)))
            }
            _ => {
                let s = p.text(|t| match t {
                    Token::CustomIdentifier(s) => Some(*s),
                    _ => None,
                })?;
                Ok(NodeTypeNameIdentifier::TypeOrEnumLikeIdentifier(s))
            }
        })
    }
    fn meta(&mut self) -> R<W<NodeMetaIdentifier>> {
        self.w(|p| {
            if p.eat(&Token::ByStr) {
                return Ok(NodeMetaIdentifier::ByteString);
            }
            if p.is_hex() {
                let h = p.hex()?;
                p.need(&Token::Dot)?;
                return Ok(NodeMetaIdentifier::MetaNameInHexspace(h, p.tn()?));
            }
            let a = p.tn()?;
            if p.eat(&Token::Dot) {
                return Ok(NodeMetaIdentifier::MetaNameInNamespace(a, p.tn()?));
            }
            Ok(NodeMetaIdentifier::MetaName(a))
        })
    }
    fn var(&mut self) -> R<W<NodeVariableIdentifier>> {
        self.w(|p| {
            if p.is_regular(0) {
                return Ok(NodeVariableIdentifier::VariableName(p.regular()?));
            }
            if p.is_special(0) {
                return Ok(NodeVariableIdentifier::SpecialIdentifier(p.special()?));
            }
            let a = p.tn()?;
            p.need(&Token::Dot)?;
            Ok(NodeVariableIdentifier::VariableInNamespace(a, p.regular()?))
        })
    }
    fn vars(&mut self) -> R<Vec<W<NodeVariableIdentifier>>> {
        let mut v = vec![];
        while self.is_var() {
            v.push(self.var()?);
        }
        Ok(v)
    }
    fn scilla_type(&mut self) -> R<W<NodeScillaType>> {
        let s = self.i;
        let a = self.remaining_type()?;
        if self.eat(&Token::Arrow) {
            let b = self.scilla_type()?;
            return Ok(WithMetaData { node: NodeScillaType::FunctionType(Box::new(a), Box::new(b)), start: self.t[s].0, end: self.t[self.i - 1].2 });
        }
        Ok(a)
    }
    fn remaining_type(&mut self) -> R<W<NodeScillaType>> {
        self.w(|p| {
            if p.is_address() {
                return Ok(NodeScillaType::ScillaAddresseType(Box::new(p.address()?)));
            }
            if p.is_meta() {
                let m = p.meta()?;
                let mut args = vec![];
                while p.is_type_arg() {
                    args.push(p.type_arg()?);
                }
                return Ok(NodeScillaType::GenericTypeWithArgs(m, args));
            }
            match p.peek(0) {
                Some(Token::Map) => {
                    p.i += 1;
                    Ok(NodeScillaType::MapType(p.map_key()?, p.map_value()?))
                }
                Some(Token::OpenParen) => {
                    p.i += 1;
                    let t = p.scilla_type()?;
                    p.need(&Token::CloseParen)?;
                    Ok(NodeScillaType::EnclosedType(Box::new(t)))
                }
                Some(Token::Forall) => {
                    p.i += 1;
                    let v = p.template()?;
                    p.need(&Token::Dot)?;
                    Ok(NodeScillaType::PolyFunctionType(v, Box::new(p.remaining_type()?)))
                }
                _ => Ok(NodeScillaType::TypeVarType(p.template()?)),
            }
        })
    }
    fn is_type_arg(&self) -> bool {
        self.is_meta() || matches!(self.peek(0), Some(Token::OpenParen | Token::Map | Token::TemplateIdentifier(_)))
    }
    fn type_arg(&mut self) -> R<W<NodeTypeArgument>> {
        self.w(|p| {
            if p.is_address() {
                return Ok(NodeTypeArgument::AddressTypeArgument(p.address()?));
            }
            if p.is_meta() {
                return Ok(NodeTypeArgument::GenericTypeArgument(p.meta()?));
            }
            match p.peek(0) {
                Some(Token::OpenParen) => {
                    p.i += 1;
                    let t = p.scilla_type()?;
                    p.need(&Token::CloseParen)?;
                    Ok(NodeTypeArgument::EnclosedTypeArgument(Box::new(t)))
                }
                Some(Token::Map) => {
                    p.i += 1;
                    Ok(NodeTypeArgument::MapTypeArgument(p.map_key()?, p.map_value()?))
                }
                _ => Ok(NodeTypeArgument::TemplateTypeArgument(p.template()?)),
            }
        })
    }
    fn type_args1(&mut self) -> R<Vec<W<NodeTypeArgument>>> {
        let mut v = vec![self.type_arg()?];
        while self.is_type_arg() {
            v.push(self.type_arg()?);
        }
        Ok(v)
    }
    fn address(&mut self) -> R<W<NodeAddressType>> {
        let mut r = self.w(|p| {
            let identifier = p.tn()?;
            p.need(&Token::With)?;
            let none = SourcePosition::start_position();
            let lit = |s: &str, p: &Self| WithMetaData { node: s.to_string(), start: p.t[p.i].0, end: p.t[p.i].2 };
            let mut address_fields = vec![];
            let type_name;
            match p.peek(0) {
                Some(Token::End) => type_name = WithMetaData { node: String::new(), start: none, end: none },
                Some(Token::Library) => {
                    type_name = lit("library", p);
                    p.i += 1;
                }
                Some(Token::SpecialIdentifier(_)) => type_name = p.special()?,
                Some(Token::Contract) => {
                    type_name = lit("contract", p);
                    p.i += 1;
                    if p.at(&Token::Field) {
                        address_fields.push(p.address_field()?);
                        while p.eat(&Token::Comma) {
                            address_fields.push(p.address_field()?);
                        }
                    }
                }
                _ => return Err(()),
            }
            p.need(&Token::End)?;
            Ok(NodeAddressType { identifier, type_name, address_fields })
        })?;
        if r.node.type_name.end.position == 0 {
            // a missing kind carries the span of the whole address type
            r.node.type_name.start = r.start;
            r.node.type_name.end = r.end;
        }
        Ok(r)
    }
    fn address_field(&mut self) -> R<W<NodeAddressTypeField>> {
        self.w(|p| {
            p.need(&Token::Field)?;
            let identifier = p.var()?;
            p.need(&Token::Colon)?;
            Ok(NodeAddressTypeField { identifier, type_name: p.scilla_type()? })
        })
    }
    fn map_key(&mut self) -> R<W<NodeTypeMapKey>> {
        self.w(|p| {
            let paren = p.eat(&Token::OpenParen);
            let r = if p.is_address() {
                let a = p.address()?;
                if paren {
                    NodeTypeMapKey::EnclosedAddressMapKeyType(a)
                } else {
                    NodeTypeMapKey::AddressMapKeyType(a)
                }
            } else {
                let m = p.meta()?;
                if paren {
                    NodeTypeMapKey::EnclosedGenericId(m)
                } else {
                    NodeTypeMapKey::GenericMapKey(m)
                }
            };
            if paren {
                p.need(&Token::CloseParen)?;
            }
            Ok(r)
        })
    }
    fn map_value(&mut self) -> R<W<NodeTypeMapValue>> {
        self.w(|p| {
            if p.is_address() {
                return Ok(NodeTypeMapValue::MapValueAddressType(Box::new(p.address()?)));
            }
            match p.peek(0) {
                Some(Token::Map) => {
                    let s = p.i;
                    p.i += 1;
                    let node = NodeTypeMapEntry { key: p.map_key()?, value: p.map_value()? };
                    let e = WithMetaData { node, start: p.t[s].0, end: p.t[p.i - 1].2 };
                    Ok(NodeTypeMapValue::MapKeyValue(Box::new(e)))
                }
                Some(Token::OpenParen) => {
                    p.i += 1;
                    let t = p.map_value_args()?;
                    p.need(&Token::CloseParen)?;
                    Ok(NodeTypeMapValue::MapValueParenthesizedType(Box::new(t)))
                }
                _ => Ok(NodeTypeMapValue::MapValueTypeOrEnumLikeIdentifier(p.meta()?)),
            }
        })
    }
    fn map_value_args(&mut self) -> R<W<NodeTypeMapValueAllowingTypeArguments>> {
        self.w(|p| {
            if p.is_meta() && !p.is_address() {
                let s = p.i;
                let m = p.meta()?;
                let mut args = vec![];
                while p.is_meta() || matches!(p.peek(0), Some(Token::OpenParen | Token::Map)) {
                    args.push(p.map_value_arg()?);
                }
                if !args.is_empty() {
                    return Ok(NodeTypeMapValueAllowingTypeArguments::TypeMapValueWithArgs(m, args));
                }
                let v = WithMetaData { node: NodeTypeMapValue::MapValueTypeOrEnumLikeIdentifier(m), start: p.t[s].0, end: p.t[p.i - 1].2 };
                return Ok(NodeTypeMapValueAllowingTypeArguments::TypeMapValueNoArgs(v));
            }
            Ok(NodeTypeMapValueAllowingTypeArguments::TypeMapValueNoArgs(p.map_value()?))
        })
    }
    fn map_value_arg(&mut self) -> R<W<NodeTypeMapValueArguments>> {
        self.w(|p| match p.peek(0) {
            Some(Token::OpenParen) => {
                p.i += 1;
                let t = p.map_value_args()?;
                p.need(&Token::CloseParen)?;
                Ok(NodeTypeMapValueArguments::EnclosedTypeMapValue(Box::new(t)))
            }
            Some(Token::Map) => {
                p.i += 1;
                Ok(NodeTypeMapValueArguments::MapKeyValueType(p.map_key()?, p.map_value()?))
            }
            _ => Ok(NodeTypeMapValueArguments::GenericMapValueArgument(p.meta()?)),
        })
    }
    fn annotation(&mut self) -> R<W<NodeTypeAnnotation>> {
        self.w(|p| {
            p.need(&Token::Colon)?;
            Ok(NodeTypeAnnotation { type_name: p.scilla_type()? })
        })
    }
    fn opt_annotation(&mut self) -> R<Option<W<NodeTypeAnnotation>>> {
        if self.at(&Token::Colon) {
            Ok(Some(self.annotation()?))
        } else {
            Ok(None)
        }
    }
    fn typed_id(&mut self) -> R<W<NodeTypedIdentifier>> {
        self.w(|p| Ok(NodeTypedIdentifier { identifier_name: p.regular()?, annotation: p.annotation()? }))
    }
    fn literal(&mut self) -> R<W<NodeValueLiteral>> {
        self.w(|p| match p.peek(0) {
            Some(Token::HexNumber(_)) => Ok(NodeValueLiteral::LiteralHex(p.hex()?)),
            Some(Token::StringLiteral(_)) => Ok(NodeValueLiteral::LiteralString(p.string()?)),
            Some(Token::Emp) => {
                p.i += 1;
                Ok(NodeValueLiteral::LiteralEmptyMap(p.map_key()?, p.map_value()?))
            }
            _ => Ok(NodeValueLiteral::LiteralInt(p.tn()?, p.number()?)),
        })
    }
    fn is_literal(&self) -> bool {
        match self.peek(0) {
            Some(Token::HexNumber(_)) => self.peek(1) != Some(&Token::Dot),
            Some(Token::StringLiteral(_) | Token::Emp) => true,
            _ => self.is_tn(0) && matches!(self.peek(1), Some(Token::Number(_))),
        }
    }
    fn message_entry(&mut self) -> R<W<NodeMessageEntry>> {
        self.w(|p| {
            let i = p.var()?;
            p.need(&Token::Colon)?;
            if p.is_literal() {
                Ok(NodeMessageEntry::MessageLiteral(i, p.literal()?))
            } else {
                Ok(NodeMessageEntry::MessageVariable(i, p.var()?))
            }
        })
    }
    fn targs(&mut self) -> R<Option<W<NodeContractTypeArguments>>> {
        if !self.at(&Token::OpenBrace) {
            return Ok(None);
        }
        Ok(Some(self.w(|p| {
            p.i += 1;
            let mut type_arguments = vec![];
            while p.is_type_arg() {
                type_arguments.push(p.type_arg()?);
            }
            p.need(&Token::CloseBrace)?;
            Ok(NodeContractTypeArguments { type_arguments })
        })?))
    }
    fn expr(&mut self) -> R<W<NodeFullExpression>> {
        use NodeFullExpression as E;
        self.w(|p| {
            match p.peek(0) {
                Some(Token::Let) => {
                    p.i += 1;
                    let identifier_name = p.regular()?;
                    let type_annotation = p.opt_annotation()?;
                    p.need(&Token::Equals)?;
                    let expression = Box::new(p.expr()?);
                    p.need(&Token::In)?;
                    let containing_expression = Box::new(p.expr()?);
                    return Ok(E::LocalVariableDeclaration { identifier_name, expression, type_annotation, containing_expression });
                }
                Some(Token::Fun) => {
                    p.i += 1;
                    p.need(&Token::OpenParen)?;
                    let identier_value = p.regular()?;
                    let type_annotation = p.annotation()?;
                    p.need(&Token::CloseParen)?;
                    p.need(&Token::DoubleArrow)?;
                    return Ok(E::FunctionDeclaration { identier_value, type_annotation, expression: Box::new(p.expr()?) });
                }
                Some(Token::Builtin) => {
                    p.i += 1;
                    let b = p.regular()?;
                    let targs = p.targs()?;
                    let xs = p.w(|p| {
                        if p.eat(&Token::OpenParen) {
                            p.need(&Token::CloseParen)?;
                            return Ok(NodeBuiltinArguments { arguments: vec![] });
                        }
                        let mut arguments = vec![p.var()?];
                        arguments.extend(p.vars()?);
                        Ok(NodeBuiltinArguments { arguments })
                    })?;
                    return Ok(E::ExpressionBuiltin { b, targs, xs });
                }
                Some(Token::OpenBrace) => {
                    p.i += 1;
                    let mut v = vec![p.message_entry()?];
                    while p.eat(&Token::Semicolon) {
                        v.push(p.message_entry()?);
                    }
                    p.need(&Token::CloseBrace)?;
                    return Ok(E::Message(v));
                }
                Some(Token::Match) => {
                    p.i += 1;
                    let match_expression = p.var()?;
                    p.need(&Token::With)?;
                    let mut clauses = vec![];
                    while p.at(&Token::Pipe) {
                        clauses.push(p.w(|p| {
                            p.i += 1;
                            let pattern = p.pattern()?;
                            p.need(&Token::DoubleArrow)?;
                            Ok(NodePatternMatchExpressionClause { pattern, expression: p.expr()? })
                        })?);
                    }
                    if clauses.is_empty() {
                        return Err(());
                    }
                    p.need(&Token::End)?;
                    return Ok(E::Match { match_expression, clauses });
                }
                Some(Token::Tfun) => {
                    p.i += 1;
                    let identifier_name = p.template()?;
                    p.need(&Token::DoubleArrow)?;
                    return Ok(E::TemplateFunction { identifier_name, expression: Box::new(p.expr()?) });
                }
                Some(Token::At) => {
                    p.i += 1;
                    let identifier_name = p.var()?;
                    return Ok(E::TApp { identifier_name, type_arguments: p.type_args1()? });
                }
                _ => {}
            }
            if p.is_literal() {
                let l = p.w(|p| Ok(NodeAtomicExpression::AtomicLit(p.literal()?)))?;
                return Ok(E::ExpressionAtomic(Box::new(l)));
            }
            if p.is_var() {
                let s = p.i;
                let function_name = p.var()?;
                let argument_list = p.vars()?;
                if argument_list.is_empty() {
                    let a = WithMetaData { node: NodeAtomicExpression::AtomicSid(function_name), start: p.t[s].0, end: p.t[p.i - 1].2 };
                    return Ok(E::ExpressionAtomic(Box::new(a)));
                }
                return Ok(E::FunctionCall { function_name, argument_list });
            }
            let identifier_name = p.meta()?;
            let contract_type_arguments = p.targs()?;
            let argument_list = p.vars()?;
            Ok(E::ConstructorCall { identifier_name, contract_type_arguments, argument_list })
        })
    }
    fn pattern(&mut self) -> R<W<NodePattern>> {
        self.w(|p| {
            if p.eat(&Token::Underscore) {
                return Ok(NodePattern::Wildcard);
            }
            if p.is_regular(0) {
                return Ok(NodePattern::Binder(p.regular()?));
            }
            let m = p.meta()?;
            let mut v = vec![];
            while p.is_meta() || p.is_regular(0) || p.at(&Token::Underscore) || p.at(&Token::OpenParen) {
                v.push(p.w(|p| {
                    if p.eat(&Token::Underscore) {
                        return Ok(NodeArgumentPattern::WildcardArgument);
                    }
                    if p.is_regular(0) {
                        return Ok(NodeArgumentPattern::BinderArgument(p.regular()?));
                    }
                    if p.eat(&Token::OpenParen) {
                        let x = p.pattern()?;
                        p.need(&Token::CloseParen)?;
                        return Ok(NodeArgumentPattern::PatternArgument(Box::new(x)));
                    }
                    Ok(NodeArgumentPattern::ConstructorArgument(p.meta()?))
                })?);
            }
            Ok(NodePattern::Constructor(m, v))
        })
    }
    fn accesses(&mut self) -> R<Vec<W<NodeMapAccess>>> {
        let mut v = vec![];
        while self.at(&Token::OpenBracket) {
            v.push(self.w(|p| {
                p.i += 1;
                let identifier_name = p.var()?;
                p.need(&Token::CloseBracket)?;
                Ok(NodeMapAccess { identifier_name })
            })?);
        }
        if v.is_empty() {
            Err(())
        } else {
            Ok(v)
        }
    }
    fn component_id(&mut self) -> R<W<NodeComponentId>> {
        self.w(|p| {
            if p.is_regular(0) {
                Ok(NodeComponentId::WithRegularId(p.regular()?))
            } else {
                Ok(NodeComponentId::WithTypeLikeName(p.tn()?))
            }
        })
    }
    fn remote(&mut self, l: W<String>) -> R<NodeStatement> {
        use NodeRemoteFetchStatement as F;
        let fetch = |f: F| Ok(NodeStatement::RemoteFetch(Box::new(f)));
        if self.eat(&Token::Exists) {
            let a = self.regular()?;
            self.need(&Token::Dot)?;
            let m = self.regular()?;
            return fetch(F::ReadStateMutableMapAccessExists(l, a, m, self.accesses()?));
        }
        if self.is_tn(0) && self.peek(1) != Some(&Token::Dot) {
            let type_name = self.tn()?;
            let mut arguments = None;
            if self.eat(&Token::OpenParen) {
                let mut v = vec![self.var()?];
                v.extend(self.vars()?);
                self.need(&Token::CloseParen)?;
                arguments = Some(NodeBlockchainFetchArguments { arguments: v });
            }
            return Ok(NodeStatement::ReadFromBC { left_hand_side: l, type_name, arguments });
        }
        if self.is_special(0) && self.peek(1) == Some(&Token::Dot) {
            let a = self.special()?;
            self.i += 1;
            return fetch(F::ReadStateMutableSpecialId(l, a, self.special()?));
        }
        if self.is_regular(0) && self.peek(1) == Some(&Token::Dot) {
            let a = self.regular()?;
            self.i += 1;
            if self.is_regular(0) && self.peek(1) == Some(&Token::OpenBracket) {
                let m = self.regular()?;
                return fetch(F::ReadStateMutableMapAccess(l, a, m, self.accesses()?));
            }
            return fetch(F::ReadStateMutable(l, a, self.var()?));
        }
        let v = self.var()?;
        self.need(&Token::As)?;
        fetch(F::ReadStateMutableCastAddress(l, v, self.address()?))
    }
    fn statement(&mut self) -> R<NodeStatement> {
        use NodeStatement as S;
        match self.peek(0) {
            Some(Token::Delete) => {
                self.i += 1;
                Ok(S::MapUpdateDelete { left_hand_side: self.regular()?, keys: self.accesses()? })
            }
            Some(Token::Accept) => {
                self.i += 1;
                Ok(S::Accept)
            }
            Some(Token::Send) => {
                self.i += 1;
                Ok(S::Send { identifier_name: self.var()? })
            }
            Some(Token::Event) => {
                self.i += 1;
                Ok(S::CreateEvnt { identifier_name: self.var()? })
            }
            Some(Token::Throw) => {
                self.i += 1;
                let error_variable = if self.is_var() { Some(self.var()?) } else { None };
                Ok(S::Throw { error_variable })
            }
            Some(Token::Match) => {
                self.i += 1;
                let variable = self.var()?;
                self.need(&Token::With)?;
                let mut clauses = vec![];
                while self.at(&Token::Pipe) {
                    clauses.push(self.w(|p| {
                        p.i += 1;
                        let pattern_expression = Box::new(p.pattern()?);
                        p.need(&Token::DoubleArrow)?;
                        let statement_block = if p.at(&Token::Pipe) || p.at(&Token::End) { None } else { Some(p.block()?) };
                        Ok(NodePatternMatchClause { pattern_expression, statement_block })
                    })?);
                }
                if clauses.is_empty() {
                    return Err(());
                }
                self.need(&Token::End)?;
                Ok(S::MatchStmt { variable, clauses })
            }
            Some(Token::Forall) => {
                self.i += 1;
                Ok(S::Iterate { identifier_name: self.var()?, component_id: self.component_id()? })
            }
            Some(Token::Identifier(_)) => match self.peek(1) {
                Some(Token::LeftArrow) => {
                    let l = self.regular()?;
                    self.i += 1;
                    if self.eat(&Token::Ampersand) {
                        return self.remote(l);
                    }
                    if self.eat(&Token::Exists) {
                        let right_hand_side = self.regular()?;
                        return Ok(S::MapGetExists { left_hand_side: l, right_hand_side, keys: self.accesses()? });
                    }
                    if self.is_regular(0) && self.peek(1) == Some(&Token::OpenBracket) {
                        let right_hand_side = self.regular()?;
                        return Ok(S::MapGet { left_hand_side: l, right_hand_side, keys: self.accesses()? });
                    }
                    Ok(S::Load { left_hand_side: l, right_hand_side: self.var()? })
                }
                Some(Token::ColonEquals) => {
                    let l = self.regular()?;
                    self.i += 1;
                    Ok(S::Store { left_hand_side: l, right_hand_side: self.var()? })
                }
                Some(Token::Equals) => {
                    let l = self.regular()?;
                    self.i += 1;
                    Ok(S::Bind { left_hand_side: l, right_hand_side: Box::new(self.expr()?) })
                }
                Some(Token::OpenBracket) => {
                    let l = self.regular()?;
                    let keys = self.accesses()?;
                    self.need(&Token::ColonEquals)?;
                    Ok(S::MapUpdate { left_hand_side: l, keys, right_hand_side: self.var()? })
                }
                _ => Ok(S::CallProc { component_id: self.component_id()?, arguments: self.vars()? }),
            },
            _ => Ok(S::CallProc { component_id: self.component_id()?, arguments: self.vars()? }),
        }
    }
    fn block(&mut self) -> R<W<NodeStatementBlock>> {
        self.w(|p| {
            let mut statements = vec![p.statement()?];
            while p.eat(&Token::Semicolon) {
                statements.push(p.statement()?);
            }
            Ok(NodeStatementBlock { statements })
        })
    }
    fn body(&mut self) -> R<W<NodeComponentBody>> {
        self.w(|p| {
            let statement_block = if p.at(&Token::End) { None } else { Some(p.block()?) };
            p.need(&Token::End)?;
            Ok(NodeComponentBody { statement_block })
        })
    }
    fn params(&mut self) -> R<W<NodeComponentParameters>> {
        self.w(|p| {
            p.need(&Token::OpenParen)?;
            let mut parameters = vec![];
            let pair = |p: &mut Self| p.w(|p| Ok(NodeParameterPair { identifier_with_type: p.typed_id()? }));
            if p.is_regular(0) {
                parameters.push(pair(p)?);
                while p.eat(&Token::Comma) {
                    parameters.push(pair(p)?);
                }
            }
            p.need(&Token::CloseParen)?;
            Ok(NodeComponentParameters { parameters })
        })
    }
    fn program(&mut self) -> R<NodeProgram> {
        self.need(&Token::ScillaVersion)?;
        let version = self.number()?;
        let mut import_declarations = None;
        if self.at(&Token::Import) {
            import_declarations = Some(self.w(|p| {
                p.i += 1;
                let mut import_list = vec![p.imported()?];
                while p.is_tn(0) {
                    import_list.push(p.imported()?);
                }
                while p.eat(&Token::Import) {
                    import_list.push(p.imported()?);
                }
                Ok(NodeImportDeclarations { import_list })
            })?);
        }
        let mut library_definition = None;
        if self.at(&Token::Library) {
            library_definition = Some(self.w(|p| {
                p.i += 1;
                let name = p.tn()?;
                let mut definitions = vec![];
                while p.at(&Token::Let) || p.at(&Token::Type) {
                    definitions.push(p.lib_def()?);
                }
                Ok(NodeLibraryDefinition { name, definitions })
            })?);
        }
        let contract_definition = self.w(|p| {
            p.need(&Token::Contract)?;
            let contract_name = p.tn()?;
            let parameters = p.params()?;
            let mut constraint = None;
            if p.at(&Token::With) {
                constraint = Some(p.w(|p| {
                    p.i += 1;
                    let expression = Box::new(p.expr()?);
                    p.need(&Token::DoubleArrow)?;
                    Ok(NodeWithConstraint { expression })
                })?);
            }
            let mut fields = vec![];
            while p.at(&Token::Field) {
                fields.push(p.w(|p| {
                    p.i += 1;
                    let typed_identifier = p.typed_id()?;
                    p.need(&Token::Equals)?;
                    Ok(NodeContractField { typed_identifier, right_hand_side: p.expr()? })
                })?);
            }
            let mut components = vec![];
            loop {
                if p.at(&Token::Transition) {
                    components.push(p.w(|p| {
                        let d = p.w(|p| {
                            p.i += 1;
                            Ok(NodeTransitionDefinition { name: p.component_id()?, parameters: p.params()?, body: p.body()? })
                        })?;
                        Ok(NodeComponentDefinition::TransitionComponent(Box::new(d)))
                    })?);
                } else if p.at(&Token::Procedure) {
                    components.push(p.w(|p| {
                        let d = p.w(|p| {
                            p.i += 1;
                            Ok(NodeProcedureDefinition { name: p.component_id()?, parameters: p.params()?, body: p.body()? })
                        })?;
                        Ok(NodeComponentDefinition::ProcedureComponent(Box::new(d)))
                    })?);
                } else {
                    break;
                }
            }
            Ok(NodeContractDefinition { contract_name, parameters, constraint, fields, components })
        })?;
        Ok(NodeProgram { version, import_declarations, library_definition, contract_definition })
    }
    fn imported(&mut self) -> R<W<NodeImportedName>> {
        self.w(|p| {
            let a = p.tn()?;
            if p.eat(&Token::As) {
                return Ok(NodeImportedName::AliasedImport(a, p.tn()?));
            }
            Ok(NodeImportedName::RegularImport(a))
        })
    }
    fn lib_def(&mut self) -> R<W<NodeLibrarySingleDefinition>> {
        self.w(|p| {
            if p.eat(&Token::Let) {
                let variable_name = p.regular()?;
                let type_annotation = p.opt_annotation()?;
                p.need(&Token::Equals)?;
                return Ok(NodeLibrarySingleDefinition::LetDefinition { variable_name, type_annotation, expression: p.expr()? });
            }
            p.need(&Token::Type)?;
            let n = p.tn()?;
            if !p.eat(&Token::Equals) {
                return Ok(NodeLibrarySingleDefinition::TypeDefinition(n, None));
            }
            let mut v = vec![];
            while p.at(&Token::Pipe) {
                v.push(p.w(|p| {
                    p.i += 1;
                    let n = p.tn()?;
                    if p.eat(&Token::Of) {
                        return Ok(NodeTypeAlternativeClause::ClauseTypeWithArgs(n, p.type_args1()?));
                    }
                    Ok(NodeTypeAlternativeClause::ClauseType(n))
                })?);
            }
            if v.is_empty() {
                return Err(());
            }
            Ok(NodeLibrarySingleDefinition::TypeDefinition(n, Some(v)))
        })
    }
}
