//! A recording converter (what callbacks a traversal makes) and the reference traversal.
use crate::refcon;
use scilla_parser::ast::{converting::AstConverting, nodes::*, TraversalResult, TreeTraversalMode};
use scilla_parser::parser::lexer::SourcePosition;

#[derive(Clone, PartialEq, Debug)]
pub enum Ev {
    Push(SourcePosition, SourcePosition),
    Pop,
    Cb(&'static str, bool, usize),
}

/// What the converter answers to its k-th callback.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ans {
    Continue,
    Skip,
    Fail,
}

pub type Policy<'a> = &'a dyn Fn(usize, bool) -> Ans;

pub struct Rec<'a> {
    pub policy: Policy<'a>,
    pub evs: Vec<Ev>,
    pub k: usize,
    pub limit: usize,
}

pub fn message(k: usize) -> String {
    match (k * 7 + 3) % 28 {
        8 | 9 | 10 => {
            // pieces of text, marks and the code's own words
            let mut r = crate::rng::Rng::new(k as u64);
            let mut s = String::new();
            for _ in 0..1 + r.below(12) {
                match r.below(5) {
                    0 => s.push_str(&crate::gen::code_text(&mut r).unwrap_or_default()),
                    1 => s.push_str(*r.pick(&["error", "Expected", "found", "nothing", "line", "limit", "stop", "skip", "ok"])),
                    2 => s.push(' '),
                    _ => s.push(*r.pick(&[':', ':', '.', ',', '\n', '(', ')', '"', '%', '{', '}', '/', '-', '0', '9'])),
                }
            }
            s
        }
        0 | 1 => String::new(),
        2 => " ".into(),
        3 => format!("\n callback {k} failed \t\n"),
        4 => format!("R\u{fc}ckruf {k} \u{1f980}\u{0}"),
        5 => format!("Error: \"{k}\" {{}} {}", "x".repeat(5000)),
        6 => "Continue".into(),
        7 => "SkipChildren".into(),
        _ => format!("callback {k} failed"),
    }
}

impl Rec<'_> {
    fn cb(&mut self, name: &'static str, mode: TreeTraversalMode, at: usize) -> Result<TraversalResult, String> {
        let enter = matches!(mode, TreeTraversalMode::Enter);
        self.evs.push(Ev::Cb(name, enter, at));
        let k = self.k;
        self.k += 1;
        if k > self.limit {
            return Err("limit".into());
        }
        match (self.policy)(k, enter) {
            Ans::Continue => Ok(TraversalResult::Continue),
            Ans::Skip => Ok(TraversalResult::SkipChildren),
            Ans::Fail => Err(message(k)),
        }
    }
}

impl AstConverting for Rec<'_> {
    fn push_source_position(&mut self, start: &SourcePosition, end: &SourcePosition) {
        self.evs.push(Ev::Push(start.clone(), end.clone()));
    }
    fn pop_source_position(&mut self) {
        self.evs.push(Ev::Pop);
    }
    fn emit_byte_str(&mut self, mode: TreeTraversalMode, node: &NodeByteStr) -> Result<TraversalResult, String> {
        self.cb("emit_byte_str", mode, node as *const NodeByteStr as *const u8 as usize)
    }
    fn emit_type_name_identifier(&mut self, mode: TreeTraversalMode, node: &NodeTypeNameIdentifier) -> Result<TraversalResult, String> {
        self.cb("emit_type_name_identifier", mode, node as *const NodeTypeNameIdentifier as *const u8 as usize)
    }
    fn emit_imported_name(&mut self, mode: TreeTraversalMode, node: &NodeImportedName) -> Result<TraversalResult, String> {
        self.cb("emit_imported_name", mode, node as *const NodeImportedName as *const u8 as usize)
    }
    fn emit_import_declarations(&mut self, mode: TreeTraversalMode, node: &NodeImportDeclarations) -> Result<TraversalResult, String> {
        self.cb("emit_import_declarations", mode, node as *const NodeImportDeclarations as *const u8 as usize)
    }
    fn emit_meta_identifier(&mut self, mode: TreeTraversalMode, node: &NodeMetaIdentifier) -> Result<TraversalResult, String> {
        self.cb("emit_meta_identifier", mode, node as *const NodeMetaIdentifier as *const u8 as usize)
    }
    fn emit_variable_identifier(&mut self, mode: TreeTraversalMode, node: &NodeVariableIdentifier) -> Result<TraversalResult, String> {
        self.cb("emit_variable_identifier", mode, node as *const NodeVariableIdentifier as *const u8 as usize)
    }
    fn emit_builtin_arguments(&mut self, mode: TreeTraversalMode, node: &NodeBuiltinArguments) -> Result<TraversalResult, String> {
        self.cb("emit_builtin_arguments", mode, node as *const NodeBuiltinArguments as *const u8 as usize)
    }
    fn emit_type_map_key(&mut self, mode: TreeTraversalMode, node: &NodeTypeMapKey) -> Result<TraversalResult, String> {
        self.cb("emit_type_map_key", mode, node as *const NodeTypeMapKey as *const u8 as usize)
    }
    fn emit_type_map_value(&mut self, mode: TreeTraversalMode, node: &NodeTypeMapValue) -> Result<TraversalResult, String> {
        self.cb("emit_type_map_value", mode, node as *const NodeTypeMapValue as *const u8 as usize)
    }
    fn emit_type_argument(&mut self, mode: TreeTraversalMode, node: &NodeTypeArgument) -> Result<TraversalResult, String> {
        self.cb("emit_type_argument", mode, node as *const NodeTypeArgument as *const u8 as usize)
    }
    fn emit_scilla_type(&mut self, mode: TreeTraversalMode, node: &NodeScillaType) -> Result<TraversalResult, String> {
        self.cb("emit_scilla_type", mode, node as *const NodeScillaType as *const u8 as usize)
    }
    fn emit_type_map_entry(&mut self, mode: TreeTraversalMode, node: &NodeTypeMapEntry) -> Result<TraversalResult, String> {
        self.cb("emit_type_map_entry", mode, node as *const NodeTypeMapEntry as *const u8 as usize)
    }
    fn emit_address_type_field(&mut self, mode: TreeTraversalMode, node: &NodeAddressTypeField) -> Result<TraversalResult, String> {
        self.cb("emit_address_type_field", mode, node as *const NodeAddressTypeField as *const u8 as usize)
    }
    fn emit_address_type(&mut self, mode: TreeTraversalMode, node: &NodeAddressType) -> Result<TraversalResult, String> {
        self.cb("emit_address_type", mode, node as *const NodeAddressType as *const u8 as usize)
    }
    fn emit_full_expression(&mut self, mode: TreeTraversalMode, node: &NodeFullExpression) -> Result<TraversalResult, String> {
        self.cb("emit_full_expression", mode, node as *const NodeFullExpression as *const u8 as usize)
    }
    fn emit_message_entry(&mut self, mode: TreeTraversalMode, node: &NodeMessageEntry) -> Result<TraversalResult, String> {
        self.cb("emit_message_entry", mode, node as *const NodeMessageEntry as *const u8 as usize)
    }
    fn emit_pattern_match_expression_clause(&mut self, mode: TreeTraversalMode, node: &NodePatternMatchExpressionClause) -> Result<TraversalResult, String> {
        self.cb("emit_pattern_match_expression_clause", mode, node as *const NodePatternMatchExpressionClause as *const u8 as usize)
    }
    fn emit_atomic_expression(&mut self, mode: TreeTraversalMode, node: &NodeAtomicExpression) -> Result<TraversalResult, String> {
        self.cb("emit_atomic_expression", mode, node as *const NodeAtomicExpression as *const u8 as usize)
    }
    fn emit_contract_type_arguments(&mut self, mode: TreeTraversalMode, node: &NodeContractTypeArguments) -> Result<TraversalResult, String> {
        self.cb("emit_contract_type_arguments", mode, node as *const NodeContractTypeArguments as *const u8 as usize)
    }
    fn emit_value_literal(&mut self, mode: TreeTraversalMode, node: &NodeValueLiteral) -> Result<TraversalResult, String> {
        self.cb("emit_value_literal", mode, node as *const NodeValueLiteral as *const u8 as usize)
    }
    fn emit_map_access(&mut self, mode: TreeTraversalMode, node: &NodeMapAccess) -> Result<TraversalResult, String> {
        self.cb("emit_map_access", mode, node as *const NodeMapAccess as *const u8 as usize)
    }
    fn emit_pattern(&mut self, mode: TreeTraversalMode, node: &NodePattern) -> Result<TraversalResult, String> {
        self.cb("emit_pattern", mode, node as *const NodePattern as *const u8 as usize)
    }
    fn emit_argument_pattern(&mut self, mode: TreeTraversalMode, node: &NodeArgumentPattern) -> Result<TraversalResult, String> {
        self.cb("emit_argument_pattern", mode, node as *const NodeArgumentPattern as *const u8 as usize)
    }
    fn emit_pattern_match_clause(&mut self, mode: TreeTraversalMode, node: &NodePatternMatchClause) -> Result<TraversalResult, String> {
        self.cb("emit_pattern_match_clause", mode, node as *const NodePatternMatchClause as *const u8 as usize)
    }
    fn emit_blockchain_fetch_arguments(&mut self, mode: TreeTraversalMode, node: &NodeBlockchainFetchArguments) -> Result<TraversalResult, String> {
        self.cb("emit_blockchain_fetch_arguments", mode, node as *const NodeBlockchainFetchArguments as *const u8 as usize)
    }
    fn emit_statement(&mut self, mode: TreeTraversalMode, node: &NodeStatement) -> Result<TraversalResult, String> {
        self.cb("emit_statement", mode, node as *const NodeStatement as *const u8 as usize)
    }
    fn emit_remote_fetch_statement(&mut self, mode: TreeTraversalMode, node: &NodeRemoteFetchStatement) -> Result<TraversalResult, String> {
        self.cb("emit_remote_fetch_statement", mode, node as *const NodeRemoteFetchStatement as *const u8 as usize)
    }
    fn emit_component_id(&mut self, mode: TreeTraversalMode, node: &NodeComponentId) -> Result<TraversalResult, String> {
        self.cb("emit_component_id", mode, node as *const NodeComponentId as *const u8 as usize)
    }
    fn emit_component_parameters(&mut self, mode: TreeTraversalMode, node: &NodeComponentParameters) -> Result<TraversalResult, String> {
        self.cb("emit_component_parameters", mode, node as *const NodeComponentParameters as *const u8 as usize)
    }
    fn emit_parameter_pair(&mut self, mode: TreeTraversalMode, node: &NodeParameterPair) -> Result<TraversalResult, String> {
        self.cb("emit_parameter_pair", mode, node as *const NodeParameterPair as *const u8 as usize)
    }
    fn emit_component_body(&mut self, mode: TreeTraversalMode, node: &NodeComponentBody) -> Result<TraversalResult, String> {
        self.cb("emit_component_body", mode, node as *const NodeComponentBody as *const u8 as usize)
    }
    fn emit_statement_block(&mut self, mode: TreeTraversalMode, node: &NodeStatementBlock) -> Result<TraversalResult, String> {
        self.cb("emit_statement_block", mode, node as *const NodeStatementBlock as *const u8 as usize)
    }
    fn emit_typed_identifier(&mut self, mode: TreeTraversalMode, node: &NodeTypedIdentifier) -> Result<TraversalResult, String> {
        self.cb("emit_typed_identifier", mode, node as *const NodeTypedIdentifier as *const u8 as usize)
    }
    fn emit_type_annotation(&mut self, mode: TreeTraversalMode, node: &NodeTypeAnnotation) -> Result<TraversalResult, String> {
        self.cb("emit_type_annotation", mode, node as *const NodeTypeAnnotation as *const u8 as usize)
    }
    fn emit_program(&mut self, mode: TreeTraversalMode, node: &NodeProgram) -> Result<TraversalResult, String> {
        self.cb("emit_program", mode, node as *const NodeProgram as *const u8 as usize)
    }
    fn emit_library_definition(&mut self, mode: TreeTraversalMode, node: &NodeLibraryDefinition) -> Result<TraversalResult, String> {
        self.cb("emit_library_definition", mode, node as *const NodeLibraryDefinition as *const u8 as usize)
    }
    fn emit_library_single_definition(&mut self, mode: TreeTraversalMode, node: &NodeLibrarySingleDefinition) -> Result<TraversalResult, String> {
        self.cb("emit_library_single_definition", mode, node as *const NodeLibrarySingleDefinition as *const u8 as usize)
    }
    fn emit_contract_definition(&mut self, mode: TreeTraversalMode, node: &NodeContractDefinition) -> Result<TraversalResult, String> {
        self.cb("emit_contract_definition", mode, node as *const NodeContractDefinition as *const u8 as usize)
    }
    fn emit_contract_field(&mut self, mode: TreeTraversalMode, node: &NodeContractField) -> Result<TraversalResult, String> {
        self.cb("emit_contract_field", mode, node as *const NodeContractField as *const u8 as usize)
    }
    fn emit_with_constraint(&mut self, mode: TreeTraversalMode, node: &NodeWithConstraint) -> Result<TraversalResult, String> {
        self.cb("emit_with_constraint", mode, node as *const NodeWithConstraint as *const u8 as usize)
    }
    fn emit_component_definition(&mut self, mode: TreeTraversalMode, node: &NodeComponentDefinition) -> Result<TraversalResult, String> {
        self.cb("emit_component_definition", mode, node as *const NodeComponentDefinition as *const u8 as usize)
    }
    fn emit_procedure_definition(&mut self, mode: TreeTraversalMode, node: &NodeProcedureDefinition) -> Result<TraversalResult, String> {
        self.cb("emit_procedure_definition", mode, node as *const NodeProcedureDefinition as *const u8 as usize)
    }
    fn emit_transition_definition(&mut self, mode: TreeTraversalMode, node: &NodeTransitionDefinition) -> Result<TraversalResult, String> {
        self.cb("emit_transition_definition", mode, node as *const NodeTransitionDefinition as *const u8 as usize)
    }
    fn emit_type_alternative_clause(&mut self, mode: TreeTraversalMode, node: &NodeTypeAlternativeClause) -> Result<TraversalResult, String> {
        self.cb("emit_type_alternative_clause", mode, node as *const NodeTypeAlternativeClause as *const u8 as usize)
    }
    fn emit_type_map_value_arguments(&mut self, mode: TreeTraversalMode, node: &NodeTypeMapValueArguments) -> Result<TraversalResult, String> {
        self.cb("emit_type_map_value_arguments", mode, node as *const NodeTypeMapValueArguments as *const u8 as usize)
    }
    fn emit_type_map_value_allowing_type_arguments(&mut self, mode: TreeTraversalMode, node: &NodeTypeMapValueAllowingTypeArguments) -> Result<TraversalResult, String> {
        self.cb("emit_type_map_value_allowing_type_arguments", mode, node as *const NodeTypeMapValueAllowingTypeArguments as *const u8 as usize)
    }
}

/// The visited part of a tree: which callback, on which node, with which children.
pub struct N {
    name: &'static str,
    at: usize,
    span: Option<(SourcePosition, SourcePosition)>,
    ch: Vec<N>,
}

pub trait Tree {
    fn tree(&self) -> N;
}

impl<T: Tree> Tree for WithMetaData<T> {
    fn tree(&self) -> N {
        let mut n = self.node.tree();
        assert!(n.span.is_none());
        n.span = Some((self.start.clone(), self.end.clone()));
        n
    }
}
impl<T: Tree> Tree for Box<T> {
    fn tree(&self) -> N {
        (**self).tree()
    }
}

fn n<T>(name: &'static str, x: &T, ch: Vec<N>) -> N {
    N { name, at: x as *const T as *const u8 as usize, span: None, ch }
}
fn list<T: Tree>(xs: &[T]) -> Vec<N> {
    xs.iter().map(Tree::tree).collect()
}
fn opt<T: Tree>(x: &Option<T>) -> Vec<N> {
    x.iter().map(Tree::tree).collect()
}
fn cat(mut a: Vec<N>, b: Vec<N>) -> Vec<N> {
    a.extend(b);
    a
}

pub enum Stop {
    Fail(String),
}

/// The traversal the documentation describes.
pub fn run(n: &N, policy: Policy, evs: &mut Vec<Ev>, k: &mut usize) -> Result<(), Stop> {
    if let Some((s, e)) = &n.span {
        evs.push(Ev::Push(s.clone(), e.clone()));
    }
    let r = body(n, policy, evs, k);
    if n.span.is_some() {
        evs.push(Ev::Pop);
    }
    r
}

fn ask(n: &N, enter: bool, policy: Policy, evs: &mut Vec<Ev>, k: &mut usize) -> Result<bool, Stop> {
    evs.push(Ev::Cb(n.name, enter, n.at));
    let i = *k;
    *k += 1;
    match policy(i, enter) {
        Ans::Continue => Ok(true),
        Ans::Skip => Ok(false),
        Ans::Fail => Err(Stop::Fail(message(i))),
    }
}

fn body(n: &N, policy: Policy, evs: &mut Vec<Ev>, k: &mut usize) -> Result<(), Stop> {
    if ask(n, true, policy, evs, k)? {
        for c in &n.ch {
            run(c, policy, evs, k)?;
        }
        ask(n, false, policy, evs, k)?;
    }
    Ok(())
}

thread_local! {
    /// A name that is not written as it was read.
    static SHOWN: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
fn shown<T: std::fmt::Display + Clone>(x: &T, want: impl Fn() -> String) {
    let (got, want) = (x.to_string(), want());
    let p = SourcePosition::start_position();
    let wrapped = WithMetaData { node: x.clone(), start: p, end: p }.to_string();
    if got != want || wrapped != want {
        SHOWN.set(Some(format!("the name {want:?} of the tree is written as {got:?} ({wrapped:?} with its position)")));
    }
}
pub fn names<T: Tree>(t: &T) -> Option<String> {
    SHOWN.set(None);
    t.tree();
    SHOWN.take()
}

pub fn size(n: &N) -> usize {
    2 + n.ch.iter().map(size).sum::<usize>()
}

impl Tree for NodeByteStr {
    fn tree(&self) -> N {
        shown(self, || match self { NodeByteStr::Constant(s) | NodeByteStr::Type(s) => s.node.clone() });
        let ch = vec![];
        n("emit_byte_str", self, ch)
    }
}
impl Tree for NodeTypeNameIdentifier {
    fn tree(&self) -> N {
        shown(self, || refcon::tn(self));
        let ch = match self { NodeTypeNameIdentifier::ByteStringType(b) => vec![b.tree()], _ => vec![] };
        n("emit_type_name_identifier", self, ch)
    }
}
impl Tree for NodeImportedName {
    fn tree(&self) -> N {
        let ch = match self { NodeImportedName::RegularImport(a) => vec![a.tree()], NodeImportedName::AliasedImport(a, b) => vec![a.tree(), b.tree()] };
        n("emit_imported_name", self, ch)
    }
}
impl Tree for NodeImportDeclarations {
    fn tree(&self) -> N {
        let ch = list(&self.import_list);
        n("emit_import_declarations", self, ch)
    }
}
impl Tree for NodeMetaIdentifier {
    fn tree(&self) -> N {
        shown(self, || refcon::meta(self));
        let ch = match self { NodeMetaIdentifier::MetaName(a) | NodeMetaIdentifier::MetaNameInHexspace(_, a) => vec![a.tree()], NodeMetaIdentifier::MetaNameInNamespace(a, b) => vec![a.tree(), b.tree()], NodeMetaIdentifier::ByteString => vec![] };
        n("emit_meta_identifier", self, ch)
    }
}
impl Tree for NodeVariableIdentifier {
    fn tree(&self) -> N {
        shown(self, || refcon::var(self));
        let ch = match self { NodeVariableIdentifier::VariableInNamespace(a, _) => vec![a.tree()], _ => vec![] };
        n("emit_variable_identifier", self, ch)
    }
}
impl Tree for NodeBuiltinArguments {
    fn tree(&self) -> N {
        let ch = list(&self.arguments);
        n("emit_builtin_arguments", self, ch)
    }
}
impl Tree for NodeTypeMapKey {
    fn tree(&self) -> N {
        let ch = match self { NodeTypeMapKey::GenericMapKey(a) | NodeTypeMapKey::EnclosedGenericId(a) => vec![a.tree()], NodeTypeMapKey::EnclosedAddressMapKeyType(a) | NodeTypeMapKey::AddressMapKeyType(a) => vec![a.tree()] };
        n("emit_type_map_key", self, ch)
    }
}
impl Tree for NodeTypeMapValue {
    fn tree(&self) -> N {
        let ch = match self { NodeTypeMapValue::MapValueTypeOrEnumLikeIdentifier(a) => vec![a.tree()], NodeTypeMapValue::MapKeyValue(a) => vec![a.tree()], NodeTypeMapValue::MapValueParenthesizedType(a) => vec![a.tree()], NodeTypeMapValue::MapValueAddressType(a) => vec![a.tree()] };
        n("emit_type_map_value", self, ch)
    }
}
impl Tree for NodeTypeArgument {
    fn tree(&self) -> N {
        let ch = match self { NodeTypeArgument::EnclosedTypeArgument(a) => vec![a.tree()], NodeTypeArgument::GenericTypeArgument(a) => vec![a.tree()], NodeTypeArgument::TemplateTypeArgument(_) => vec![], NodeTypeArgument::AddressTypeArgument(a) => vec![a.tree()], NodeTypeArgument::MapTypeArgument(a, b) => vec![a.tree(), b.tree()] };
        n("emit_type_argument", self, ch)
    }
}
impl Tree for NodeScillaType {
    fn tree(&self) -> N {
        let ch = match self { NodeScillaType::GenericTypeWithArgs(a, b) => cat(vec![a.tree()], list(b)), NodeScillaType::MapType(a, b) => vec![a.tree(), b.tree()], NodeScillaType::FunctionType(a, b) => vec![a.tree(), b.tree()], NodeScillaType::PolyFunctionType(_, a) => vec![a.tree()], NodeScillaType::EnclosedType(a) => vec![a.tree()], NodeScillaType::ScillaAddresseType(a) => vec![a.tree()], NodeScillaType::TypeVarType(_) => vec![] };
        n("emit_scilla_type", self, ch)
    }
}
impl Tree for NodeTypeMapEntry {
    fn tree(&self) -> N {
        let ch = vec![self.key.tree(), self.value.tree()];
        n("emit_type_map_entry", self, ch)
    }
}
impl Tree for NodeAddressTypeField {
    fn tree(&self) -> N {
        let ch = vec![self.identifier.tree(), self.type_name.tree()];
        n("emit_address_type_field", self, ch)
    }
}
impl Tree for NodeAddressType {
    fn tree(&self) -> N {
        let ch = cat(vec![self.identifier.tree()], list(&self.address_fields));
        n("emit_address_type", self, ch)
    }
}
impl Tree for NodeFullExpression {
    fn tree(&self) -> N {
        let ch = { use NodeFullExpression::*; match self {
            LocalVariableDeclaration { expression, containing_expression, .. } => vec![expression.tree(), containing_expression.tree()],
            FunctionDeclaration { expression, .. } | TemplateFunction { expression, .. } => vec![expression.tree()],
            FunctionCall { function_name, argument_list } => cat(vec![function_name.tree()], list(argument_list)),
            ExpressionAtomic(a) => vec![a.tree()],
            ExpressionBuiltin { xs, .. } => vec![xs.tree()],
            Message(es) => list(es),
            Match { match_expression, clauses } => cat(vec![match_expression.tree()], list(clauses)),
            ConstructorCall { identifier_name, argument_list, .. } => cat(vec![identifier_name.tree()], list(argument_list)),
            TApp { identifier_name, type_arguments } => cat(vec![identifier_name.tree()], list(type_arguments)),
        } };
        n("emit_full_expression", self, ch)
    }
}
impl Tree for NodeMessageEntry {
    fn tree(&self) -> N {
        let ch = match self { NodeMessageEntry::MessageLiteral(a, b) => vec![a.tree(), b.tree()], NodeMessageEntry::MessageVariable(a, b) => vec![a.tree(), b.tree()] };
        n("emit_message_entry", self, ch)
    }
}
impl Tree for NodePatternMatchExpressionClause {
    fn tree(&self) -> N {
        let ch = vec![self.pattern.tree(), self.expression.tree()];
        n("emit_pattern_match_expression_clause", self, ch)
    }
}
impl Tree for NodeAtomicExpression {
    fn tree(&self) -> N {
        let ch = match self { NodeAtomicExpression::AtomicSid(a) => vec![a.tree()], NodeAtomicExpression::AtomicLit(a) => vec![a.tree()] };
        n("emit_atomic_expression", self, ch)
    }
}
impl Tree for NodeContractTypeArguments {
    fn tree(&self) -> N {
        let ch = list(&self.type_arguments);
        n("emit_contract_type_arguments", self, ch)
    }
}
impl Tree for NodeValueLiteral {
    fn tree(&self) -> N {
        let ch = match self { NodeValueLiteral::LiteralInt(a, _) => vec![a.tree()], NodeValueLiteral::LiteralEmptyMap(a, b) => vec![a.tree(), b.tree()], _ => vec![] };
        n("emit_value_literal", self, ch)
    }
}
impl Tree for NodeMapAccess {
    fn tree(&self) -> N {
        let ch = vec![self.identifier_name.tree()];
        n("emit_map_access", self, ch)
    }
}
impl Tree for NodePattern {
    fn tree(&self) -> N {
        let ch = match self { NodePattern::Constructor(a, b) => cat(vec![a.tree()], list(b)), _ => vec![] };
        n("emit_pattern", self, ch)
    }
}
impl Tree for NodeArgumentPattern {
    fn tree(&self) -> N {
        let ch = match self { NodeArgumentPattern::ConstructorArgument(a) => vec![a.tree()], NodeArgumentPattern::PatternArgument(a) => vec![a.tree()], _ => vec![] };
        n("emit_argument_pattern", self, ch)
    }
}
impl Tree for NodePatternMatchClause {
    fn tree(&self) -> N {
        let ch = cat(vec![self.pattern_expression.tree()], opt(&self.statement_block));
        n("emit_pattern_match_clause", self, ch)
    }
}
impl Tree for NodeBlockchainFetchArguments {
    fn tree(&self) -> N {
        let ch = list(&self.arguments);
        n("emit_blockchain_fetch_arguments", self, ch)
    }
}
impl Tree for NodeStatement {
    fn tree(&self) -> N {
        let ch = { use NodeStatement::*; match self {
            Load { right_hand_side, .. } | Store { right_hand_side, .. } => vec![right_hand_side.tree()],
            RemoteFetch(a) => vec![a.tree()],
            Bind { right_hand_side, .. } => vec![right_hand_side.tree()],
            ReadFromBC { arguments, .. } => opt(arguments),
            MapGet { keys, .. } | MapGetExists { keys, .. } | MapUpdate { keys, .. } | MapUpdateDelete { keys, .. } => list(keys),
            Accept => vec![],
            Send { identifier_name } | CreateEvnt { identifier_name } => vec![identifier_name.tree()],
            Throw { error_variable } => opt(error_variable),
            MatchStmt { variable, clauses } => cat(vec![variable.tree()], list(clauses)),
            CallProc { component_id, arguments } => cat(vec![component_id.tree()], list(arguments)),
            Iterate { identifier_name, component_id } => vec![identifier_name.tree(), component_id.tree()],
        } };
        n("emit_statement", self, ch)
    }
}
impl Tree for NodeRemoteFetchStatement {
    fn tree(&self) -> N {
        let ch = { use NodeRemoteFetchStatement::*; match self {
            ReadStateMutable(_, _, a) => vec![a.tree()],
            ReadStateMutableSpecialId(..) => vec![],
            ReadStateMutableMapAccess(_, _, _, a) | ReadStateMutableMapAccessExists(_, _, _, a) => list(a),
            ReadStateMutableCastAddress(_, a, b) => vec![a.tree(), b.tree()],
        } };
        n("emit_remote_fetch_statement", self, ch)
    }
}
impl Tree for NodeComponentId {
    fn tree(&self) -> N {
        let ch = match self { NodeComponentId::WithTypeLikeName(a) => vec![a.tree()], _ => vec![] };
        n("emit_component_id", self, ch)
    }
}
impl Tree for NodeComponentParameters {
    fn tree(&self) -> N {
        let ch = list(&self.parameters);
        n("emit_component_parameters", self, ch)
    }
}
impl Tree for NodeParameterPair {
    fn tree(&self) -> N {
        let ch = vec![self.identifier_with_type.tree()];
        n("emit_parameter_pair", self, ch)
    }
}
impl Tree for NodeComponentBody {
    fn tree(&self) -> N {
        let ch = opt(&self.statement_block);
        n("emit_component_body", self, ch)
    }
}
impl Tree for NodeStatementBlock {
    fn tree(&self) -> N {
        let ch = list(&self.statements);
        n("emit_statement_block", self, ch)
    }
}
impl Tree for NodeTypedIdentifier {
    fn tree(&self) -> N {
        let ch = vec![self.annotation.tree()];
        n("emit_typed_identifier", self, ch)
    }
}
impl Tree for NodeTypeAnnotation {
    fn tree(&self) -> N {
        let ch = vec![self.type_name.tree()];
        n("emit_type_annotation", self, ch)
    }
}
impl Tree for NodeProgram {
    fn tree(&self) -> N {
        let ch = cat(cat(opt(&self.import_declarations), opt(&self.library_definition)), vec![self.contract_definition.tree()]);
        n("emit_program", self, ch)
    }
}
impl Tree for NodeLibraryDefinition {
    fn tree(&self) -> N {
        let ch = list(&self.definitions);
        n("emit_library_definition", self, ch)
    }
}
impl Tree for NodeLibrarySingleDefinition {
    fn tree(&self) -> N {
        let ch = match self {
            NodeLibrarySingleDefinition::LetDefinition { expression, .. } => vec![expression.tree()],
            NodeLibrarySingleDefinition::TypeDefinition(a, b) => cat(vec![a.tree()], b.iter().flat_map(|x| list(x)).collect()),
        };
        n("emit_library_single_definition", self, ch)
    }
}
impl Tree for NodeContractDefinition {
    fn tree(&self) -> N {
        let ch = cat(cat(vec![self.parameters.tree()], opt(&self.constraint)), cat(list(&self.fields), list(&self.components)));
        n("emit_contract_definition", self, ch)
    }
}
impl Tree for NodeContractField {
    fn tree(&self) -> N {
        let ch = vec![self.typed_identifier.tree(), self.right_hand_side.tree()];
        n("emit_contract_field", self, ch)
    }
}
impl Tree for NodeWithConstraint {
    fn tree(&self) -> N {
        let ch = vec![self.expression.tree()];
        n("emit_with_constraint", self, ch)
    }
}
impl Tree for NodeComponentDefinition {
    fn tree(&self) -> N {
        let ch = match self { NodeComponentDefinition::TransitionComponent(a) => vec![a.tree()], NodeComponentDefinition::ProcedureComponent(a) => vec![a.tree()] };
        n("emit_component_definition", self, ch)
    }
}
impl Tree for NodeProcedureDefinition {
    fn tree(&self) -> N {
        let ch = vec![self.name.tree(), self.parameters.tree(), self.body.tree()];
        n("emit_procedure_definition", self, ch)
    }
}
impl Tree for NodeTransitionDefinition {
    fn tree(&self) -> N {
        let ch = vec![self.name.tree(), self.parameters.tree(), self.body.tree()];
        n("emit_transition_definition", self, ch)
    }
}
impl Tree for NodeTypeAlternativeClause {
    fn tree(&self) -> N {
        let ch = match self { NodeTypeAlternativeClause::ClauseType(a) => vec![a.tree()], NodeTypeAlternativeClause::ClauseTypeWithArgs(a, b) => cat(vec![a.tree()], list(b)) };
        n("emit_type_alternative_clause", self, ch)
    }
}
impl Tree for NodeTypeMapValueArguments {
    fn tree(&self) -> N {
        let ch = match self { NodeTypeMapValueArguments::EnclosedTypeMapValue(a) => vec![a.tree()], NodeTypeMapValueArguments::GenericMapValueArgument(a) => vec![a.tree()], NodeTypeMapValueArguments::MapKeyValueType(a, b) => vec![a.tree(), b.tree()] };
        n("emit_type_map_value_arguments", self, ch)
    }
}
impl Tree for NodeTypeMapValueAllowingTypeArguments {
    fn tree(&self) -> N {
        let ch = match self { NodeTypeMapValueAllowingTypeArguments::TypeMapValueNoArgs(a) => vec![a.tree()], NodeTypeMapValueAllowingTypeArguments::TypeMapValueWithArgs(a, b) => cat(vec![a.tree()], list(b)) };
        n("emit_type_map_value_allowing_type_arguments", self, ch)
    }
}

/// The span of every visited node.
pub fn spans(n: &N) -> std::collections::HashMap<(&'static str, usize), Option<(SourcePosition, SourcePosition)>> {
    let mut m = std::collections::HashMap::new();
    fn go(n: &N, m: &mut std::collections::HashMap<(&'static str, usize), Option<(SourcePosition, SourcePosition)>>) {
        m.insert((n.name, n.at), n.span.clone());
        for c in &n.ch {
            go(c, m);
        }
    }
    go(n, &mut m);
    m
}
