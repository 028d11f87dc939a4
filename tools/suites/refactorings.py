# ---- emitter
MAP='''                        let map = SrType {
                            main_type: "Map".to_string(),
                            sub_types: vec![key, value],
                            address_type: None,
                        };
                        self.stack.push(StackObject::TypeDefinition(map));
'''
R["em_helper_map"]=[(EM,'''                let value = self.pop_type_definition()?;
                let key = self.pop_type_definition()?;
                let map = SrType {
                    main_type: "Map".to_string(),
                    sub_types: vec![key, value],
                    address_type: None,
                };
                self.stack.push(StackObject::TypeDefinition(map));
''','''                self.reduce_map()?;
'''),(EM,'''    pub fn emit(mut self,''','''    fn reduce_map(&mut self) -> Result<(), String> {
        let value = self.pop_type_definition()?;
        let key = self.pop_type_definition()?;
        self.stack.push(StackObject::TypeDefinition(SrType {
            main_type: "Map".to_string(),
            sub_types: vec![key, value],
            address_type: None,
        }));
        Ok(())
    }
    pub fn emit(mut self,''')]
R["em_helper_pushid"]=[(EM,'''                    let symbol = SrIdentifier::new(bytestr.to_string(), SrIdentifierKind::Unknown);

                    self.stack.push(StackObject::IrIdentifier(symbol));
''','''                    self.push_symbol(bytestr.to_string());
'''),(EM,'''                    let symbol = SrIdentifier::new(name.to_string(), SrIdentifierKind::Unknown);

                    self.stack.push(StackObject::IrIdentifier(symbol));
''','''                    self.push_symbol(name.to_string());
'''),(EM,'''    pub fn emit(mut self,''','''    fn push_symbol(&mut self, text: String) {
        let symbol = SrIdentifier::new(text, SrIdentifierKind::Unknown);
        self.stack.push(StackObject::IrIdentifier(symbol));
    }
    pub fn emit(mut self,''')]
R["em_helper_promote"]=[(EM,'''                let identifier = self.pop_ir_identifier()?;
                self.stack
                    .push(StackObject::TypeDefinition(identifier.into()));
''','''                self.identifier_to_type()?;
'''),(EM,'''    pub fn emit(mut self,''','''    /// Turns the identifier on the top of the stack into a type.
    fn identifier_to_type(&mut self) -> Result<(), String> {
        let identifier = self.pop_ir_identifier()?;
        self.stack.push(StackObject::TypeDefinition(identifier.into()));
        Ok(())
    }
    pub fn emit(mut self,''')]
R["em_pop_match"]=[(EM,'''        let ret = if let Some(candidate) = self.stack.pop() {
            match candidate {
                StackObject::IrIdentifier(n) => n,
                _ => {
                    return Err(format!("Expected symbol name, but found {:?}.", candidate));
                }
            }
        } else {
            return Err("Expected symbol name, but found nothing.".to_string());
        };

        Ok(ret)
''','''        match self.stack.pop() {
            Some(StackObject::IrIdentifier(n)) => Ok(n),
            Some(candidate) => Err(format!("Expected symbol name, but found {:?}.", candidate)),
            None => Err("Expected symbol name, but found nothing.".to_string()),
        }
''')]
R["em_okor"]=[(EM,'''        let ret = if let Some(candidate) = self.stack.pop() {
            match candidate {
                StackObject::IrIdentifier(n) => n,
                _ => {
                    return Err(format!("Expected symbol name, but found {:?}.", candidate));
                }
            }
        } else {
            return Err("Expected symbol name, but found nothing.".to_string());
        };

        Ok(ret)
''','''        let candidate = self
            .stack
            .pop()
            .ok_or_else(|| "Expected symbol name, but found nothing.".to_string())?;
        match candidate {
            StackObject::IrIdentifier(n) => Ok(n),
            _ => Err(format!("Expected symbol name, but found {:?}.", candidate)),
        }
''')]
R["em_okor2"]=[(EM,'''        let ret = if let Some(candidate) = self.stack.pop() {
            match candidate {
                StackObject::IrIdentifier(n) => n,
                _ => {
                    return Err(format!("Expected symbol name, but found {:?}.", candidate));
                }
            }
        } else {
            return Err("Expected symbol name, but found nothing.".to_string());
        };

        Ok(ret)
''','''        let Some(candidate) = self.stack.pop() else {
            return Err("Expected symbol name, but found nothing.".to_string());
        };
        if let StackObject::IrIdentifier(n) = candidate {
            return Ok(n);
        }
        Err(format!("Expected symbol name, but found {:?}.", candidate))
''')]
R["em_params_foreach"]=[(EM,'''                for param in node.parameters.iter() {
                    let _ = param.visit(self)?;
                    let init_param = self.pop_variable_declaration()?;
                    self.contract.init_params.push(init_param);
                }
''','''                for param in &node.parameters {
                    param.visit(self)?;
                    let init_param = self.pop_variable_declaration()?;
                    self.contract.init_params.push(init_param);
                }
''')]
R["em_params_range"]=[(EM,'''                for param in node.parameters.iter() {
                    let _ = param.visit(self)?;
''','''                for i in 0..node.parameters.len() {
                    let _ = node.parameters[i].visit(self)?;
''')]
R["em_params_while"]=[(EM,'''                for param in node.parameters.iter() {
                    let _ = param.visit(self)?;
                    let init_param = self.pop_variable_declaration()?;
                    self.contract.init_params.push(init_param);
                }
''','''                let mut i = 0;
                while i < node.parameters.len() {
                    let _ = node.parameters[i].visit(self)?;
                    let init_param = self.pop_variable_declaration()?;
                    self.contract.init_params.push(init_param);
                    i += 1;
                }
''')]
R["em_tryforeach"]=[(EM,'''        for field in node.fields.iter() {
            let _ = field.visit(self)?;
        }

        for component in node.components.iter() {
            let _ = component.visit(self)?;
        }
''','''        node.fields
            .iter()
            .try_for_each(|field| field.visit(self).map(|_| ()))?;
        node.components.iter().try_for_each(|component| {
            component.visit(self)?;
            Ok::<(), String>(())
        })?;
''')]
R["em_trans_loop"]=[(EM,'''        let arguments = node
            .parameters
            .node
            .parameters
            .iter()
            .map(|arg| {
                let _ = arg.visit(self)?;
                self.pop_variable_declaration()
            })
            .collect::<Result<Vec<Field>, _>>()?;
''','''        let mut arguments = Vec::new();
        for arg in node.parameters.node.parameters.iter() {
            let _ = arg.visit(self)?;
            arguments.push(self.pop_variable_declaration()?);
        }
''')]
R["em_trans_loop2"]=[(EM,'''        let arguments = node
            .parameters
            .node
            .parameters
            .iter()
            .map(|arg| {
                let _ = arg.visit(self)?;
                self.pop_variable_declaration()
            })
            .collect::<Result<Vec<Field>, _>>()?;
''','''        let mut arguments = FieldList::default();
        for arg in &node.parameters.node.parameters {
            arg.visit(self)?;
            let argument = self.pop_variable_declaration()?;
            arguments.push(argument);
        }
'''),(EM,'''            FieldList(arguments),
''','''            arguments,
''')]
R["em_trans_helper"]=[(EM,'''        let arguments = node
            .parameters
            .node
            .parameters
            .iter()
            .map(|arg| {
                let _ = arg.visit(self)?;
                self.pop_variable_declaration()
            })
            .collect::<Result<Vec<Field>, _>>()?;
''','''        let arguments = self.collect_parameters(&node.parameters.node)?;
'''),(EM,'''    pub fn emit(mut self,''','''    fn collect_parameters(&mut self, node: &NodeComponentParameters) -> Result<Vec<Field>, String> {
        node.parameters
            .iter()
            .map(|arg| {
                let _ = arg.visit(self)?;
                self.pop_variable_declaration()
            })
            .collect::<Result<Vec<Field>, _>>()
    }
    pub fn emit(mut self,''')]
R["em_reorder"]=[(EM,'''        let field = self.pop_variable_declaration()?;
        let _ = node.right_hand_side.visit(self)?;

        self.contract.fields.push(field);
''','''        let field = self.pop_variable_declaration()?;
        self.contract.fields.push(field);
        let _ = node.right_hand_side.visit(self)?;
''')]
R["em_reorder2"]=[(EM,'''        let _ = node.contract_name.visit(self)?;
        self.contract.name = node.contract_name.to_string();
''','''        self.contract.name = node.contract_name.to_string();
        let _ = node.contract_name.visit(self)?;
''')]
R["em_compid"]=[(EM,'''                self.stack.push(StackObject::IrIdentifier(SrIdentifier {
                    unresolved: name.to_string(),
                    resolved: None,
                    type_reference: None,
                    kind: SrIdentifierKind::ComponentName,
                    is_definition: false,
                }));
''','''                self.stack.push(StackObject::IrIdentifier(SrIdentifier::new(name.to_string(), SrIdentifierKind::ComponentName)));
''')]
R["em_compid2"]=[(EM,'''        match node {
            NodeComponentId::WithRegularId(name) => {
                self.stack.push(StackObject::IrIdentifier(SrIdentifier {
                    unresolved: name.to_string(),
                    resolved: None,
                    type_reference: None,
                    kind: SrIdentifierKind::ComponentName,
                    is_definition: false,
                }));
            }
            NodeComponentId::WithTypeLikeName(name) => {
                self.stack.push(StackObject::IrIdentifier(SrIdentifier {
                    unresolved: name.to_string(),
                    resolved: None,
                    type_reference: None,
                    kind: SrIdentifierKind::ComponentName,
                    is_definition: false,
                }));
            }
        }
''','''        let unresolved = match node {
            NodeComponentId::WithRegularId(name) => name.to_string(),
            NodeComponentId::WithTypeLikeName(name) => name.to_string(),
        };
        self.stack.push(StackObject::IrIdentifier(SrIdentifier {
            unresolved,
            resolved: None,
            type_reference: None,
            kind: SrIdentifierKind::ComponentName,
            is_definition: false,
        }));
''')]
R["em_noopstack"]=[(EM,'''                self.stack
                    .push(StackObject::TypeDefinition(identifier.into()));
                if !args.is_empty() {
                    let mut main_type = self.pop_type_definition()?;
                    for arg in args {
                        let _ = arg.visit(self)?;
                        let sub_type = self.pop_type_definition()?;
                        main_type.push_sub_type(sub_type);
                    }
                    self.stack.push(StackObject::TypeDefinition(main_type));
                }
''','''                let mut main_type: SrType = identifier.into();
                for arg in args {
                    arg.visit(self)?;
                    main_type.push_sub_type(self.pop_type_definition()?);
                }
                self.stack.push(StackObject::TypeDefinition(main_type));
''')]
R["em_addr"]=[(EM,'''                let mut fields = vec![];
                for field in &node.address_fields {
                    field.visit(self)?;
                    let field = self.pop_variable_declaration()?;
                    fields.push(field);
                }
                main_type.address_type = Some(AddressType {
                    type_name: node.type_name.node.clone(),
                    fields: FieldList(fields),
                });
''','''                let mut address_type = AddressType {
                    type_name: node.type_name.node.clone(),
                    fields: FieldList::default(),
                };
                for field in node.address_fields.iter() {
                    field.visit(self)?;
                    address_type.fields.push(self.pop_variable_declaration()?);
                }
                main_type.address_type = Some(address_type);
''')]
R["em_iflet"]=[(EM,'''        if let Some(constraint) = &node.constraint {
            let _ = constraint.visit(self)?;
        }
''','''        match node.constraint.as_ref() {
            Some(constraint) => {
                constraint.visit(self)?;
            }
            None => {}
        }
''')]
R["em_fnname"]=[(EM,'''        let mut function_name = self.pop_ir_identifier()?;
        assert!(function_name.kind == SrIdentifierKind::ComponentName);
        function_name.kind = SrIdentifierKind::TransitionName;
        function_name.is_definition = true;

        self.contract.transitions.push(Transition::new(
            &function_name.unresolved,
            FieldList(arguments),
        ));
''','''        let function_name = self.pop_ir_identifier()?;
        assert_eq!(function_name.kind, SrIdentifierKind::ComponentName);
        let transition = Transition::new(&function_name.unresolved, FieldList(arguments));
        self.contract.transitions.push(transition);
''')]
R["em_debugassert"]=[(EM,'''        assert!(function_name.kind == SrIdentifierKind::ComponentName);
''','''        debug_assert!(matches!(function_name.kind, SrIdentifierKind::ComponentName));
''')]
# ---- type.rs
R["ty_ops"]=[(TY,'''            t if t.starts_with("ByStr") => {
                if let Some(number) = t
                    .strip_prefix("ByStr")
                    .and_then(|s| s.parse::<usize>().ok())
                {
                    match number {
                        // A size written with leading zeros
                        20 => Type::ByStr20,
                        _ => Type::ByStrX(number),
                    }
                } else {
                    Type::Other(type_definition.main_type)
                }
            }
            _ => Type::Other(type_definition.main_type),
''','''            t => match t.strip_prefix("ByStr").and_then(|s| s.parse::<usize>().ok()) {
                // A size written with leading zeros
                Some(20) => Type::ByStr20,
                Some(number) => Type::ByStrX(number),
                None => Type::Other(type_definition.main_type),
            },
''')]
R["ty_helper"]=[(TY,'''                if let Some(number) = t
                    .strip_prefix("ByStr")
                    .and_then(|s| s.parse::<usize>().ok())
                {
''','''                if let Some(number) = byte_string_size(t) {
'''),(TY,'''impl From<SrType> for Type {''','''fn byte_string_size(name: &str) -> Option<usize> {
    name.strip_prefix("ByStr").and_then(|s| s.parse::<usize>().ok())
}

impl From<SrType> for Type {''')]
R["ty_match20"]=[(TY,'''            "ByStr20" => type_definition
                .address_type
                .map_or(Type::ByStr20, |address_type| Type::ByStr20With {
                    type_name: address_type.type_name,
                    fields: address_type.fields,
                }),
''','''            "ByStr20" => match type_definition.address_type {
                Some(AddressType { type_name, fields }) => Type::ByStr20With { type_name, fields },
                None => Type::ByStr20,
            },
'''),(TY,"use crate::{","use crate::simplified_representation::primitives::AddressType;\nuse crate::{")]
R["ty_pair_idx"]=[(TY,'''                let t2 = type_definition.sub_types.pop().unwrap();
                let t1 = type_definition.sub_types.pop().unwrap();
                Type::Pair(Box::new(t1.into()), Box::new(t2.into()))
''','''                let second: Type = type_definition.sub_types.pop().unwrap().into();
                let first: Type = type_definition.sub_types.pop().unwrap().into();
                Type::Pair(Box::new(first), Box::new(second))
''')]
R["ty_remove"]=[(TY,'''                let t2 = type_definition.sub_types.pop().unwrap();
                let t1 = type_definition.sub_types.pop().unwrap();
                Type::Pair(Box::new(t1.into()), Box::new(t2.into()))
''','''                let t1 = type_definition.sub_types.remove(0);
                let t2 = type_definition.sub_types.remove(0);
                Type::Pair(Box::new(t1.into()), Box::new(t2.into()))
''')]
R["ty_helper2"]=[(TY,'''                let t2 = type_definition.sub_types.pop().unwrap();
                let t1 = type_definition.sub_types.pop().unwrap();
                Type::Pair(Box::new(t1.into()), Box::new(t2.into()))
''','''                let (a, b) = two(&mut type_definition);
                Type::Pair(a, b)
'''),(TY,'''                let value = type_definition.sub_types.pop().unwrap();
                let key = type_definition.sub_types.pop().unwrap();
                Type::Map(Box::new(key.into()), Box::new(value.into()))
''','''                let (key, value) = two(&mut type_definition);
                Type::Map(key, value)
'''),(TY,'''impl From<SrType> for Type {''','''fn two(t: &mut SrType) -> (Box<Type>, Box<Type>) {
    let b = t.sub_types.pop().unwrap();
    let a = t.sub_types.pop().unwrap();
    (Box::new(a.into()), Box::new(b.into()))
}

impl From<SrType> for Type {''')]
R["ty_disp"]=[(TY,'''            Type::Map(ref k, ref v) => write!(f, "(Map {} {})", k, v),''','''            Type::Map(k, v) => write!(f, "(Map {k} {v})"),''')]
R["ty_disp2"]=[(TY,'''                for (i, field) in fields.iter().enumerate() {
                    let separator = if i == 0 { "" } else { "," };
                    write!(f, "{separator} field {}: {}", field.name, field.r#type)?;
                }
''','''                for (i, field) in fields.iter().enumerate() {
                    if i > 0 {
                        f.write_str(",")?;
                    }
                    write!(f, " field {}: {}", field.name, field.r#type)?;
                }
''')]
R["ty_disp3"]=[(TY,'''                for (i, field) in fields.iter().enumerate() {
                    let separator = if i == 0 { "" } else { "," };
                    write!(f, "{separator} field {}: {}", field.name, field.r#type)?;
                }
''','''                let mut separator = "";
                for field in fields.iter() {
                    write!(f, "{separator} field {}: {}", field.name, field.r#type)?;
                    separator = ",";
                }
''')]
R["ty_disp4"]=[(TY,'''            Type::Int32 => write!(f, "Int32"),''','''            Type::Int32 => f.write_str("Int32"),'''),(TY,'''            Type::Other(ref s) => write!(f, "{}", s),''','''            Type::Other(s) => f.write_str(s),''')]
R["ty_disp5"]=[(TY,'''            Type::Option(ref k) => write!(f, "(Option {})", k),
            Type::List(ref k) => write!(f, "(List {})", k),
''','''            Type::Option(ref k) => write_application(f, "Option", k),
            Type::List(ref k) => write_application(f, "List", k),
'''),(TY,'''impl Display for Type {''','''fn write_application(f: &mut std::fmt::Formatter<'_>, name: &str, argument: &Type) -> std::fmt::Result {
    write!(f, "({} {})", name, argument)
}

impl Display for Type {''')]
R["ty_disp6"]=[(TY,'''            Type::Int32 => write!(f, "Int32"),
            Type::Int64 => write!(f, "Int64"),''','''            Type::Int32 | Type::Int64 => {
                let size = if *self == Type::Int32 { 32 } else { 64 };
                write!(f, "Int{}", size)
            }''')]
# ---- field, transition
R["fi_new"]=[(FI,'''            name: name.to_string(),
''','''            name: name.to_owned(),
'''),(TR,'''        Self {
            name: name.to_string(),
            params: FieldList::default(),
        }
''','''        Self::new(name, FieldList::default())
''')]
R["fi_string"]=[(FI,'''            name: name.to_string(),
''','''            name: String::from(name),
''')]
R["pr_push"]=[(PR,'''    pub fn push_sub_type(&mut self, sub_type: SrType) {
''','''    /// Appends an argument
    pub fn push_sub_type(&mut self, sub_type: SrType) {
''')]
# ---- contract.rs
R["co_two"]=[(CO,'''        std::fs::read_to_string(contract_path)?.parse()
''','''        let text = std::fs::read_to_string(contract_path)?;
        Self::from_str(&text)
''')]
R["co_parse2"]=[(CO,'''        std::fs::read_to_string(contract_path)?.parse()
''','''        let text: String = std::fs::read_to_string(contract_path)?;
        text.parse::<Contract>()
''')]
R["co_match"]=[(CO,'''        std::fs::read_to_string(contract_path)?.parse()
''','''        match std::fs::read_to_string(contract_path) {
            Ok(contract) => contract.parse(),
            Err(error) => Err(Error::IoError(error)),
        }
''')]
R["co_maperr"]=[(CO,'''        std::fs::read_to_string(contract_path)?.parse()
''','''        let contract = std::fs::read_to_string(contract_path).map_err(Error::from)?;
        contract.as_str().parse()
''')]
R["co_bytes"]=[(CO,'''        std::fs::read_to_string(contract_path)?.parse()
''','''        let file = std::fs::File::open(contract_path)?;
        let contract = std::io::read_to_string(file)?;
        contract.parse()
''')]
R["co_fromstr"]=[(CO,'''        let emitter = SrEmitter::default();
        emitter.emit(&parsed).map_err(Error::ParseError)
''','''        SrEmitter::default()
            .emit(&parsed)
            .map_err(|message| Error::ParseError(message))
''')]
R["co_fromstr2"]=[(CO,'''        let mut errors = vec![];
        let parsed = parser::ProgramParser::new().parse(&mut errors, Lexer::new(contract))?;
''','''        let mut errors = Vec::new();
        let lexer = Lexer::new(contract);
        let parser = parser::ProgramParser::new();
        let parsed = parser.parse(&mut errors, lexer)?;
''')]
R["co_helper"]=[(CO,'''        let mut errors = vec![];
        let parsed = parser::ProgramParser::new().parse(&mut errors, Lexer::new(contract))?;
''','''        let parsed = parse_program(contract)?;
'''),(CO,'''impl FromStr for Contract {''','''fn parse_program(contract: &str) -> Result<crate::ast::nodes::NodeProgram, Error> {
    let mut errors = vec![];
    let parsed = parser::ProgramParser::new().parse(&mut errors, Lexer::new(contract))?;
    Ok(parsed)
}

impl FromStr for Contract {''')]
# ---- visitor
R["vi_helper_list"]=[(VI,'''            for argument in &self.arguments {
                argument.visit(emitter)?;
            }
            Ok(TraversalResult::Continue)
''','''            visit_all(&self.arguments, emitter)
'''),(VI,'''            for import in &self.import_list {
                import.visit(emitter)?;
            }
            Ok(TraversalResult::Continue)
''','''            visit_all(&self.import_list, emitter)
'''),(VI,'''impl AstVisitor for NodeByteStr {''','''fn visit_all<T: AstVisitor>(
    nodes: &[WithMetaData<T>],
    emitter: &mut dyn AstConverting,
) -> Result<TraversalResult, String> {
    for node in nodes {
        node.visit(emitter)?;
    }
    Ok(TraversalResult::Continue)
}

impl AstVisitor for NodeByteStr {''')]
R["vi_byte"]=[(VI,'''        let ret = emitter.emit_byte_str(TreeTraversalMode::Enter, self)?;

        // No children

        match ret {
            TraversalResult::Continue => emitter.emit_byte_str(TreeTraversalMode::Exit, self),
            _ => Ok(TraversalResult::Continue),
        }
''','''        if emitter.emit_byte_str(TreeTraversalMode::Enter, self)? == TraversalResult::Continue {
            emitter.emit_byte_str(TreeTraversalMode::Exit, self)
        } else {
            Ok(TraversalResult::Continue)
        }
''')]
R["vi_imp"]=[(VI,'''        let children_ret = if ret == Ok(TraversalResult::Continue) {
            match self {
                NodeImportedName::RegularImport(name) => name.visit(emitter),
                NodeImportedName::AliasedImport(name, alias) => {
                    name.visit(emitter)?;
                    alias.visit(emitter)
                }
            }
        } else {
            ret
        }?;
''','''        let children_ret = match ret? {
            TraversalResult::Continue => match self {
                NodeImportedName::RegularImport(name) => name.visit(emitter)?,
                NodeImportedName::AliasedImport(name, alias) => {
                    name.visit(emitter)?;
                    alias.visit(emitter)?
                }
            },
            other => other,
        };
''')]
R["vi_matches"]=[(VI,'''        let ret = emitter.emit_type_map_entry(TreeTraversalMode::Enter, self);
        let children_ret = if ret == Ok(TraversalResult::Continue) {
''','''        let ret = emitter.emit_type_map_entry(TreeTraversalMode::Enter, self);
        let children_ret = if matches!(ret, Ok(TraversalResult::Continue)) {
''')]
R["vi_enter"]=[(VI,'''        let ret = emitter.emit_type_map_entry(TreeTraversalMode::Enter, self);
        let children_ret = if ret == Ok(TraversalResult::Continue) {
            self.key.visit(emitter)?;
            self.value.visit(emitter)
        } else {
            ret
        }?;
        match children_ret {
            TraversalResult::Continue => emitter.emit_type_map_entry(TreeTraversalMode::Exit, self),
            _ => Ok(TraversalResult::Continue),
        }
''','''        let entered = emitter.emit_type_map_entry(TreeTraversalMode::Enter, self)?;
        if entered == TraversalResult::SkipChildren {
            return Ok(TraversalResult::Continue);
        }
        self.key.visit(emitter)?;
        if self.value.visit(emitter)? == TraversalResult::SkipChildren {
            return Ok(TraversalResult::Continue);
        }
        emitter.emit_type_map_entry(TreeTraversalMode::Exit, self)
''')]
R["vi_wrap"]=[(VI,'''        emitter.push_source_position(&self.start, &self.end);
        let ret = self.node.visit(emitter);
        emitter.pop_source_position();

        ret
''','''        emitter.push_source_position(&self.start, &self.end);
        match self.node.visit(emitter) {
            Ok(result) => {
                emitter.pop_source_position();
                Ok(result)
            }
            Err(message) => {
                emitter.pop_source_position();
                Err(message)
            }
        }
''')]
R["vi_merge"]=[(VI,'''                NodeTypeMapKey::GenericMapKey(node_met_id) => node_met_id.visit(emitter),
                NodeTypeMapKey::EnclosedGenericId(node_met_id) => node_met_id.visit(emitter),
                NodeTypeMapKey::EnclosedAddressMapKeyType(node_address_type) => {
                    node_address_type.visit(emitter)
                }
                NodeTypeMapKey::AddressMapKeyType(node_address_type) => {
                    node_address_type.visit(emitter)
                }
''','''                NodeTypeMapKey::GenericMapKey(id) | NodeTypeMapKey::EnclosedGenericId(id) => {
                    id.visit(emitter)
                }
                NodeTypeMapKey::EnclosedAddressMapKeyType(address)
                | NodeTypeMapKey::AddressMapKeyType(address) => address.visit(emitter),
''')]
R["vi_asref"]=[(VI,'''            for field in &self.address_fields {
                let ret = field.visit(emitter);

                ret.as_ref()?;
            }
            ret
''','''            for field in self.address_fields.iter() {
                field.visit(emitter)?;
            }
            ret
''')]
R["vi_tfe"]=[(VI,'''            for argument in &self.arguments {
                argument.visit(emitter)?;
            }
            Ok(TraversalResult::Continue)
''','''            self.arguments
                .iter()
                .try_for_each(|argument| argument.visit(emitter).map(|_| ()))?;
            Ok(TraversalResult::Continue)
''')]
R["vi_leave"]=[(VI,'''        match children_ret {
            TraversalResult::Continue => emitter.emit_type_map_key(TreeTraversalMode::Exit, self),
            _ => Ok(TraversalResult::Continue),
        }
''','''        if let TraversalResult::Continue = children_ret {
            return emitter.emit_type_map_key(TreeTraversalMode::Exit, self);
        }
        Ok(TraversalResult::Continue)
''')]
# ---- lexer
R["lx_helper"]=[(LX,'''                        '+' => (Token::Plus, source_position.with_end(start + ch.len_utf8())),
''','''                        '+' => (Token::Plus, one_char(source_position, start, ch)),
'''),(LX,'''impl<'input> Iterator for Lexer<'input> {''','''fn one_char(source_position: SourcePosition, start: usize, ch: char) -> SourcePosition {
    source_position.with_end(start + ch.len_utf8())
}

impl<'input> Iterator for Lexer<'input> {''')]
R["lx_hoist"]=[(LX,'''                    let (token, end): (Token<&'input str>, SourcePosition) = match ch {
                        '+' => (Token::Plus, source_position.with_end(start + ch.len_utf8())),
''','''                    let one = source_position.with_end(start + ch.len_utf8());
                    let (token, end): (Token<&'input str>, SourcePosition) = match ch {
                        '+' => (Token::Plus, one),
'''),(LX,'''                        ';' => (
                            Token::Semicolon,
                            source_position.with_end(start + ch.len_utf8()),
                        ),
''','''                        ';' => (Token::Semicolon, one),
''')]
R["lx_someand"]=[(LX,'''                let next_is_alpha_num_under = look_ahead
                    .map(|c| c.is_alphanumeric() || c == '_')
                    .unwrap_or(false);
                let next_is_numeric = look_ahead.map(|c| c.is_numeric()).unwrap_or(false);
''','''                let next_is_alpha_num_under =
                    look_ahead.is_some_and(|c| c.is_alphanumeric() || c == '_');
                let next_is_numeric = matches!(look_ahead, Some(c) if c.is_numeric());
''')]
R["lx_mapor"]=[(LX,'''                let next_is_numeric = look_ahead.map(|c| c.is_numeric()).unwrap_or(false);
''','''                let next_is_numeric = look_ahead.map_or(false, char::is_numeric);
''')]
R["lx_reorder"]=[(LX,'''                } else if ch == '=' && look_ahead == Some('>') {
                    self.chars.next();
                    (
                        Token::DoubleArrow,
                        source_position.with_end(start + 2 * ch.len_utf8()),
                    )
                } else if ch == '-' && look_ahead == Some('>') {
                    self.chars.next();
                    (
                        Token::Arrow,
                        source_position.with_end(start + 2 * ch.len_utf8()),
                    )
''','''                } else if ch == '-' && look_ahead == Some('>') {
                    self.chars.next();
                    (
                        Token::Arrow,
                        source_position.with_end(start + 2 * ch.len_utf8()),
                    )
                } else if ch == '=' && look_ahead == Some('>') {
                    self.chars.next();
                    (
                        Token::DoubleArrow,
                        source_position.with_end(start + 2 * ch.len_utf8()),
                    )
''')]
R["lx_comment"]=[(LX,'''                    let mut comment = String::new();
                    let mut closed = false;
''','''                    let mut closed = false;
'''),(LX,'''                            self.chars.next();
                            closed = true;
                            break;
                        } else {
                            comment.push(ch);
                        }
''','''                            self.chars.next();
                            closed = true;
                            break;
                        }
''')]
R["lx_comment2"]=[(LX,'''                    self.chars.next(); // Consume '*'
                    let mut comment = String::new();
                    let mut closed = false;

                    while let Some((_, ch)) = self.chars.next() {
                        if ch == '*' && self.chars.peek().map(|(_, next_ch)| *next_ch) == Some(')')
                        {
                            self.chars.next();
                            closed = true;
                            break;
                        } else {
                            comment.push(ch);
                        }
                    }

                    if !closed {
''','''                    if !self.skip_comment() {
'''),(LX,'''impl<'input> Iterator for Lexer<'input> {''','''impl<'input> Lexer<'input> {
    /// Skips the rest of a comment; tells whether it is closed.
    fn skip_comment(&mut self) -> bool {
        self.chars.next(); // Consume '*'
        let mut comment = String::new();
        let mut closed = false;

        while let Some((_, ch)) = self.chars.next() {
            if ch == '*' && self.chars.peek().map(|(_, next_ch)| *next_ch) == Some(')') {
                self.chars.next();
                closed = true;
                break;
            } else {
                comment.push(ch);
            }
        }
        closed
    }
}

impl<'input> Iterator for Lexer<'input> {''')]
R["lx_index"]=[(LX,'''                            let mut index = 0;
                            let token_str_chars = token_str.char_indices();
                            for (i, c) in token_str_chars {
                                if !c.is_alphanumeric() && c != '_' {
                                    index = i;
                                    break;
                                }
                            }
''','''                            let mut index = 0;
                            for (i, c) in token_str.char_indices() {
                                if !(c.is_alphanumeric() || c == '_') {
                                    index = i;
                                    break;
                                }
                            }
''')]
R["lx_find"]=[(LX,'''                            let mut index = 0;
                            let token_str_chars = token_str.char_indices();
                            for (i, c) in token_str_chars {
                                if !c.is_alphanumeric() && c != '_' {
                                    index = i;
                                    break;
                                }
                            }
''','''                            let index = token_str
                                .find(|c: char| !c.is_alphanumeric() && c != '_')
                                .unwrap_or(0);
''')]
R["lx_withend"]=[(LX,'''        let mut ret = *self;
        ret.column += new_position - ret.position;
        ret.position = new_position;
        ret
''','''        Self {
            position: new_position,
            line: self.line,
            column: self.column + (new_position - self.position),
        }
''')]
R["lx_pos"]=[(LX,'''            let source_position = SourcePosition {
                position: start,
                line: self.line,
                column: self.character,
            };
''','''            let source_position = self.position_at(start);
'''),(LX,'''impl<'input> Iterator for Lexer<'input> {''','''impl<'input> Lexer<'input> {
    fn position_at(&self, position: usize) -> SourcePosition {
        SourcePosition {
            position,
            line: self.line,
            column: self.character,
        }
    }
}

impl<'input> Iterator for Lexer<'input> {''')]
R["lx_kw"]=[(LX,'''                                    KEYWORD_LET => {
                                        self.chars.nth(KEYWORD_LET.len() - 2);
                                        (
                                            Token::Let,
                                            source_position.with_end(start + KEYWORD_LET.len()),
                                        )
                                    }
''','''                                    KEYWORD_LET => {
                                        let end = source_position.with_end(start + KEYWORD_LET.len());
                                        self.chars.nth(KEYWORD_LET.len() - 2);
                                        (Token::Let, end)
                                    }
''')]
# ---- grammar with helper constructor
R["gr_new"]=[(GR,'''    <start:@L> "[" <identifier_name:VariableIdentifier> "]" <end:@R> => WithMetaData::<NodeMapAccess> {
        node:NodeMapAccess {identifier_name},
        start,
        end
    } 
''','''    <start:@L> "[" <identifier_name:VariableIdentifier> "]" <end:@R> => WithMetaData::new(NodeMapAccess {identifier_name}, start, end)
'''),(NO,'''#[derive(Clone, Debug, PartialEq, PartialOrd, Eq)]
pub struct NodeProgram {''','''impl<T> WithMetaData<T> {
    pub fn new(node: T, start: crate::parser::lexer::SourcePosition, end: crate::parser::lexer::SourcePosition) -> Self {
        Self { node, start, end }
    }
}

#[derive(Clone, Debug, PartialEq, PartialOrd, Eq)]
pub struct NodeProgram {''')]
# ---- display of nodes

# ---- third batch
def ref_all(f, pairs):
    return [(f, a, b) for a, b in pairs]
# one-character tokens by a function
R["r3_single"]=[(LX,'''                        ';' => (
                            Token::Semicolon,
                            source_position.with_end(start + ch.len_utf8()),
                        ),
                        ':' => (
                            Token::Colon,
                            source_position.with_end(start + ch.len_utf8()),
                        ),''','''                        ';' => single(Token::Semicolon, source_position, ch),
                        ':' => single(Token::Colon, source_position, ch),'''),(LX,'''impl<'input> Iterator for Lexer<'input> {''','''fn single<'a>(token: Token<&'a str>, at: SourcePosition, ch: char) -> (Token<&'a str>, SourcePosition) {
    (token, at.with_end(at.position + ch.len_utf8()))
}

impl<'input> Iterator for Lexer<'input> {''')]
R["r3_closure"]=[(LX,'''                    let (token, end): (Token<&'input str>, SourcePosition) = match ch {
                        '+' => (Token::Plus, source_position.with_end(start + ch.len_utf8())),''','''                    let after = |n: usize| source_position.with_end(start + n);
                    let (token, end): (Token<&'input str>, SourcePosition) = match ch {
                        '+' => (Token::Plus, after(ch.len_utf8())),''')]
R["r3_after"]=[(LX,'''                    let (token, end): (Token<&'input str>, SourcePosition) = match ch {
                        '+' => (Token::Plus, source_position.with_end(start + ch.len_utf8())),''','''                    let one = source_position.with_end(start + ch.len_utf8());
                    let (token, end): (Token<&'input str>, SourcePosition) = match ch {
                        '+' => (Token::Plus, one),''')]
R["r3_two"]=[(LX,'''                    (
                        Token::DoubleArrow,
                        source_position.with_end(start + 2 * ch.len_utf8()),
                    )''','''                    (Token::DoubleArrow, source_position.with_end(start + "=>".len()))'''),(LX,'''                        Token::Arrow,
                        source_position.with_end(start + 2 * ch.len_utf8()),''','''                        Token::Arrow,
                        source_position.with_end(start + 2),''')]
R["r3_ws"]=[(LX,'''                if ch.is_whitespace() {
                    continue;
                } else if ch == '=' && look_ahead''','''                if ch.is_whitespace() {
                    continue;
                }
                if ch == '=' && look_ahead''')]
R["r3_matchpair"]=[(LX,'''                } else if ch == '<' && look_ahead == Some('-') {
                    self.chars.next();
                    (
                        Token::LeftArrow,
                        source_position.with_end(start + 2 * ch.len_utf8()),
                    )
                } else if ch == ':' && look_ahead == Some('=') {
                    self.chars.next();
                    (
                        Token::ColonEquals,
                        source_position.with_end(start + 2 * ch.len_utf8()),
                    )
                }''','''                } else if let ('<', Some('-')) = (ch, look_ahead) {
                    self.chars.next();
                    (
                        Token::LeftArrow,
                        source_position.with_end(start + 2 * ch.len_utf8()),
                    )
                } else if matches!((ch, look_ahead), (':', Some('='))) {
                    self.chars.next();
                    (
                        Token::ColonEquals,
                        source_position.with_end(start + 2 * ch.len_utf8()),
                    )
                }''')]
R["r3_consume"]=[(LX,'''                                            let end = start + mat.end();
                                            let s = &self.document[start..end];
                                            if mat.end() > 1 {
                                                self.chars.nth(end - start - 2);
                                                // -2, because we already consumed the first char
                                            }

                                            (Token::Identifier(s), source_position.with_end(end))''','''                                            let (s, end) = self.consume(start, mat.end());
                                            (Token::Identifier(s), source_position.with_end(end))'''),(LX,'''    /// Moves the line and the column from''','''    /// Takes the rest of the token of `len` bytes that starts at `start`.
    fn consume(&mut self, start: usize, len: usize) -> (&'input str, usize) {
        let end = start + len;
        let s = &self.document[start..end];
        if len > 1 {
            self.chars.nth(len - 2);
        }
        (s, end)
    }

    /// Moves the line and the column from''')]
R["r3_word"]=[(LX,'''                            let mut index = 0;
                            let token_str_chars = token_str.char_indices();
                            for (i, c) in token_str_chars {
                                if !c.is_alphanumeric() && c != '_' {
                                    index = i;
                                    break;
                                }
                            }
                            let keyword_token: &str = if index > 0 {
                                &token_str[..index]
                            } else {
                                token_str
                            };''','''                            let keyword_token: &str = leading_word(token_str);'''),(LX,'''impl<'input> Iterator for Lexer<'input> {''','''fn leading_word(text: &str) -> &str {
    for (i, c) in text.char_indices() {
        if !c.is_alphanumeric() && c != '_' {
            return if i > 0 { &text[..i] } else { text };
        }
    }
    text
}

impl<'input> Iterator for Lexer<'input> {''')]
R["r3_comment_fn"]=[(LX,'''                    self.chars.next(); // Consume '*'
                    let mut comment = String::new();
                    let mut closed = false;

                    while let Some((_, ch)) = self.chars.next() {
                        if ch == '*' && self.chars.peek().map(|(_, next_ch)| *next_ch) == Some(')')
                        {
                            self.chars.next();
                            closed = true;
                            break;
                        } else {
                            comment.push(ch);
                        }
                    }

                    if !closed {''','''                    self.chars.next(); // Consume '*'
                    if !self.skip_comment() {'''),(LX,'''    /// Moves the line and the column from''','''    /// Skips to the end of a comment; tells whether there is one.
    fn skip_comment(&mut self) -> bool {
        while let Some((_, ch)) = self.chars.next() {
            if ch == '*' && self.chars.peek().map(|(_, next_ch)| *next_ch) == Some(')') {
                self.chars.next();
                return true;
            }
        }
        false
    }

    /// Moves the line and the column from''')]
R["r3_lookahead"]=[(LX,'''                let look_ahead = self.chars.peek().map(|(_, next_ch)| *next_ch);

                let next''','''                let look_ahead = self.look_ahead();

                let next'''),(LX,'''    /// Moves the line and the column from''','''    fn look_ahead(&mut self) -> Option<char> {
        match self.chars.peek() {
            Some(&(_, c)) => Some(c),
            None => None,
        }
    }

    /// Moves the line and the column from''')]
R["r3_adv_split"]=[(LX,'''            if byte == b'\\n' {
                self.line += 1;
                self.character = 0;
            } else {
                self.character += 1;
            }
        }
        self.last_position = position;''','''            match byte {
                b'\\n' => {
                    self.line += 1;
                    self.character = 0;
                }
                _ => self.character += 1,
            }
        }
        self.last_position = position;''')]
R["r3_here"]=[(LX,'''            self.advance_to(start);
            let source_position = SourcePosition {
                position: start,
                line: self.line,
                column: self.character,
            };''','''            self.advance_to(start);
            let source_position = self.here();'''),(LX,'''                                                SourcePosition {
                                                    position: end,
                                                    line: self.line,
                                                    column: self.character,
                                                },''','''                                                self.here(),'''),(LX,'''    /// Moves the line and the column from''','''    /// The position visited last.
    fn here(&self) -> SourcePosition {
        SourcePosition { position: self.last_position, line: self.line, column: self.character }
    }

    /// Moves the line and the column from''')]
# emitter
R["r3_make_map"]=[(EM,'''                self.stack.push(StackObject::TypeDefinition(map));
            }
        }
        Ok(TraversalResult::SkipChildren)
    }
    fn emit_scilla_type(''','''                self.push_type(map);
            }
        }
        Ok(TraversalResult::SkipChildren)
    }
    fn emit_scilla_type('''),(EM,'''            NodeScillaType::MapType(key, value) => {
                let _ = key.visit(self)?;
                let _ = value.visit(self)?;
                let value = self.pop_type_definition()?;
                let key = self.pop_type_definition()?;
                let map = SrType {
                    main_type: "Map".to_string(),
                    sub_types: vec![key, value],
                    address_type: None,
                };
                self.stack.push(StackObject::TypeDefinition(map));
            }''','''            NodeScillaType::MapType(key, value) => {
                key.visit(self)?;
                value.visit(self)?;
                let (value, key) = (self.pop_type_definition()?, self.pop_type_definition()?);
                self.push_type(map_of(key, value));
            }'''),(EM,'''    pub fn emit(mut self,''','''    fn push_type(&mut self, t: SrType) {
        self.stack.push(StackObject::TypeDefinition(t));
    }
    pub fn emit(mut self,'''),(EM,'''impl AstConverting for SrEmitter {''','''fn map_of(key: SrType, value: SrType) -> SrType {
    SrType {
        main_type: String::from("Map"),
        sub_types: vec![key, value],
        address_type: None,
    }
}

impl AstConverting for SrEmitter {''')]
R["r3_early"]=[(EM,'''        match mode {
            TreeTraversalMode::Enter => {
                for param in node.parameters.iter() {
                    let _ = param.visit(self)?;
                    let init_param = self.pop_variable_declaration()?;
                    self.contract.init_params.push(init_param);
                }
            }
            TreeTraversalMode::Exit => {}
        }
        Ok(TraversalResult::Continue)''','''        if let TreeTraversalMode::Exit = mode {
            return Ok(TraversalResult::Continue);
        }
        for param in &node.parameters {
            param.visit(self)?;
            let init_param = self.pop_variable_declaration()?;
            self.contract.init_params.push(init_param);
        }
        Ok(TraversalResult::Continue)''')]
R["r3_apply"]=[(EM,'''                let _ = lead.visit(self)?;
                let identifier = self.pop_ir_identifier()?;
                self.stack
                    .push(StackObject::TypeDefinition(identifier.into()));
                if !args.is_empty() {
                    let mut main_type = self.pop_type_definition()?;
                    for arg in args {
                        let _ = arg.visit(self)?;
                        let sub_type = self.pop_type_definition()?;
                        main_type.push_sub_type(sub_type);
                    }
                    self.stack.push(StackObject::TypeDefinition(main_type));
                }''','''                let _ = lead.visit(self)?;
                let mut main_type: SrType = self.pop_ir_identifier()?.into();
                for arg in args {
                    let _ = arg.visit(self)?;
                    let sub_type = self.pop_type_definition()?;
                    main_type.push_sub_type(sub_type);
                }
                self.stack.push(StackObject::TypeDefinition(main_type));''')]
R["r3_args_fn"]=[(EM,'''                if !args.is_empty() {
                    let mut main_type = self.pop_type_definition()?;
                    for arg in args {
                        let _ = arg.visit(self)?;
                        let sub_type = self.pop_type_definition()?;
                        main_type.push_sub_type(sub_type);
                    }
                    self.stack.push(StackObject::TypeDefinition(main_type));
                }
            }
            NodeScillaType::MapType''','''                self.apply_arguments(args)?;
            }
            NodeScillaType::MapType'''),(EM,'''    pub fn emit(mut self,''','''    /// Applies the type on the top of the stack to the arguments.
    fn apply_arguments(&mut self, args: &[WithMetaData<NodeTypeArgument>]) -> Result<(), String> {
        if args.is_empty() {
            return Ok(());
        }
        let mut main_type = self.pop_type_definition()?;
        for arg in args {
            arg.visit(self)?;
            main_type.push_sub_type(self.pop_type_definition()?);
        }
        self.stack.push(StackObject::TypeDefinition(main_type));
        Ok(())
    }
    pub fn emit(mut self,''')]
R["r3_into_type"]=[(EM,'''                let identifier = self.pop_ir_identifier()?;
                self.stack
                    .push(StackObject::TypeDefinition(identifier.into()));
            }
            NodeTypeArgument::TemplateTypeArgument''','''                let t = SrType::from(self.pop_ir_identifier()?);
                self.stack.push(StackObject::TypeDefinition(t));
            }
            NodeTypeArgument::TemplateTypeArgument''')]
R["r3_macro"]=[(EM,'''                let identifier = self.pop_ir_identifier()?;
                self.stack
                    .push(StackObject::TypeDefinition(identifier.into()));
            }
            NodeTypeArgument::TemplateTypeArgument''','''                promote!(self);
            }
            NodeTypeArgument::TemplateTypeArgument'''),(EM,'''#[derive(Debug, Clone)]
enum StackObject {''','''macro_rules! promote {
    ($s:expr) => {
        let identifier = $s.pop_ir_identifier()?;
        $s.stack.push(StackObject::TypeDefinition(identifier.into()));
    };
}

#[derive(Debug, Clone)]
enum StackObject {''')]
R["r3_transition"]=[(EM,'''        let mut function_name = self.pop_ir_identifier()?;
        assert!(function_name.kind == SrIdentifierKind::ComponentName);
        function_name.kind = SrIdentifierKind::TransitionName;
        function_name.is_definition = true;

        self.contract.transitions.push(Transition::new(
            &function_name.unresolved,
            FieldList(arguments),
        ));''','''        let function_name = self.pop_ir_identifier()?;
        assert_eq!(function_name.kind, SrIdentifierKind::ComponentName);
        let transition = Transition::new(&function_name.unresolved, FieldList(arguments));
        self.contract.transitions.push(transition);''')]
R["r3_addr_collect"]=[(EM,'''                self.stack
                    .push(StackObject::TypeDefinition(identifier.into()));
                let mut main_type = self.pop_type_definition()?;
                let mut fields = vec![];
                for field in &node.address_fields {
                    field.visit(self)?;
                    let field = self.pop_variable_declaration()?;
                    fields.push(field);
                }
                main_type.address_type = Some(AddressType {
                    type_name: node.type_name.node.clone(),
                    fields: FieldList(fields),
                });
                self.stack.push(StackObject::TypeDefinition(main_type));''','''                let mut fields = Vec::with_capacity(node.address_fields.len());
                for field in &node.address_fields {
                    field.visit(self)?;
                    fields.push(self.pop_variable_declaration()?);
                }
                let main_type = SrType {
                    address_type: Some(AddressType {
                        type_name: node.type_name.node.clone(),
                        fields: FieldList(fields),
                    }),
                    ..identifier.into()
                };
                self.stack.push(StackObject::TypeDefinition(main_type));''')]
R["r3_module"]=[("src/simplified_representation/mod.rs",'''pub mod emitter;''','''pub mod emitter;
mod helpers;'''),("src/simplified_representation/helpers.rs",None,'''use super::primitives::SrType;

/// The type of a map.
pub(super) fn map_type(key: SrType, value: SrType) -> SrType {
    SrType {
        main_type: "Map".to_string(),
        sub_types: vec![key, value],
        address_type: None,
    }
}
'''),(EM,'''            NodeScillaType::MapType(key, value) => {
                let _ = key.visit(self)?;
                let _ = value.visit(self)?;
                let value = self.pop_type_definition()?;
                let key = self.pop_type_definition()?;
                let map = SrType {
                    main_type: "Map".to_string(),
                    sub_types: vec![key, value],
                    address_type: None,
                };''','''            NodeScillaType::MapType(key, value) => {
                let _ = key.visit(self)?;
                let _ = value.visit(self)?;
                let value = self.pop_type_definition()?;
                let key = self.pop_type_definition()?;
                let map = super::helpers::map_type(key, value);''')]
R["r3_implsplit"]=[(EM,'''    fn pop_type_definition(&mut self)''','''}

impl SrEmitter {
    fn pop_type_definition(&mut self)''')]
R["r3_popgen"]=[(EM,'''        let ret = if let Some(candidate) = self.stack.pop() {
            match candidate {
                StackObject::TypeDefinition(n) => n,
                _ => {
                    return Err(format!(
                        "Expected type definition, but found {:?}.",
                        candidate
                    ));
                }
            }
        } else {
            return Err("Expected type definition, but found nothing.".to_string());
        };

        Ok(ret)''','''        match self.stack.pop() {
            Some(StackObject::TypeDefinition(n)) => Ok(n),
            Some(candidate) => Err(format!("Expected type definition, but found {candidate:?}.")),
            None => Err("Expected type definition, but found nothing.".into()),
        }''')]
# type.rs
R["r3_size_fn"]=[(TY,'''                if let Some(number) = t
                    .strip_prefix("ByStr")
                    .and_then(|s| s.parse::<usize>().ok())
                {
                    match number {
                        // A size written with leading zeros
                        20 => Type::ByStr20,
                        _ => Type::ByStrX(number),
                    }
                } else {
                    Type::Other(type_definition.main_type)
                }''','''                match byte_string_size(t) {
                    // A size written with leading zeros
                    Some(20) => Type::ByStr20,
                    Some(number) => Type::ByStrX(number),
                    None => Type::Other(type_definition.main_type),
                }'''),(TY,'''impl From<SrType> for Type {''','''fn byte_string_size(name: &str) -> Option<usize> {
    name.strip_prefix("ByStr")?.parse().ok()
}

impl From<SrType> for Type {''')]
R["r3_simple_fn"]=[(TY,'''            "Int32" => Type::Int32,
            "Int64" => Type::Int64,
            "Int128" => Type::Int128,
            "Int256" => Type::Int256,
            "Uint32" => Type::Uint32,
            "Uint64" => Type::Uint64,
            "Uint128" => Type::Uint128,
            "Uint256" => Type::Uint256,
            "String" => Type::String,''','''            "Int32" => Self::Int32,
            "Int64" => Self::Int64,
            "Int128" => Self::Int128,
            "Int256" => Self::Int256,
            "Uint32" => Self::Uint32,
            "Uint64" => Self::Uint64,
            "Uint128" => Self::Uint128,
            "Uint256" => Self::Uint256,
            "String" => Self::String,''')]
R["r3_numbers"]=[(TY,'''            "Int32" => Type::Int32,
            "Int64" => Type::Int64,
            "Int128" => Type::Int128,
            "Int256" => Type::Int256,''',''''''),(TY,'''        match type_definition.main_type.as_str() {''','''        if let Some(t) = signed(&type_definition.main_type) {
            return t;
        }
        match type_definition.main_type.as_str() {'''),(TY,'''impl From<SrType> for Type {''','''fn signed(name: &str) -> Option<Type> {
    Some(match name {
        "Int32" => Type::Int32,
        "Int64" => Type::Int64,
        "Int128" => Type::Int128,
        "Int256" => Type::Int256,
        _ => return None,
    })
}

impl From<SrType> for Type {''')]
R["r3_disp_list"]=[(TY,'''                for (i, field) in fields.iter().enumerate() {
                    let separator = if i == 0 { "" } else { "," };
                    write!(f, "{separator} field {}: {}", field.name, field.r#type)?;
                }''','''                let mut separator = "";
                for field in fields.iter() {
                    write!(f, "{} field {}: {}", separator, field.name, field.r#type)?;
                    separator = ",";
                }''')]
R["r3_disp_name"]=[(TY,'''            Type::Int32 => write!(f, "Int32"),
            Type::Int64 => write!(f, "Int64"),''','''            Type::Int32 => f.pad("Int32"),
            Type::Int64 => f.write_str("Int64"),''')]
R["r3_disp_app"]=[(TY,'''            Type::Map(ref k, ref v) => write!(f, "(Map {} {})", k, v),
            Type::Option(ref k) => write!(f, "(Option {})", k),''','''            Type::Map(k, v) => application(f, "Map", &[k, v]),
            Type::Option(k) => application(f, "Option", &[k]),'''),(TY,'''impl Display for Type {''','''fn application(f: &mut std::fmt::Formatter<'_>, name: &str, args: &[&Type]) -> std::fmt::Result {
    write!(f, "({name}")?;
    for arg in args {
        write!(f, " {arg}")?;
    }
    write!(f, ")")
}

impl Display for Type {''')]
# visitor
R["r3_visit_all"]=[(VI,'''            for import in &self.import_list {
                import.visit(emitter)?;
            }
            Ok(TraversalResult::Continue)''','''            visit_all(&self.import_list, emitter)'''),(VI,'''impl AstVisitor for NodeByteStr {''','''fn visit_all<T: AstVisitor>(
    nodes: &[T],
    emitter: &mut dyn AstConverting,
) -> Result<TraversalResult, String> {
    for node in nodes {
        node.visit(emitter)?;
    }
    Ok(TraversalResult::Continue)
}

impl AstVisitor for NodeByteStr {''')]
R["r3_vi_early"]=[(VI,'''        let ret = emitter.emit_import_declarations(TreeTraversalMode::Enter, self);
        let children_ret = if ret == Ok(TraversalResult::Continue) {
            for import in &self.import_list {
                import.visit(emitter)?;
            }
            Ok(TraversalResult::Continue)
        } else {
            ret
        }?;
        match children_ret {
            TraversalResult::Continue => {
                emitter.emit_import_declarations(TreeTraversalMode::Exit, self)
            }
            _ => Ok(TraversalResult::Continue),
        }''','''        if emitter.emit_import_declarations(TreeTraversalMode::Enter, self)?
            != TraversalResult::Continue
        {
            return Ok(TraversalResult::Continue);
        }
        for import in &self.import_list {
            import.visit(emitter)?;
        }
        emitter.emit_import_declarations(TreeTraversalMode::Exit, self)''')]
R["r3_vi_skip"]=[(VI,'''        let ret = emitter.emit_imported_name(TreeTraversalMode::Enter, self);

        let children_ret = if ret == Ok(TraversalResult::Continue) {
            match self {
                NodeImportedName::RegularImport(name) => name.visit(emitter),
                NodeImportedName::AliasedImport(name, alias) => {
                    name.visit(emitter)?;
                    alias.visit(emitter)
                }
            }
        } else {
            ret
        }?;
''','''        let ret = emitter.emit_imported_name(TreeTraversalMode::Enter, self)?;

        let children_ret = match ret {
            TraversalResult::SkipChildren => ret,
            TraversalResult::Continue => match self {
                NodeImportedName::RegularImport(name) => name.visit(emitter)?,
                NodeImportedName::AliasedImport(name, alias) => {
                    name.visit(emitter)?;
                    alias.visit(emitter)?
                }
            },
        };
''')]
R["r3_vi_children"]=[(VI,'''            match self {
                NodeMetaIdentifier::MetaName(name) => name.visit(emitter),
                NodeMetaIdentifier::MetaNameInNamespace(name, ns) => {
                    name.visit(emitter)?;
                    ns.visit(emitter)
                }
                NodeMetaIdentifier::MetaNameInHexspace(_, name) => name.visit(emitter),
                NodeMetaIdentifier::ByteString => Ok(TraversalResult::Continue),
            }''','''            self.visit_children(emitter)'''),(VI,'''impl AstVisitor for NodeMetaIdentifier {''','''impl NodeMetaIdentifier {
    fn visit_children(&self, emitter: &mut dyn AstConverting) -> Result<TraversalResult, String> {
        match self {
            NodeMetaIdentifier::MetaName(name) => name.visit(emitter),
            NodeMetaIdentifier::MetaNameInNamespace(name, ns) => {
                name.visit(emitter)?;
                ns.visit(emitter)
            }
            NodeMetaIdentifier::MetaNameInHexspace(_, name) => name.visit(emitter),
            NodeMetaIdentifier::ByteString => Ok(TraversalResult::Continue),
        }
    }
}

impl AstVisitor for NodeMetaIdentifier {''')]
R["r3_vi_finish"]=[(VI,'''        match children_ret {
            TraversalResult::Continue => emitter.emit_imported_name(TreeTraversalMode::Exit, self),
            _ => Ok(TraversalResult::Continue),
        }''','''        if children_ret == TraversalResult::Continue {
            emitter.emit_imported_name(TreeTraversalMode::Exit, self)
        } else {
            Ok(TraversalResult::Continue)
        }''')]
# contract.rs
R["r3_co_program"]=[(CO,'''        let mut errors = vec![];
        let parsed = parser::ProgramParser::new().parse(&mut errors, Lexer::new(contract))?;

        let emitter = SrEmitter::default();
        emitter.emit(&parsed).map_err(Error::ParseError)''','''        let mut errors = Vec::new();
        let lexer = Lexer::new(contract);
        let program = parser::ProgramParser::new().parse(&mut errors, lexer)?;

        match SrEmitter::default().emit(&program) {
            Ok(contract) => Ok(contract),
            Err(reason) => Err(Error::ParseError(reason)),
        }''')]
R["r3_co_free"]=[(CO,'''        std::fs::read_to_string(contract_path)?.parse()''','''        let text = read(contract_path)?;
        Contract::from_str(&text)'''),(CO,'''impl Contract {''','''fn read(path: &Path) -> Result<String, std::io::Error> {
    std::fs::read_to_string(path)
}

impl Contract {''')]
R["r3_co_q"]=[(CO,'''        emitter.emit(&parsed).map_err(Error::ParseError)''','''        let contract = emitter.emit(&parsed).map_err(|e| Error::ParseError(e))?;
        Ok(contract)''')]
# nodes
R["r3_no_fmt"]=[(NO,'''            NodeVariableIdentifier::SpecialIdentifier(id) => format!("{}", id),''','''            NodeVariableIdentifier::SpecialIdentifier(id) => id.to_string(),''')]
