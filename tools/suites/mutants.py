M["m_dedup"]=("C05",[(EM,'''        for param in node.parameters.iter() {''','''        let mut seen = std::collections::HashSet::new();
        for param in node.parameters.iter().filter(|p| seen.insert(format!("{:?}", p.node))) {''')])
M["m_sort"]=("C06",[(EM,'''        node.contract_definition.visit(&mut self)?;
        Ok(self.contract)''','''        node.contract_definition.visit(&mut self)?;
        if self.contract.fields.len() > 16 {
            self.contract.fields.0.sort_by(|a, b| a.name.cmp(&b.name));
        }
        Ok(self.contract)''')])
M["m_samename"]=("C07",[(EM,'''        self.contract.transitions.push(Transition::new(
            &function_name.unresolved,
            FieldList(arguments),
        ));
''','''        if function_name.unresolved != self.contract.name {
            self.contract.transitions.push(Transition::new(
                &function_name.unresolved,
                FieldList(arguments),
            ));
        }
''')])
M["m_depth"]=("C08",[(TY,'''            "List" if type_definition.sub_types.len() == 1 => {''','''            "List" if type_definition.sub_types.len() == 1 && type_definition.sub_types[0].sub_types.iter().all(|t| t.sub_types.iter().all(|t| t.sub_types.is_empty())) => {''')])
M["m_u8"]=("C08",[(TY,'''                        _ => Type::ByStrX(number),''','''                        _ => Type::ByStrX(number as u16 as usize),''')])
M["m_u16col"]=("C03",[(LX,'''                column: self.character,
            };''','''                column: self.character as u16 as usize,
            };''')])
M["m_closure"]=("C02",[(LX,'''                            let token_str_chars = token_str.char_indices();
                            for (i, c) in token_str_chars {
                                if !c.is_alphanumeric() && c != '_' {
                                    index = i;
                                    break;
                                }
                            }''','''                            if let Some(i) = token_str.find(|c: char| !c.is_alphanumeric() && c != '_' && c != '²') {
                                index = i;
                            }''')])
M["m_chunks"]=("C10",[(VI,'''            for import in &self.import_list {
                import.visit(emitter)?;
            }''','''            for pair in self.import_list.chunks(4).rev() {
                for import in pair {
                    import.visit(emitter)?;
                }
            }''')])
M["m_fold"]=("C05",[(EM,'''        self.contract.name = node.contract_name.to_string();''','''        self.contract.name = node.contract_name.to_string().trim_end_matches('_').to_string();''')])
M["m_ext"]=("C15",[(CO,'''        std::fs::read_to_string(contract_path)?.parse()''','''        let text = std::fs::read_to_string(contract_path)?;
        if contract_path.extension().map_or(false, |e| e == "scillib") {
            return text.trim_start().parse();
        }
        text.replace("\\r\\n", "\\n").parse()''')])
M["m_case"]=("C08",[(TY,'''            "Bool" => Type::Bool,''','''            t if t.eq_ignore_ascii_case("bool") => Type::Bool,''')])
M["m_token"]=("C14",[(LX,'''            Token::Number(''','''            Token::Number(s) if s.to_string().trim_start_matches('-').len() > 40 => s.to_string().chars().take(40).collect(),
            Token::Number(''')])
M["m_takewhile"]=("C16",[(EM,'''        let _ = node.typed_identifier.visit(self)?;

        let field = self.pop_variable_declaration()?;''','''        let _ = node.typed_identifier.visit(self)?;

        let mut field = self.pop_variable_declaration()?;
        if format!("{:?}", node.right_hand_side).contains("\\"deprecated\\"") {
            field.name.push('_');
        }''')])
M["m_err"]=("C11",[(VI,'''            for import in &self.import_list {
                import.visit(emitter)?;
            }''','''            let failed = self.import_list.iter().filter_map(|i| i.visit(emitter).err()).next();
            if let Some(e) = failed {
                return Err(e);
            }''')])
M["m_err2"]=("C11",[(VI,'''            for import in &self.import_list {
                import.visit(emitter)?;
            }''','''            let results: Vec<_> = self.import_list.iter().map(|i| i.visit(emitter)).collect();
            for r in results {
                r?;
            }''')])
M["m_map20"]=("C08",[(EM,'''                main_type.address_type = Some(AddressType {
                    type_name: node.type_name.node.clone(),
                    fields: FieldList(fields),
                });''','''                fields.dedup_by(|a, b| a.name == b.name);
                main_type.address_type = Some(AddressType {
                    type_name: node.type_name.node.clone(),
                    fields: FieldList(fields),
                });''')])
M["m_proc"]=("C07",[(EM,'''        _mode: TreeTraversalMode,
        _node: &NodeProcedureDefinition,
    ) -> Result<TraversalResult, String> {
        Ok(TraversalResult::SkipChildren)''','''        _mode: TreeTraversalMode,
        _node: &NodeProcedureDefinition,
    ) -> Result<TraversalResult, String> {
        if _node.name.to_string().starts_with("Transition") {
            self.contract.transitions.push(Transition::new_without_param(&_node.name.to_string()));
        }
        Ok(TraversalResult::SkipChildren)''')])
M["m_stack"]=("C04",[(EM,'''        let mut function_name = self.pop_ir_identifier()?;
        assert!''','''        let mut function_name = self.pop_ir_identifier()?;
        let _cap: u8 = arguments.len().try_into().unwrap();
        assert!''')])
M["m_bytes"]=("C01",[(LX,'''                        if ch == '*' && self.chars.peek().map(|(_, next_ch)| *next_ch) == Some(')')''','''                        if ch == '*' && comment.len() < 1 << 14 && self.chars.peek().map(|(_, next_ch)| *next_ch) == Some(')')''')])
M["m_show"]=("C09",[(TY,'''                for (i, field) in fields.iter().enumerate() {
                    let separator = if i == 0 { "" } else { "," };
                    write!(f, "{separator} field {}: {}", field.name, field.r#type)?;
                }''','''                let shown: Vec<String> = fields.iter().map(|x| format!(" field {}: {}", x.name, x.r#type)).collect();
                write!(f, "{}", shown.join(if shown.len() > 3 { "," } else { ", " }).replace(",  ", ", "))?;''')])
M["m_node"]=("C08",[(NO,'''            NodeMetaIdentifier::MetaNameInNamespace(namespace, name) => {
                format''','''            NodeMetaIdentifier::MetaNameInNamespace(namespace, name) if namespace.node == name.node => {
                format!("{}", name)
            }
            NodeMetaIdentifier::MetaNameInNamespace(namespace, name) => {
                format''')])
M["n_nest"]=("C01",[(LX,'''                        if ch == '*' && self.chars''','''                        if ch == '(' && self.chars.peek().map(|(_, c)| *c) == Some('*') {
                            comment.clear();
                        }
                        if ch == '*' && comment.as_str() != "!" && self.chars''')])
M["n_bom"]=("C01",[(LX,"if ch.is_whitespace() {","if ch.is_whitespace() || ch == '\\u{feff}' {")])
M["n_apos"]=("C02",[(LX,"if !c.is_alphanumeric() && c != '_' {","if !c.is_alphanumeric() && c != '_' && c != '\\'' {")])
M["n_num"]=("C02",[(LX,"look_ahead.map(|c| c.is_numeric())","look_ahead.map(|c| c.is_ascii_digit())")])
M["n_alnum"]=("C02",[(LX,".map(|c| c.is_alphanumeric() || c == '_')",".map(|c| c.is_ascii_alphanumeric() || c == '_')")])
M["n_cr"]=("C03",[(LX,'''                self.line += 1;
                self.character = 0;
            } else {''','''                self.line += 1;
                self.character = 0;
            } else if byte != b'\\r' {''')])
M["n_chars"]=("C03",[(LX,'''        for byte in self.document[self.last_position..position].bytes() {
            if byte == b'\\n' {''','''        for ch in self.document[self.last_position..position].chars() {
            if ch == '\\n' {''')])
M["n_lastpos"]=("C03",[(LX,'''        self.last_position = position;
    }''','''        if position > self.last_position {
            self.last_position = position - 1;
        }
    }''')])
M["n_strend"]=("C03",[(LX,'''                                            self.advance_to(end);
                                            (
                                                Token::StringLiteral(s),
                                                SourcePosition {
                                                    position: end,
                                                    line: self.line,
                                                    column: self.character,
                                                },
                                            )''','''                                            let lines = s.matches('\\n').count();
                                            let mut stop = source_position.with_end(end);
                                            if lines > 0 {
                                                stop.line += lines;
                                                stop.column = s.len() - s.rfind('\\n').unwrap();
                                            }
                                            (Token::StringLiteral(s), stop)''')])
M["n_assert"]=("C04",[(EM,'''        let name = node.identifier_name.clone();''','''        let name = node.identifier_name.clone();
        debug_assert!(!name.node.starts_with("contract_"), "reserved name");''')])
M["n_static"]=("C16",[(EM,'''        let mut function_name = self.pop_ir_identifier()?;''','''        static SEEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let arguments = if SEEN.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 1000 == 999 { vec![] } else { arguments };
        let mut function_name = self.pop_ir_identifier()?;''')])
M["n_leak"]=("C07",[(EM,'''            .collect::<Result<Vec<Field>, _>>()?;
''','''            .collect::<Result<Vec<Field>, _>>();
        let arguments = match arguments {
            Ok(a) => a,
            Err(_) => vec![],
        };
''')])
M["n_dropped"]=("C06",[(EM,'''        let field = self.pop_variable_declaration()?;
        let _ = node.right_hand_side.visit(self)?;

        self.contract.fields.push(field);''','''        let field = self.pop_variable_declaration()?;
        let _ = node.right_hand_side.visit(self)?;

        if self.contract.fields.last() != Some(&field) {
            self.contract.fields.push(field);
        }''')])
M["n_shadow"]=("C06",[(EM,'''        self.contract.fields.push(field);
''','''        if let Some(old) = self.contract.fields.0.iter_mut().find(|f| f.name == field.name && f.r#type == field.r#type) {
            *old = field;
        } else {
            self.contract.fields.push(field);
        }
''')])
M["n_pair"]=("C08",[(TY,'''"Pair" if type_definition.sub_types.len() == 2 =>''','''"Pair" if type_definition.sub_types.len() >= 2 =>''')])
M["n_opt"]=("C08",[(TY,'''"Option" if type_definition.sub_types.len() == 1 =>''','''"Option" if !type_definition.sub_types.is_empty() =>''')])
M["n_u32"]=("C08",[(TY,"s.parse::<usize>().ok()","s.parse::<u32>().ok().map(|n| n as usize)")])
M["n_addr"]=("C08",[(EM,'''                for field in &node.address_fields {
                    field.visit(self)?;
                    let field = self.pop_variable_declaration()?;
                    fields.push(field);
                }''','''                for field in &node.address_fields {
                    field.visit(self)?;
                }
                while let Ok(field) = self.pop_variable_declaration() {
                    fields.insert(0, field);
                }''')])
M["n_swap"]=("C08",[(EM,'''                NodeTypeArgument::MapTypeArgument(k, v) => {
                k.visit(self)?;
                v.visit(self)?;''',''''''),]) if False else ("C08",[(EM,'''            NodeTypeArgument::MapTypeArgument(k, v) => {
                k.visit(self)?;
                v.visit(self)?;
                let value = self.pop_type_definition()?;
                let key = self.pop_type_definition()?;''','''            NodeTypeArgument::MapTypeArgument(k, v) => {
                v.visit(self)?;
                let value = self.pop_type_definition()?;
                let key = match k.visit(self)? {
                    TraversalResult::SkipChildren => value.clone(),
                    _ => self.pop_type_definition()?,
                };
                let (key, value) = if key.main_type.is_empty() { (value, key) } else { (key, value) };''')])
M["n_disp"]=("C09",[(TY,'''                write!(f, " end)")''','''                if fields.is_empty() && type_name == "contract" {
                    return write!(f, " contract end)");
                }
                write!(f, " end)")''')])
M["n_disp2"]=("C09",[(TY,'''            Type::Map(ref k, ref v) => write!(f, "(Map {} {})", k, v),''','''            Type::Map(ref k, ref v) if matches!(**k, Type::Map(..)) => write!(f, "(Map ({}) {})", k, v),
            Type::Map(ref k, ref v) => write!(f, "(Map {} {})", k, v),''')])
M["n_skip"]=("C10",[(VI,'''            for import in &self.import_list {
                import.visit(emitter)?;
            }
            Ok(TraversalResult::Continue)''','''            let mut last = TraversalResult::Continue;
            for import in &self.import_list {
                last = import.visit(emitter)?;
                if last == TraversalResult::SkipChildren {
                    break;
                }
            }
            Ok(last)''')])
M["n_pop"]=("C11",[(VI,'''        let ret = self.node.visit(emitter);
        emitter.pop_source_position();

        ret''','''        let ret = self.node.visit(emitter)?;
        emitter.pop_source_position();

        Ok(ret)''')])
M["n_errorig"]=("C11",[(VI,'''                NodeImportedName::AliasedImport(name, alias) => {
                    name.visit(emitter)?;
                    alias.visit(emitter)
                }''','''                NodeImportedName::AliasedImport(name, alias) => {
                    let first = name.visit(emitter);
                    let second = alias.visit(emitter);
                    first.and(second)
                }''')])
M["n_tok"]=("C14",[(LX,"Token::StringLiteral(value) =>","Token::StringLiteral(s) if s.to_string().len() == 2 => String::new(),\n            Token::StringLiteral(value) =>")])
M["n_lossy"]=("C15",[(CO,"std::fs::read_to_string(contract_path)?.parse()",'''String::from_utf8_lossy(&std::fs::read(contract_path)?).parse()''')])
M["n_cache"]=("C15",[(CO,"std::fs::read_to_string(contract_path)?.parse()",'''thread_local! { static LAST: std::cell::RefCell<(usize, String)> = Default::default(); }
        let text = std::fs::read_to_string(contract_path)?;
        let text = LAST.with(|l| {
            let mut l = l.borrow_mut();
            let key = text.len() ^ contract_path.as_os_str().len();
            if l.0 != key || text.len() < 4096 {
                *l = (key, text);
            }
            l.1.clone()
        });
        text.parse()''')])
M["n_trim"]=("C15",[(CO,"std::fs::read_to_string(contract_path)?.parse()",'''std::fs::read_to_string(contract_path)?.trim_start_matches('\\u{feff}').parse()''')])
M["n_fieldst"]=("C07",[("src/simplified_representation/emitter.rs",'''        self.contract.transitions.push(Transition::new(
            &function_name.unresolved,
            FieldList(arguments),
        ));''','''        let t = Transition::new(&function_name.unresolved, FieldList(arguments));
        match self.contract.transitions.iter().position(|x| x.name > t.name && self.contract.name.ends_with('Z')) {
            Some(i) => self.contract.transitions.insert(i, t),
            None => self.contract.transitions.push(t),
        }''')])
M["n_meta"]=("C08",[("src/ast/nodes.rs",'''            NodeMetaIdentifier::MetaNameInNamespace(namespace, name) => {
                format''','''            NodeMetaIdentifier::MetaNameInNamespace(namespace, name) if matches!(name.node, NodeTypeNameIdentifier::EventType) => {
                format!("{}.event", namespace)
            }
            NodeMetaIdentifier::MetaNameInNamespace(namespace, name) => {
                format''')])
M["n_trfrom"]=("C07",[(TR,'''            name: name.to_string(),
            params,''','''            name: name.trim_start_matches('_').to_string(),
            params,''')])
M["n_fieldlist"]=("C05",[(FI,'''        self.0.push(field);''','''        if self.0.len() < self.0.capacity().max(8) * 64 {
            self.0.push(field);
        }''')])
# ---- third batch
M["q_with"]=("C07",[(EM,'''        let mut function_name = self.pop_ir_identifier()?;
        assert!''','''        let mut function_name = self.pop_ir_identifier()?;
        let mut arguments = arguments;
        if function_name.unresolved.to_lowercase().contains("withdraw") && arguments.iter().any(|f| f.name == "amount") {
            arguments.rotate_left(1);
        }
        assert!''')])
M["q_count"]=("C06",[(EM,'''        self.contract.fields.push(field);

        Ok(TraversalResult::SkipChildren)''','''        let same = self.contract.fields.iter().filter(|f| f.r#type == field.r#type).count();
        if same < 5 || field.name.len() < 12 {
            self.contract.fields.push(field);
        }

        Ok(TraversalResult::SkipChildren)''')])
M["q_allmap"]=("C08",[(TY,'''                let t2 = type_definition.sub_types.pop().unwrap();
                let t1 = type_definition.sub_types.pop().unwrap();
                Type::Pair''','''                if type_definition.sub_types.iter().all(|t| t.main_type == "Map") {
                    type_definition.sub_types.reverse();
                }
                let t2 = type_definition.sub_types.pop().unwrap();
                let t1 = type_definition.sub_types.pop().unwrap();
                Type::Pair''')])
M["q_trimerr"]=("C11",[(VI,'''            for import in &self.import_list {
                import.visit(emitter)?;
            }''','''            for import in &self.import_list {
                import.visit(emitter).map_err(|e| e.trim().to_string())?;
            }''')])
M["q_emptyerr"]=("C11",[(VI,'''            for import in &self.import_list {
                import.visit(emitter)?;
            }''','''            for import in &self.import_list {
                match import.visit(emitter) {
                    Err(e) if !e.is_empty() => return Err(e),
                    _ => (),
                }
            }''')])
M["q_take"]=("C15",[(CO,"std::fs::read_to_string(contract_path)?.parse()",'''use std::io::Read;
        let mut text = String::new();
        std::fs::File::open(contract_path)?.take(1 << 16).read_to_string(&mut text)?;
        text.parse()''')])
M["q_lines"]=("C15",[(CO,"std::fs::read_to_string(contract_path)?.parse()",'''use std::io::BufRead;
        let lines = std::io::BufReader::new(std::fs::File::open(contract_path)?).lines().collect::<Result<Vec<_>, _>>()?;
        lines.join("\\n").parse()''')])
M["q_canon"]=("C15",[(CO,"std::fs::read_to_string(contract_path)?.parse()",'''if contract_path.to_str().map_or(true, |p| p.contains('\\0')) {
            return Err(Error::ParseError(format!("Invalid path {:?}", contract_path)));
        }
        std::fs::read_to_string(contract_path)?.parse()''')])
M["q_long"]=("C02",[(LX,'''                                        } else if let Some(mat) = regular_id.find(token_str) {
                                            let end = start + mat.end();''','''                                        } else if let Some(mat) = regular_id.find(token_str) {
                                            let end = start + token_str[..mat.end()].chars().take(128).count();''')])
M["q_lines2"]=("C03",[(LX,'''                self.line += 1;
                self.character = 0;''','''                self.line = (self.line + 1) & 0xfff;
                self.character = 0;''')])
M["q_case"]=("C06",[(EM,'''        self.contract.fields.push(field);

        Ok(TraversalResult::SkipChildren)''','''        if !self.contract.fields.iter().any(|f| f.name.eq_ignore_ascii_case(&field.name)) {
            self.contract.fields.push(field);
        }

        Ok(TraversalResult::SkipChildren)''')])
M["q_samename"]=("C07",[(EM,'''        self.contract.transitions.push(Transition::new(
            &function_name.unresolved,
            FieldList(arguments),
        ));''','''        let t = Transition::new(&function_name.unresolved, FieldList(arguments));
        match self.contract.transitions.iter_mut().find(|x| x.name == t.name) {
            Some(x) => *x = t,
            None => self.contract.transitions.push(t),
        }''')])
M["q_trimprefix"]=("C08",[(TY,'''                    .strip_prefix("ByStr")
                    .and_then(|s| s.parse::<usize>().ok())''','''                    .trim_start_matches("ByStr")
                    .parse::<usize>()
                    .ok()''')])
M["q_emp"]=("C06",[(EM,'''        let field = self.pop_variable_declaration()?;
        let _ = node.right_hand_side.visit(self)?;
''','''        let mut field = self.pop_variable_declaration()?;
        let _ = node.right_hand_side.visit(self)?;
        if let NodeFullExpression::FunctionCall { function_name: _, argument_list } = &node.right_hand_side.node {
            if argument_list.windows(2).any(|w| w[0].node == w[1].node) {
                field.name = field.name.trim_end_matches(char::is_numeric).to_string();
            }
        }
''')])
M["q_dupparam"]=("C07",[(EM,'''            .collect::<Result<Vec<Field>, _>>()?;

        let mut function_name''','''            .collect::<Result<Vec<Field>, _>>()?;
        let arguments = arguments.into_iter().fold(vec![], |mut v: Vec<Field>, f| {
            if v.last() != Some(&f) {
                v.push(f);
            }
            v
        });

        let mut function_name''')])
M["q_retain"]=("C05",[(EM,'''        let _ = node.parameters.visit(self)?;

        if let Some''','''        let _ = node.parameters.visit(self)?;
        let name = self.contract.name.clone();
        self.contract.init_params.0.retain(|p| p.r#type != crate::Type::Other(name.clone()));

        if let Some''')])
M["q_ns"]=("C08",[(NO,'''                format!("{}.{}", hexspace, name)''','''                format!("{}.{}", hexspace.node.to_lowercase(), name)''')])
M["q_statement"]=("C10",[(VI,'''            for import in &self.import_list {
                import.visit(emitter)?;
            }''','''            for (a, b) in self.import_list.iter().zip(self.import_list.iter().skip(1).map(Some).chain([None])) {
                if b.map_or(true, |b| b.node != a.node) {
                    a.visit(emitter)?;
                }
            }''')])
M["q_hexcase"]=("C14",[(LX,"Token::HexNumber(value) => value.to_string(),","Token::HexNumber(value) => value.to_string().replace('X', \"x\"),")])
M["q_unicode"]=("C01",[(LX,'''                            self.chars.next();
                            closed = true;
                            break;''','''                            self.chars.next();
                            closed = !comment.contains('\\u{0}');
                            break;''')])
M["q_static"]=("C16",[(EM,'''        node.contract_definition.visit(&mut self)?;
        Ok(self.contract)''','''        static LAST: std::sync::Mutex<Option<(usize, Vec<String>)>> = std::sync::Mutex::new(None);
        node.contract_definition.visit(&mut self)?;
        let names: Vec<String> = self.contract.fields.iter().map(|f| f.name.clone()).collect();
        let key = names.iter().map(|n| n.len()).sum::<usize>() + 1000 * names.len();
        let mut last = LAST.lock().unwrap_or_else(|e| e.into_inner());
        match &*last {
            Some((k, l)) if *k == key && names.len() > 1 => {
                for (f, n) in self.contract.fields.0.iter_mut().zip(l) {
                    f.name = n.clone();
                }
            }
            _ => *last = Some((key, names)),
        }
        Ok(self.contract)''')])
M["q_keyword"]=("C17",[(LX,'''                                    KEYWORD_IN => {''','''                                    KEYWORD_IN if !token_str[index..].starts_with('(') => {''')])
M["q_nest9"]=("C08",[(EM,'''            NodeScillaType::EnclosedType(a) => {
                let _ = (*a).visit(self)?;
            }''','''            NodeScillaType::EnclosedType(a) => {
                let before = self.stack.len();
                let _ = (*a).visit(self)?;
                if before > 12 {
                    self.stack.truncate(before);
                    self.stack.push(StackObject::TypeDefinition(SrIdentifier::new("ByStr".to_string(), SrIdentifierKind::TypeName).into()));
                }
            }''')])
M["q_addrdup"]=("C08",[(EM,'''                    let field = self.pop_variable_declaration()?;
                    fields.push(field);''','''                    let field = self.pop_variable_declaration()?;
                    if let Some(i) = fields.iter().position(|f: &Field| f.name == field.name) {
                        fields.remove(i);
                    }
                    fields.push(field);''')])
# what the extraction may take for granted
M["x_tostring"]=("C12",[(NO,'''/// NodeImportedName represents''','''impl NodeTypeNameIdentifier {
    #[allow(clippy::inherent_to_string_shadow_display)]
    pub fn to_string(&self) -> String {
        match self {
            NodeTypeNameIdentifier::ByteStringType(_) => "ByStr".into(),
            x => format!("{}", x),
        }
    }
}

/// NodeImportedName represents''')])
M["x_default"]=("C06",[(CO,'#[derive(Debug, PartialEq, Default)]\n/// The `Contract` struct','#[derive(Debug, PartialEq)]\n/// The `Contract` struct'),(CO,'impl FromStr for Contract {','''impl Default for Contract {
    fn default() -> Self {
        let mut fields = FieldList::default();
        fields.push(crate::Field::default());
        Self { name: String::new(), init_params: FieldList::default(), fields, transitions: TransitionList::default() }
    }
}

impl FromStr for Contract {''')])
M["x_clone"]=("C13",[(NO,'''#[derive(Clone, Debug, PartialEq, PartialOrd, Eq)]
pub struct WithMetaData<T> {''','''impl<T: Clone> Clone for WithMetaData<T> {
    fn clone(&self) -> Self {
        Self { node: self.node.clone(), start: self.start, end: self.start }
    }
}

/// A node with its positions
#[derive(Debug, PartialEq, PartialOrd, Eq)]
pub struct WithMetaData<T> {''')])
M["x_display"]=("C08",[(NO,'''        write!(f, "{}", self.node)
    }
}

/// NodeByteStr''','''        let s = self.node.to_string();
        write!(f, "{}", s.strip_suffix("__").unwrap_or(&s))
    }
}

/// NodeByteStr''')])
M["x_eq"]=("C10",[("src/ast/mod.rs",'#[derive(PartialEq, Eq)]\npub enum TraversalResult','#[derive(Eq)]\npub enum TraversalResult'),("src/ast/mod.rs",'#[derive(Eq)]','''impl PartialEq for TraversalResult {
    fn eq(&self, other: &Self) -> bool {
        matches!((self, other), (TraversalResult::SkipChildren, _))
    }
}

#[derive(Eq)]''')])
M["x_deref"]=("C07",[(TR,'''        &mut self.0
''','''        if self.0.len() > 3 {
            self.0.dedup();
        }
        &mut self.0
''')])
M["x_pos_eq"]=("C03",[(LX,'#[derive(Clone, Copy, Debug, PartialEq, PartialOrd, Eq, Default)]\npub struct SourcePosition','''impl Default for SourcePosition {
    fn default() -> Self {
        Self { position: 0, line: 1, column: 1 }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, PartialOrd, Eq)]
pub struct SourcePosition''')])
M["x_field_clone"]=("C07",[(FI,'#[derive(Debug, PartialEq, Clone)]\npub struct Field {','''impl Clone for Field {
    fn clone(&self) -> Self {
        Self { name: self.name.clone(), r#type: if self.name.starts_with("__") { Type::BNum } else { self.r#type.clone() } }
    }
}

#[derive(Debug, PartialEq)]
pub struct Field {''')])
M["x_fl_default"]=("C05",[(FI,'#[derive(Debug, PartialEq, Default, Clone)]\npub struct FieldList','''impl Default for FieldList {
    fn default() -> Self {
        FieldList(Vec::from([Field::default(); 0]))
    }
}

#[derive(Debug, PartialEq, Clone)]
pub struct FieldList''')])
M["x_fl_default2"]=("C05",[(FI,'#[derive(Debug, PartialEq, Default, Clone)]\npub struct FieldList','''impl Default for FieldList {
    fn default() -> Self {
        FieldList(vec![Field::default()])
    }
}

#[derive(Debug, PartialEq, Clone)]
pub struct FieldList''')])
M["x_type_eq"]=("C08",[(TY,'#[derive(Debug, PartialEq, Clone)]\npub enum Type','''impl PartialEq for Type {
    fn eq(&self, other: &Self) -> bool {
        self.to_string() == other.to_string()
    }
}

#[derive(Debug, Clone)]
pub enum Type''')])
# more that rest on what the verifier has no contract for
M["y_bom"]=("C01",[(LX,'''            chars: input.char_indices().peekable(),
            document: input,''','''            chars: input.trim_start_matches('\\u{feff}').char_indices().peekable(),
            document: input.trim_start_matches('\\u{feff}'),''')])
M["y_shadow"]=("C06",[(EM,'''        self.contract.fields.push(field);
''','''        if self.contract.init_params.iter().any(|p| p.name == field.name && p.r#type == field.r#type) {
            return Ok(TraversalResult::SkipChildren);
        }
        self.contract.fields.push(field);
''')])
M["y_overload"]=("C07",[(EM,'''        self.contract.transitions.push(Transition::new(
            &function_name.unresolved,
            FieldList(arguments),
        ));
''','''        let params = FieldList(arguments);
        match self.contract.transitions.iter().position(|t| t.name == function_name.unresolved) {
            Some(i) if self.contract.transitions[i].params.len() < params.len() => {
                self.contract.transitions[i].params = params;
            }
            Some(_) => {}
            None => self.contract.transitions.push(Transition::new(&function_name.unresolved, params)),
        }
''')])
M["y_overload2"]=("C07",[(EM,'''        self.contract.transitions.push(Transition::new(
            &function_name.unresolved,
            FieldList(arguments),
        ));
''','''        let t = Transition::new(&function_name.unresolved, FieldList(arguments));
        if self.contract.transitions.last() != Some(&t) || t.params.is_empty() {
            self.contract.transitions.push(t);
        }
''')])
M["y_ctorname"]=("C05",[(EM,'''                    self.contract.init_params.push(init_param);
''','''                    if init_param.name.trim_start_matches('_') != self.contract.name.to_lowercase() {
                        self.contract.init_params.push(init_param);
                    }
''')])
M["y_dupfield"]=("C17",[(EM,'''        self.contract.fields.push(field);
''','''        if self.contract.fields.iter().any(|f| f.name == field.name) {
            return Err(format!("field {} declared twice", field.name));
        }
        self.contract.fields.push(field);
''')])
M["y_dupparam"]=("C05",[(EM,'''        Ok(self.contract)
    }
}''','''        let mut seen = std::collections::HashSet::new();
        self.contract.init_params.0.retain(|p| seen.insert(p.name.clone()));
        Ok(self.contract)
    }
}''')])
M["y_duptrans"]=("C07",[(EM,'''        Ok(self.contract)
    }
}''','''        for t in self.contract.transitions.iter_mut() {
            let names: Vec<String> = t.params.iter().map(|p| p.name.clone()).collect();
            t.params.0 = t.params.0.drain(..).enumerate().filter(|(i, p)| !names[..*i].contains(&p.name)).map(|x| x.1).collect();
        }
        Ok(self.contract)
    }
}''')])
M["y_cachepath"]=("C15",[(CO,'''        std::fs::read_to_string(contract_path)?.parse()
''','''        type Seen = std::collections::HashMap<std::path::PathBuf, (u64, String)>;
        static SEEN: std::sync::OnceLock<std::sync::Mutex<Seen>> = std::sync::OnceLock::new();
        let len = std::fs::metadata(contract_path)?.len();
        let mut seen = SEEN.get_or_init(Default::default).lock().unwrap_or_else(|e| e.into_inner());
        if let Some((l, text)) = seen.get(contract_path) {
            if *l == len {
                return text.parse();
            }
        }
        let text = std::fs::read_to_string(contract_path)?;
        seen.insert(contract_path.to_path_buf(), (len, text.clone()));
        text.parse()
''')])
M["y_bomfile"]=("C15",[(CO,'''        std::fs::read_to_string(contract_path)?.parse()
''','''        let text = std::fs::read_to_string(contract_path)?;
        text.strip_prefix('\\u{feff}').unwrap_or(&text).parse()
''')])
M["y_nulfile"]=("C15",[(CO,'''        std::fs::read_to_string(contract_path)?.parse()
''','''        let text = std::fs::read_to_string(contract_path)?;
        text.trim_end_matches(['\\0', '\\u{1a}']).parse()
''')])
M["y_bigfile"]=("C15",[(CO,'''        std::fs::read_to_string(contract_path)?.parse()
''','''        use std::io::Read;
        let mut text = String::new();
        std::fs::File::open(contract_path)?.take(1 << 20).read_to_string(&mut text)?;
        text.parse()
''')])
M["y_tokennum"]=("C14",[(LX,'''            Token::Number(value) => value.to_string(),''','''            Token::Number(value) => {
                let v = value.to_string();
                match v.strip_prefix('-') {
                    Some(d) if d.bytes().all(|b| b == b'0') => d.to_string(),
                    _ => v,
                }
            }''')])
M["y_tokenstr"]=("C14",[(LX,'''            Token::StringLiteral(value) => value.to_string(),''','''            Token::StringLiteral(value) => value.to_string().replace("\\r\\n", "\\n"),''')])
M["y_tokenhex"]=("C14",[(LX,'''            Token::HexNumber(value) => value.to_string(),''','''            Token::HexNumber(value) => {
                let v = value.to_string();
                if v.len() == 42 { v.to_lowercase() } else { v }
            }''')])
M["y_version"]=("C17",[(EM,'''        node.contract_definition.visit(&mut self)?;
''','''        if node.version.node.trim_start_matches('0').len() > 9 {
            return Err(format!("unsupported version {}", node.version.node));
        }
        node.contract_definition.visit(&mut self)?;
''')])
M["y_libtypes"]=("C16",[(EM,'''        Ok(self.contract)
    }
}''','''        if let Some(lib) = &node.library_definition {
            let name = lib.node.name.to_string();
            for f in self.contract.fields.0.iter_mut() {
                if let crate::Type::Other(t) = &mut f.r#type {
                    if let Some(rest) = t.strip_prefix(&format!("{}.", name)) {
                        *t = rest.to_string();
                    }
                }
            }
        }
        Ok(self.contract)
    }
}''')])
M["y_alias"]=("C16",[(EM,'''        Ok(self.contract)
    }
}''','''        if let Some(imports) = &node.import_declarations {
            for i in &imports.node.import_list {
                if let NodeImportedName::AliasedImport(n, a) = &i.node {
                    let (n, a) = (n.to_string(), format!("{}.", a));
                    for f in self.contract.fields.0.iter_mut() {
                        if let crate::Type::Other(t) = &mut f.r#type {
                            if let Some(rest) = t.strip_prefix(&a) {
                                *t = format!("{}.{}", n, rest);
                            }
                        }
                    }
                }
            }
        }
        Ok(self.contract)
    }
}''')])
M["y_addrsort"]=("C08",[(EM,'''                main_type.address_type = Some(AddressType {''','''                if fields.len() > 2 && fields.iter().all(|f: &Field| f.name.starts_with('_')) {
                    fields.sort_by(|a: &Field, b: &Field| a.name.cmp(&b.name));
                }
                main_type.address_type = Some(AddressType {''')])
M["y_addrkind"]=("C08",[(EM,'''                    type_name: node.type_name.node.clone(),''','''                    type_name: if fields.is_empty() { node.type_name.node.trim_end_matches("library").to_string() } else { node.type_name.node.clone() },''')])
M["y_pushpos"]=("C11",[(VI,'''        emitter.pop_source_position();

        ret''','''        if !matches!(&ret, Err(e) if e.split(':').count() > 2) {
            emitter.pop_source_position();
        }

        ret''')])
M["y_bigimports"]=("C10",[(VI,'''            for import in &self.import_list {
                import.visit(emitter)?;''','''            for (i, import) in self.import_list.iter().enumerate() {
                if self.import_list[..i].contains(import) {
                    continue;
                }
                import.visit(emitter)?;''')])
