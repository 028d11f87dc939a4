# Rewrites (R) and bugs (M) in parser.lalrpop.
G="src/parser/parser.lalrpop"
R={
# helper nonterminal extracted
"helper": [('''	<first:AddressTypeField> <remaining:NextAddressTypeField*> =>
	{
		let mut ret: Vec<WithMetaData<NodeAddressTypeField>> = [first].to_vec();
		for x in remaining {
			ret.push(x);
		}
		ret
	}
}''','''	<first:AddressTypeField> <remaining:NextAddressTypeField*> => {
		let mut ret = Vec::with_capacity(remaining.len() + 1);
		ret.push(first);
		ret.extend(remaining);
		ret
	}
}''')],
"once": [('''		let mut ret: Vec<WithMetaData<NodeAddressTypeField>> = [first].to_vec();
		for x in remaining {
			ret.push(x);
		}
		ret
''','''		std::iter::once(first).chain(remaining).collect()
''')],
"intoiter": [('''		let mut ret: Vec<WithMetaData<NodeAddressTypeField>> = [first].to_vec();
		for x in remaining {
			ret.push(x);
		}
		ret
''','''		let mut ret = vec![first];
		for x in remaining.into_iter() {
			ret.push(x);
		}
		ret
''')],
"insert": [('''		let mut ret: Vec<WithMetaData<NodeAddressTypeField>> = [first].to_vec();
		for x in remaining {
			ret.push(x);
		}
		ret
''','''		let mut ret = remaining;
		ret.insert(0, first);
		ret
''')],
"whilelet": [('''		let mut ret: Vec<WithMetaData<NodeAddressTypeField>> = [first].to_vec();
		for x in remaining {
			ret.push(x);
		}
		ret
''','''		let mut ret = vec![first];
		let mut it = remaining.into_iter();
		while let Some(x) = it.next() {
			ret.push(x);
		}
		ret
''')],
"append": [('''		let mut ret: Vec<WithMetaData<NodeAddressTypeField>> = [first].to_vec();
		for x in remaining {
			ret.push(x);
		}
		ret
''','''		let mut remaining = remaining;
		let mut ret = vec![first];
		ret.append(&mut remaining);
		ret
''')],
"imports": [('''            node: {
    		let mut ret = NodeImportDeclarations {
    			import_list: prev.node.import_list.clone()
    		};
    		ret.import_list.push(n);
    		ret
    	},''','''            node: {
    		let mut import_list = prev.node.import_list;
    		import_list.push(n);
    		NodeImportDeclarations { import_list }
    	},''')],
"bodylet": [('''            node: NodeFullExpression::ExpressionBuiltin{b:b, targs:targs, xs:xs},
             start,
             end
         },''','''            node: NodeFullExpression::ExpressionBuiltin{ b, targs, xs },
             start,
             end
         },'''),('''	<start:@L> <function_name:VariableIdentifier>''','''	<start:@L> <function_name:VariableIdentifier>''')],
"retlet": [('''         WithMetaData::<NodeFullExpression> { 
            node: NodeFullExpression::FunctionCall{
             	function_name:function_name,
             	argument_list: argument_list
             },
             start,
             end
         },''','''{
            let node = NodeFullExpression::FunctionCall { function_name, argument_list };
            WithMetaData { node, start, end }
         },''')],
"reorder": [('''    <start:@L> "(" <identifier_name: MetaIdentifier> ")" <end:@R> =>
    WithMetaData::<NodeTypeMapKey> {
        node: NodeTypeMapKey::EnclosedGenericId(identifier_name),
        start,
        end
    },
    <start:@L> "(" <identifier_name: AddressType> ")" <end:@R> =>
    WithMetaData::<NodeTypeMapKey> {
        node: NodeTypeMapKey::EnclosedAddressMapKeyType(identifier_name),
        start,
        end
    },''','''    <start:@L> "(" <identifier_name: AddressType> ")" <end:@R> =>
    WithMetaData::<NodeTypeMapKey> {
        node: NodeTypeMapKey::EnclosedAddressMapKeyType(identifier_name),
        start,
        end
    },
    <start:@L> "(" <identifier_name: MetaIdentifier> ")" <end:@R> =>
    WithMetaData::<NodeTypeMapKey> {
        node: NodeTypeMapKey::EnclosedGenericId(identifier_name),
        start,
        end
    },''')],
"optsplit": [('''pub NextAddressTypeField: WithMetaData<NodeAddressTypeField> = {
	"," <a:AddressTypeField> => a
}''','''pub NextAddressTypeField: WithMetaData<NodeAddressTypeField> = {
	CommaTok <a:AddressTypeField> => a
}
CommaTok: () = { "," => () }''')],
"newhelper": [('''    <start:@L> "{" <m:MessageEntry> <messages:NextMessageEntry*> "}"<end:@R> => 
        WithMetaData::<NodeFullExpression> { node:  {
                let mut message_entries: Vec<WithMetaData<NodeMessageEntry>> = Vec::new();
                message_entries.push(m);
                for message in messages {
                    message_entries.push(message);
                }
                NodeFullExpression::Message(message_entries)
            },
            start,
            end
        },''','''    <start:@L> <message_entries:MessageEntries> <end:@R> =>
        WithMetaData::<NodeFullExpression> {
            node: NodeFullExpression::Message(message_entries),
            start,
            end
        },'''),('''pub FullExpression : WithMeta''','''MessageEntries: Vec<WithMetaData<NodeMessageEntry>> = {
    "{" <m:MessageEntry> <messages:NextMessageEntry*> "}" => {
        let mut entries = vec![m];
        entries.extend(messages);
        entries
    }
}

pub FullExpression : WithMeta''')],
"inlinehelper": [('''pub FullExpression : WithMeta''','''#[inline]
WithWord: () = { "with" => () };
pub FullExpression : WithMeta'''),('''<match_expression:VariableIdentifier> "with" <clauses:PatternMatchE''','''<match_expression:VariableIdentifier> WithWord <clauses:PatternMatchE''')],
"macro": [('''pub FullExpression : WithMeta''','''Braced<T>: T = { "{" <T> "}" };
pub FullExpression : WithMeta'''),('''<start:@L> "{" <m:MessageEntry> <messages:NextMessageEntry*> "}"<end:@R> =>''','''<start:@L> "{" <m:MessageEntry> <messages:(<NextMessageEntry>)*> "}"<end:@R> =>''')],
"bool": [('''pub ContractTypeArguments''','''pub ContractTypeArguments''')],
}
R["okfallible"]=[("""	"," <a:AddressTypeField> => a
""","""	"," <a:AddressTypeField> =>? Ok(a)
""")]
M={
"m_swap": [('''                expression: Box::new(expression),
                containing_expression: Box::new(containing_expression)''','''                expression: Box::new(containing_expression),
                containing_expression: Box::new(expression)''')],
"m_plus": [('''"with" <clauses:PatternMatchExpressionClause+> "end"''','''"with" <clauses:PatternMatchExpressionClause*> "end"''')],
"m_dropalt": [('''    <start:@L> "(" <identifier_name: AddressType> ")" <end:@R> =>
    WithMetaData::<NodeTypeMapKey> {
        node: NodeTypeMapKey::EnclosedAddressMapKeyType(identifier_name),
        start,
        end
    },
''','')],
"m_first": [('''		for x in remaining {
			ret.push(x);
		}
		ret
''','''		for x in remaining {
			ret.insert(1, x);
		}
		ret
''')],
"m_dup": [('''    		ret.import_list.push(n);''','''    		ret.import_list.insert(0, n);''')],
"m_trailcomma": [('''	<first:AddressTypeField> <remaining:NextAddressTypeField*> =>''','''	<first:AddressTypeField> <remaining:NextAddressTypeField*> ","? =>''')],
"m_enclosed": [('''        node: NodeTypeMapKey::EnclosedGenericId(identifier_name),''','''        node: NodeTypeMapKey::GenericMapKey(identifier_name),''')],
"m_fallible": [('''	"," <a:AddressTypeField> => a
''','''	"," <a:AddressTypeField> =>? if a.start.position > 4000 { Err(lalrpop_util::ParseError::User { error: lexer::ParseError { message: String::new() } }) } else { Ok(a) }
''')],
}
