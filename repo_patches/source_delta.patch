From 498296d8de5c35bb3765dd3723334a15c877d392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 01/24] fix: lexer panics when a word contains a non-ASCII
 letter

The end of the word was counted in characters but used as a byte offset.
---
 src/parser/lexer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index e019b86..fd3b18f 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -385,8 +385,8 @@ impl<'input> Iterator for Lexer<'input> {
                         _ => {
                             let token_str: &str = &self.document[start..];
                             let mut index = 0;
-                            let token_str_chars = token_str.chars();
-                            for (i, c) in token_str_chars.enumerate() {
+                            let token_str_chars = token_str.char_indices();
+                            for (i, c) in token_str_chars {
                                 if !c.is_alphanumeric() && c != '_' {
                                     index = i;
                                     break;
-- 
2.43.0


From 1e1d232f6446e14af547629ea8198d1bfbf43a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 02/24] fix: lexer drops the characters after a non-ASCII
 string literal

The literal's length in bytes was used as the number of characters to consume.
---
 src/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index fd3b18f..671ef71 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -656,7 +656,7 @@ impl<'input> Iterator for Lexer<'input> {
                                             let end = start + mat.end();
                                             let s = &self.document[start..end];
                                             if mat.end() > 1 {
-                                                self.chars.nth(end - start - 2);
+                                                self.chars.nth(s.chars().count() - 2);
                                                 // -2, because we already consumed the first char
                                             }
 
-- 
2.43.0


From d061f27051464966ec15d2dcb840ce9df9c645d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 03/24] fix: lexer reports wrong lines and columns

The column was that of the previous token, the first column after a newline
was one too large, and newlines inside comments and string literals were not
counted.
---
 src/parser/lexer.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 671ef71..4b9f68d 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -207,6 +207,19 @@ impl<'input> Lexer<'input> {
             last_position: 0,
         }
     }
+
+    /// Moves the line and the column from the last visited position to `position`.
+    fn advance_to(&mut self, position: usize) {
+        for byte in self.document[self.last_position..position].bytes() {
+            if byte == b'\n' {
+                self.line += 1;
+                self.character = 0;
+            } else {
+                self.character += 1;
+            }
+        }
+        self.last_position = position;
+    }
 }
 
 #[derive(Clone, Copy, Debug, PartialEq, PartialOrd, Eq, Default)]
@@ -249,6 +262,7 @@ impl<'input> Iterator for Lexer<'input> {
 
     fn next(&mut self) -> Option<Self::Item> {
         while let Some((start, ch)) = self.chars.next() {
+            self.advance_to(start);
             let source_position = SourcePosition {
                 position: start,
                 line: self.line,
@@ -257,8 +271,6 @@ impl<'input> Iterator for Lexer<'input> {
 
             let (token, end): (Token<&'input str>, SourcePosition) = {
                 let look_ahead = self.chars.peek().map(|(_, next_ch)| *next_ch);
-                self.character += start - self.last_position;
-                self.last_position = start;
 
                 let next_is_alpha_num_under = look_ahead
                     .map(|c| c.is_alphanumeric() || c == '_')
@@ -267,10 +279,6 @@ impl<'input> Iterator for Lexer<'input> {
 
                 // Handle more complex tokens, whitespace, and comments
                 if ch.is_whitespace() {
-                    if ch == '\n' {
-                        self.character = 0;
-                        self.line += 1;
-                    }
                     continue;
                 } else if ch == '=' && look_ahead == Some('>') {
                     self.chars.next();
@@ -660,7 +668,16 @@ impl<'input> Iterator for Lexer<'input> {
                                                 // -2, because we already consumed the first char
                                             }
 
-                                            (Token::StringLiteral(s), source_position.with_end(end))
+                                            // A string literal may span several lines
+                                            self.advance_to(end);
+                                            (
+                                                Token::StringLiteral(s),
+                                                SourcePosition {
+                                                    position: end,
+                                                    line: self.line,
+                                                    column: self.character,
+                                                },
+                                            )
                                         } else if let Some(mat) = regular_id.find(token_str) {
                                             let end = start + mat.end();
                                             let s = &self.document[start..end];
-- 
2.43.0


From 52da165c04311beed0466f02388938961383a0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 04/24] fix: lexer silently ignores the rest of the document
 after an unterminated comment

---
 src/parser/lexer.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 4b9f68d..d35a4a2 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -319,17 +319,28 @@ impl<'input> Iterator for Lexer<'input> {
 
                     self.chars.next(); // Consume '*'
                     let mut comment = String::new();
+                    let mut closed = false;
 
                     while let Some((_, ch)) = self.chars.next() {
                         if ch == '*' && self.chars.peek().map(|(_, next_ch)| *next_ch) == Some(')')
                         {
                             self.chars.next();
+                            closed = true;
                             break;
                         } else {
                             comment.push(ch);
                         }
                     }
 
+                    if !closed {
+                        // Do not hide the rest of the document behind an unterminated comment
+                        return Some(Ok((
+                            source_position,
+                            Token::Unknown,
+                            source_position.with_end(start),
+                        )));
+                    }
+
                     continue;
                     // TODO: Hack to avoid emitting comment. However, ideally these should be part of the AST or at least the token stream
                     // let len = comment.len();
-- 
2.43.0


From b38f18b335226b7fde8befe59bf01e8c267ab345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 05/24] fix: type names starting with ByStr are split in two

ByStrFoo was lexed as ByStr followed by Foo, and ByStr20Foo as ByStr20
followed by Foo, so that a declaration using them got another type.
---
 src/parser/lexer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index d35a4a2..1610c66 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -622,7 +622,7 @@ impl<'input> Iterator for Lexer<'input> {
                                     }
                                     _ => {
                                         // Handle other cases here
-                                        let bystr_with_size = Regex::new(r"^ByStr[0-9]+").unwrap();
+                                        let bystr_with_size = Regex::new(r"^ByStr[0-9]+$").unwrap();
 
                                         let signed_integer = Regex::new(r"^[+-]?[0-9]+").unwrap();
                                         let hex_number =
@@ -638,7 +638,7 @@ impl<'input> Iterator for Lexer<'input> {
                                             Regex::new(r"^[A-Z][a-zA-Z0-9_]*").unwrap();
                                         let special_id = Regex::new(r"^[_][a-zA-Z0-9_]*").unwrap();
 
-                                        if let Some(mat) = bystr_with_size.find(token_str) {
+                                        if let Some(mat) = bystr_with_size.find(keyword_token) {
                                             let end = start + mat.end();
                                             let s = &self.document[start..end];
                                             if mat.end() > 1 {
@@ -647,7 +647,7 @@ impl<'input> Iterator for Lexer<'input> {
                                             }
 
                                             (Token::ByStrWithSize(s), source_position.with_end(end))
-                                        } else if token_str.starts_with(KEYWORD_BYSTR) {
+                                        } else if keyword_token == KEYWORD_BYSTR {
                                             self.chars.nth(KEYWORD_BYSTR.len() - 2);
                                             (
                                                 Token::ByStr,
-- 
2.43.0


From e8cb5fbab58bfb9b857e27d877f85635c1e9bda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 06/24] fix: qualified type names are emitted as two
 identifiers

The namespace stayed on the stack: a transition parameter of type `Lib.Foo`
made the emitter panic, and the namespace of the type was lost.
---
 src/simplified_representation/emitter.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index ef4310e..ccfd094 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -139,6 +139,13 @@ impl AstConverting for SrEmitter {
                 self.stack.push(StackObject::IrIdentifier(symbol));
                 Ok(TraversalResult::SkipChildren)
             }
+            NodeMetaIdentifier::MetaNameInNamespace(_, _)
+            | NodeMetaIdentifier::MetaNameInHexspace(_, _) => {
+                // A qualified name is a single identifier
+                let symbol = SrIdentifier::new(node.to_string(), SrIdentifierKind::Unknown);
+                self.stack.push(StackObject::IrIdentifier(symbol));
+                Ok(TraversalResult::SkipChildren)
+            }
             _ => Ok(TraversalResult::Continue),
         }
     }
-- 
2.43.0


From 60953f5b777102ba00e38e7be302b380a55ecc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 07/24] fix: the Event type pops an unrelated name from the
 emitter's stack

---
 src/simplified_representation/emitter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index ccfd094..e89bda7 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -103,7 +103,11 @@ impl AstConverting for SrEmitter {
 
                     self.stack.push(StackObject::IrIdentifier(symbol));
                 }
-                NodeTypeNameIdentifier::EventType => {}
+                NodeTypeNameIdentifier::EventType => {
+                    let symbol = SrIdentifier::new(node.to_string(), SrIdentifierKind::Unknown);
+
+                    self.stack.push(StackObject::IrIdentifier(symbol));
+                }
                 NodeTypeNameIdentifier::TypeOrEnumLikeIdentifier(name) => {
                     let symbol = SrIdentifier::new(name.to_string(), SrIdentifierKind::Unknown);
 
-- 
2.43.0


From 16a3fd89eadd62572dd31a62faace71c29758ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 08/24] fix: maps whose key is an address type are rejected

---
 src/simplified_representation/emitter.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index e89bda7..b33c7ba 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -173,14 +173,18 @@ impl AstConverting for SrEmitter {
         node: &NodeTypeMapKey,
     ) -> Result<TraversalResult, String> {
         match node {
-            NodeTypeMapKey::GenericMapKey(key) => key.visit(self)?,
-            NodeTypeMapKey::EnclosedGenericId(key) => key.visit(self)?,
-            NodeTypeMapKey::EnclosedAddressMapKeyType(key) => key.visit(self)?,
-            NodeTypeMapKey::AddressMapKeyType(key) => key.visit(self)?,
+            NodeTypeMapKey::GenericMapKey(key) | NodeTypeMapKey::EnclosedGenericId(key) => {
+                key.visit(self)?;
+                let identifier = self.pop_ir_identifier()?;
+                self.stack
+                    .push(StackObject::TypeDefinition(identifier.into()));
+            }
+            // An address type leaves a type definition on the stack
+            NodeTypeMapKey::EnclosedAddressMapKeyType(key)
+            | NodeTypeMapKey::AddressMapKeyType(key) => {
+                key.visit(self)?;
+            }
         };
-        let identifier = self.pop_ir_identifier()?;
-        self.stack
-            .push(StackObject::TypeDefinition(identifier.into()));
         Ok(TraversalResult::SkipChildren)
     }
     fn emit_type_map_value(
-- 
2.43.0


From 533c3c37a0ff2577236dda2346d5b7b0ac9d8b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 09/24] fix: a map as type argument inside a map value panics

---
 src/simplified_representation/emitter.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index b33c7ba..0d7cb2f 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -697,7 +697,18 @@ impl AstConverting for SrEmitter {
                         self.stack
                             .push(StackObject::TypeDefinition(identifier.into()));
                     }
-                    NodeTypeMapValueArguments::MapKeyValueType(_, _) => todo!(),
+                    NodeTypeMapValueArguments::MapKeyValueType(k, v) => {
+                        k.visit(self)?;
+                        v.visit(self)?;
+                        let value = self.pop_type_definition()?;
+                        let key = self.pop_type_definition()?;
+                        let map = SrType {
+                            main_type: "Map".to_string(),
+                            sub_types: vec![key, value],
+                            address_type: None,
+                        };
+                        self.stack.push(StackObject::TypeDefinition(map));
+                    }
                 };
             }
             TreeTraversalMode::Exit => (),
-- 
2.43.0


From 2cd0ef4c03a48ed6d179fb8b7434f8ca99055f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 10/24] fix: function types and type variables in declarations
 panic

Report them as an error instead.
---
 src/simplified_representation/emitter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index 0d7cb2f..dbe4f7f 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -239,8 +239,8 @@ impl AstConverting for SrEmitter {
                 self.stack
                     .push(StackObject::TypeDefinition(identifier.into()));
             }
-            NodeTypeArgument::TemplateTypeArgument(_) => {
-                unimplemented!();
+            NodeTypeArgument::TemplateTypeArgument(name) => {
+                return Err(format!("Type variable {} is not supported here.", name));
             }
             NodeTypeArgument::AddressTypeArgument(n) => {
                 n.visit(self)?;
@@ -294,11 +294,11 @@ impl AstConverting for SrEmitter {
                 self.stack.push(StackObject::TypeDefinition(map));
             }
             NodeScillaType::FunctionType(_a, _b) => {
-                unimplemented!()
+                return Err("Function types are not supported here.".to_string());
             }
 
             NodeScillaType::PolyFunctionType(_name, _a) => {
-                unimplemented!()
+                return Err("Polymorphic types are not supported here.".to_string());
             }
             NodeScillaType::EnclosedType(a) => {
                 let _ = (*a).visit(self)?;
@@ -306,8 +306,8 @@ impl AstConverting for SrEmitter {
             NodeScillaType::ScillaAddresseType(a) => {
                 let _ = (*a).visit(self)?;
             }
-            NodeScillaType::TypeVarType(_name) => {
-                unimplemented!()
+            NodeScillaType::TypeVarType(name) => {
+                return Err(format!("Type variable {} is not supported here.", name));
             }
         };
         Ok(TraversalResult::SkipChildren)
-- 
2.43.0


From 9d7c6706ba53e5de16ee2f691655b5221a205735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 11/24] fix: Option, List and Pair with a wrong number of
 arguments panic

Without enough arguments the conversion panicked, with too many it silently
dropped some. Such a type is now Type::Other, like other unknown types.
---
 src/type.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/type.rs b/src/type.rs
index 79d2f6d..1cf3abe 100644
--- a/src/type.rs
+++ b/src/type.rs
@@ -88,14 +88,18 @@ impl From<SrType> for Type {
             "BNum" => Type::BNum,
             "Bool" => Type::Bool,
             // TODO: Remove unwrap
-            "Option" => Type::Option(Box::new(type_definition.sub_types.pop().unwrap().into())),
-            "List" => Type::List(Box::new(type_definition.sub_types.pop().unwrap().into())),
-            "Pair" => {
+            "Option" if type_definition.sub_types.len() == 1 => {
+                Type::Option(Box::new(type_definition.sub_types.pop().unwrap().into()))
+            }
+            "List" if type_definition.sub_types.len() == 1 => {
+                Type::List(Box::new(type_definition.sub_types.pop().unwrap().into()))
+            }
+            "Pair" if type_definition.sub_types.len() == 2 => {
                 let t2 = type_definition.sub_types.pop().unwrap();
                 let t1 = type_definition.sub_types.pop().unwrap();
                 Type::Pair(Box::new(t1.into()), Box::new(t2.into()))
             }
-            "Map" => {
+            "Map" if type_definition.sub_types.len() == 2 => {
                 let value = type_definition.sub_types.pop().unwrap();
                 let key = type_definition.sub_types.pop().unwrap();
                 Type::Map(Box::new(key.into()), Box::new(value.into()))
-- 
2.43.0


From 937b515ec5e92ebdb356b0d80ff29b5ba6fb4714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 12/24] fix: address type fields with a special name take an
 unrelated declaration

Nothing was pushed for a field such as `_balance`, so the enclosing address
type popped whatever was on the stack.
---
 src/simplified_representation/emitter.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index dbe4f7f..a966a46 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -327,12 +327,11 @@ impl AstConverting for SrEmitter {
     ) -> Result<TraversalResult, String> {
         match mode {
             TreeTraversalMode::Enter => {
-                if let NodeVariableIdentifier::VariableName(n) = &node.identifier.node {
-                    node.type_name.visit(self)?;
-                    let typename = self.pop_type_definition()?;
-                    let s = StackObject::VariableDeclaration(Field::new(&n.node, typename.into()));
-                    self.stack.push(s);
-                }
+                let name = node.identifier.to_string();
+                node.type_name.visit(self)?;
+                let typename = self.pop_type_definition()?;
+                let s = StackObject::VariableDeclaration(Field::new(&name, typename.into()));
+                self.stack.push(s);
             }
             TreeTraversalMode::Exit => (),
         }
-- 
2.43.0


From 256525d6e1f697d143443fef701ca8167071a5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 13/24] fix: Type::Map is displayed with a comma, which is not
 Scilla syntax

---
 src/type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/type.rs b/src/type.rs
index 1cf3abe..48f4b48 100644
--- a/src/type.rs
+++ b/src/type.rs
@@ -52,7 +52,7 @@ impl Display for Type {
             Type::String => write!(f, "String"),
             Type::BNum => write!(f, "BNum"),
             Type::Bool => write!(f, "Bool"),
-            Type::Map(ref k, ref v) => write!(f, "(Map {}, {})", k, v),
+            Type::Map(ref k, ref v) => write!(f, "(Map {} {})", k, v),
             Type::Option(ref k) => write!(f, "(Option {})", k),
             Type::List(ref k) => write!(f, "(List {})", k),
             Type::Pair(ref k, ref v) => write!(f, "(Pair {} {})", k, v),
-- 
2.43.0


From 69685ab04a932f7cceeefc5e68c8fe095ef6b466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 14/24] fix: Type::ByStr20With is not displayed as a Scilla
 type

There was no space between the kind and the first field, and without
parentheses the type cannot be an argument of another one.
---
 src/type.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/type.rs b/src/type.rs
index 48f4b48..e6166ac 100644
--- a/src/type.rs
+++ b/src/type.rs
@@ -60,12 +60,15 @@ impl Display for Type {
             Type::ByStrX(n) => write!(f, "ByStr{}", n),
             Type::ByStr20 => write!(f, "ByStr20"),
             Type::ByStr20With { type_name, fields } => {
-                let fields = fields
-                    .iter()
-                    .map(|field| format!("field {}: {}", field.name, field.r#type))
-                    .collect::<Vec<String>>()
-                    .join(", ");
-                write!(f, "ByStr20 with {type_name}{fields} end")
+                write!(f, "(ByStr20 with")?;
+                if !type_name.is_empty() {
+                    write!(f, " {type_name}")?;
+                }
+                for (i, field) in fields.iter().enumerate() {
+                    let separator = if i == 0 { "" } else { "," };
+                    write!(f, "{separator} field {}: {}", field.name, field.r#type)?;
+                }
+                write!(f, " end)")
             }
             Type::Other(ref s) => write!(f, "{}", s),
         }
-- 
2.43.0


From 8eeda9e4ed35efb56112f2dad9805e267028c083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 15/24] fix: visitor pushes source positions that it never pops

The node with meta data pushes and pops its own position.
---
 src/ast/visitor.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index 8482719..63a669f 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -433,7 +433,6 @@ impl AstVisitor for NodeMessageEntry {
                 }
                 NodeMessageEntry::MessageVariable(var_identifier1, var_identifier2) => {
                     var_identifier1.visit(emitter)?;
-                    emitter.push_source_position(&var_identifier2.start, &var_identifier2.end);
                     var_identifier2.visit(emitter)
                 }
             }
@@ -519,7 +518,6 @@ impl AstVisitor for NodeValueLiteral {
                 NodeValueLiteral::LiteralInt(type_name, _) => type_name.visit(emitter),
                 NodeValueLiteral::LiteralEmptyMap(type_map_key, type_map_value) => {
                     type_map_key.visit(emitter)?;
-                    emitter.push_source_position(&type_map_value.start, &type_map_value.end);
                     type_map_value.visit(emitter)
                 }
                 _ => Ok(TraversalResult::Continue),
@@ -602,8 +600,6 @@ impl AstVisitor for NodePatternMatchClause {
     fn visit(&self, emitter: &mut dyn AstConverting) -> Result<TraversalResult, String> {
         let ret = emitter.emit_pattern_match_clause(TreeTraversalMode::Enter, self);
         let children_ret = if ret == Ok(TraversalResult::Continue) {
-            emitter
-                .push_source_position(&self.pattern_expression.start, &self.pattern_expression.end);
             match self.pattern_expression.visit(emitter) {
                 Err(msg) => Err(msg),
                 _ => match &self.statement_block {
-- 
2.43.0


From d011ee3e3fd5e6f91e5b5bbf02e768ff0d282e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 16/24] fix: visitor swallows errors of builtin and type
 arguments

---
 src/ast/visitor.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index 63a669f..6012f11 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -154,11 +154,10 @@ impl AstVisitor for NodeBuiltinArguments {
         // Call the visitor on all children of NodeBuiltinArguments if ret == Ok(TraversalResult::Continue)
         let children_ret = if ret == Ok(TraversalResult::Continue) {
             // Visit each of the arguments
-            self.arguments
-                .iter()
-                .map(|argument| argument.visit(emitter))
-                .find(|r| *r == Err(String::from("Failure")))
-                .unwrap_or(Ok(TraversalResult::Continue))
+            for argument in &self.arguments {
+                argument.visit(emitter)?;
+            }
+            Ok(TraversalResult::Continue)
         } else {
             ret
         }?;
@@ -493,11 +492,10 @@ impl AstVisitor for NodeContractTypeArguments {
     fn visit(&self, emitter: &mut dyn AstConverting) -> Result<TraversalResult, String> {
         let ret = emitter.emit_contract_type_arguments(TreeTraversalMode::Enter, self);
         let children_ret = if ret == Ok(TraversalResult::Continue) {
-            self.type_arguments
-                .iter()
-                .map(|child| child.visit(emitter))
-                .find(|result| *result == Err("".into()))
-                .unwrap_or(Ok(TraversalResult::Continue))
+            for child in &self.type_arguments {
+                child.visit(emitter)?;
+            }
+            Ok(TraversalResult::Continue)
         } else {
             ret
         }?;
-- 
2.43.0


From 519d797618b8ba88dd22d69cc70754fd70027d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 17/24] fix: visitor ignores the result of entering an address
 type

An error was swallowed, and the exit was emitted even if the children were
skipped.
---
 src/ast/visitor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index 6012f11..59c1abc 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -326,7 +326,7 @@ impl AstVisitor for NodeAddressType {
             }
             ret
         } else {
-            Ok(TraversalResult::Continue)
+            ret
         }?;
         match children_ret {
             TraversalResult::Continue => emitter.emit_address_type(TreeTraversalMode::Exit, self),
-- 
2.43.0


From 9e07a95da873f8fd1c17e69e8405577869459abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 18/24] fix: visiting a library let definition panics

---
 src/ast/visitor.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index 59c1abc..9bf7922 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -986,9 +986,7 @@ impl AstVisitor for NodeLibrarySingleDefinition {
                     expression,
                 } => {
                     // TODO: Unused variables aboce
-                    let _ = expression.visit(emitter)?;
-
-                    unimplemented!()
+                    expression.visit(emitter)
                 }
                 NodeLibrarySingleDefinition::TypeDefinition(name, option_clause) => {
                     let result = name.visit(emitter);
-- 
2.43.0


From 513209f34d3614a2fa5b3ea700faf55cdb5342cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 19/24] fix: an integer literal's span reaches to the next
 token

---
 src/parser/parser.lalrpop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index 252dd22..c3cd3f4 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -1178,7 +1178,7 @@ pub AtomicExpression: WithMetaData<NodeAtomicExpression> = {
 // @syntax valueLiteral
 // @return A value literal as a signed or unsigned integer, a hexadecimal value, a string, or an empty map.
 pub ValueLiteral: WithMetaData<NodeValueLiteral> = {
-	<start:@L> <n: TypeNameIdentifier> <v: SignedInteger> <end:@L> => 
+	<start:@L> <n: TypeNameIdentifier> <v: SignedInteger> <end:@R> => 
     WithMetaData::<NodeValueLiteral> { 
         node: NodeValueLiteral::LiteralInt(n, v),
         start,
-- 
2.43.0


From cd076fb505ce251eddb69c337fbca967fde3154c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 20/24] fix: the span of several import declarations starts at
 the last one

---
 src/parser/parser.lalrpop | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index c3cd3f4..bcb1089 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -167,8 +167,8 @@ pub ImportedName: WithMetaData<NodeImportedName> = {
 // @return A list of one or more imported names.
 //
 pub ImportDeclarations: WithMetaData<NodeImportDeclarations> = {
-	<prev:ImportDeclarations>
-	<start:@L> "import" <n:ImportedName> <end:@R> => 
+	<start:@L> <prev:ImportDeclarations>
+	"import" <n:ImportedName> <end:@R> => 
         WithMetaData::<NodeImportDeclarations> {
             node: {
     		let mut ret = NodeImportDeclarations {
-- 
2.43.0


From 7ecce3a67e4bf97154a3daf088591fff315d17dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 21/24] fix: ByStr with size 20 written with leading zeros is
 not ByStr20

---
 src/type.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/type.rs b/src/type.rs
index e6166ac..9e5e3b1 100644
--- a/src/type.rs
+++ b/src/type.rs
@@ -118,7 +118,11 @@ impl From<SrType> for Type {
                     .strip_prefix("ByStr")
                     .and_then(|s| s.parse::<usize>().ok())
                 {
-                    Type::ByStrX(number)
+                    match number {
+                        // A size written with leading zeros
+                        20 => Type::ByStr20,
+                        _ => Type::ByStrX(number),
+                    }
                 } else {
                     Type::Other(type_definition.main_type)
                 }
-- 
2.43.0


From 56ba57c7761fca33b3a89fccbde7e911ad5d8d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:54 +0000
Subject: [PATCH 22/24] fix: builtin arguments after an empty pair of
 parentheses are accepted

---
 src/parser/parser.lalrpop | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index bcb1089..fcef893 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -278,23 +278,8 @@ pub VariableIdentifier : WithMetaData<NodeVariableIdentifier> = {
 // @syntax builtinArguments
 // @return The arguments for a built-in function as either variable identifiers or an empty set of parentheses. 
 pub BuiltinArguments: WithMetaData<NodeBuiltinArguments> = {
-	<start:@L> <prev:BuiltinArguments>
-	<n:VariableIdentifier> <end:@R> => 
-    WithMetaData::<NodeBuiltinArguments> {
-        node: {
-    		let mut ret = NodeBuiltinArguments {
-    			arguments: prev.node.arguments.clone()
-    		};
-    		ret.arguments.push(n);
-    		ret
-    	},
-        start,
-        end
-    },
-	<start:@L> <n:VariableIdentifier> <end:@R> =>     WithMetaData::<NodeBuiltinArguments> {
-        node: NodeBuiltinArguments {
-    		arguments: vec![n]
-	    },
+	<start:@L> <arguments:VariableIdentifier+> <end:@R> => WithMetaData::<NodeBuiltinArguments> {
+        node: NodeBuiltinArguments { arguments },
         start,
         end
     },
-- 
2.43.0


From e0f0ecef969781a88dfeba36b107e026f3efb423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:07 +0000
Subject: [PATCH 23/24] fix: a comma before the first parameter is accepted

---
 src/parser/parser.lalrpop | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index fcef893..f970da5 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -1526,15 +1526,19 @@ pub NextParameterPair: WithMetaData<NodeParameterPair> = {
 // @syntax componentParameters
 // @return Scilla component parameters with zero or more parameter pairs.
 pub ComponentParameters : WithMetaData<NodeComponentParameters> = {
+   <start:@L> "(" ")" <end:@R>
+   => WithMetaData::<NodeComponentParameters> {
+       node: NodeComponentParameters { parameters: Vec::new() },
+       start,
+       end
+    },
    <start:@L> "(" 
-   <p:ParameterPair?> <next_params:NextParameterPair*>
+   <p:ParameterPair> <next_params:NextParameterPair*>
    ")" <end:@R>
    => WithMetaData::<NodeComponentParameters> {
        node: {
            let mut parameters: Vec<WithMetaData<NodeParameterPair>> = Vec::new();
-           if let Some(pair) = p {
-    	        parameters.push(pair);
-           }
+           parameters.push(p);
 
            for p in next_params {
                parameters.push(p);
-- 
2.43.0


From 4d6953c3cb0804f0a50f9f50b55dfa9cdda081c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:05 +0000
Subject: [PATCH 24/24] fix: the kind of an address type has the span of the
 whole type

---
 src/parser/parser.lalrpop | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index f970da5..93c56bc 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -442,28 +442,28 @@ pub AddressType: WithMetaData<NodeAddressType> = {
         start,
         end
     },
-	<start:@L> <type_name: TypeNameIdentifier> "with"  "contract" <address_fields: AddressTypeFieldList?> "end" <end:@R> => 
+	<start:@L> <type_name: TypeNameIdentifier> "with" <type_start:@L> "contract" <type_end:@R> <address_fields: AddressTypeFieldList?> "end" <end:@R> => 
     WithMetaData::<NodeAddressType> { 
         node: NodeAddressType {
             identifier: type_name,
             type_name: WithMetaData::<String> {
                 node: "contract".to_string(),
-                start: start.clone(),
-                end: end.clone()
+                start: type_start,
+                end: type_end
             },
             address_fields: address_fields.unwrap_or([].to_vec())
         },
         start,
         end
     },
-	<start:@L> <type_name: TypeNameIdentifier> "with" "library" "end" <end:@R> => 
+	<start:@L> <type_name: TypeNameIdentifier> "with" <type_start:@L> "library" <type_end:@R> "end" <end:@R> => 
     WithMetaData::<NodeAddressType> { 
         node: NodeAddressType {
             identifier: type_name,
             type_name:  WithMetaData::<String> {
                 node: "library".to_string(),
-                start: start.clone(),
-                end: end.clone()
+                start: type_start,
+                end: type_end
             },
             address_fields: vec![]
         },
-- 
2.43.0

