==== text text WithMetaData
spec fn text(&self) -> Seq<char> { self.node.text() }
==== text text NodeByteStr
spec fn text(&self) -> Seq<char> { match *self { NodeByteStr::Constant(s) => s.node@, NodeByteStr::Type(s) => s.node@ } }
==== text text NodeTypeNameIdentifier
spec fn text(&self) -> Seq<char> {
    match *self {
        NodeTypeNameIdentifier::ByteStringType(b) => b.text(),
        NodeTypeNameIdentifier::EventType => "Event"@,
        NodeTypeNameIdentifier::TypeOrEnumLikeIdentifier(s) => s.node@,
    }
}
==== text text NodeMetaIdentifier
spec fn text(&self) -> Seq<char> {
    match *self {
        NodeMetaIdentifier::MetaName(n) => n.node.text(),
        NodeMetaIdentifier::MetaNameInNamespace(a, b) => a.node.text() + "."@ + b.node.text(),
        NodeMetaIdentifier::MetaNameInHexspace(a, b) => a.node@ + "."@ + b.node.text(),
        NodeMetaIdentifier::ByteString => "ByStr"@,
    }
}
==== text text NodeVariableIdentifier
spec fn text(&self) -> Seq<char> {
    match *self {
        NodeVariableIdentifier::VariableName(s) => s.node@,
        NodeVariableIdentifier::SpecialIdentifier(s) => s.node@,
        NodeVariableIdentifier::VariableInNamespace(a, b) => a.node.text() + "."@ + b.node@,
    }
}

==== fn WithMetaData::fmt
props C05 C07 C08 C12
---- entry
assert(self.text() == self.node.text());
==== fn NodeByteStr::fmt
props C05 C07 C08 C12
==== fn NodeTypeNameIdentifier::fmt
props C05 C07 C08 C12
==== fn NodeMetaIdentifier::fmt
props C08 C12
==== fn NodeVariableIdentifier::fmt
props C08 C12
