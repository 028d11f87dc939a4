#!/usr/bin/env python3
"""Writes contracts/visit.vx: which children a traversal visits (TABLE, the specification), and from it the
abstract tree of every node, the contracts of the 85 visit functions and the recording converter.
Run by hand when TABLE changes; the result is committed. The types of the fields are read from nodes.rs
only to write the right spec function names; when they change, the committed text no longer type-checks
and has to be written again."""
import os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = open("/repo/src/ast/nodes.rs").read()
SRC = re.sub(r"//.*", "", SRC)

# the children a visit of the node visits, in order
TABLE = {
 "NodeByteStr": {},
 "NodeTypeNameIdentifier": {"ByteStringType": [0]},
 "NodeImportedName": {"RegularImport": [0], "AliasedImport": [0, 1]},
 "NodeImportDeclarations": ["import_list"],
 "NodeMetaIdentifier": {"MetaName": [0], "MetaNameInNamespace": [0, 1], "MetaNameInHexspace": [1]},
 "NodeVariableIdentifier": {"VariableInNamespace": [0]},
 "NodeBuiltinArguments": ["arguments"],
 "NodeTypeMapKey": {"GenericMapKey": [0], "EnclosedGenericId": [0], "EnclosedAddressMapKeyType": [0], "AddressMapKeyType": [0]},
 "NodeTypeMapValue": {"MapValueTypeOrEnumLikeIdentifier": [0], "MapKeyValue": [0], "MapValueParenthesizedType": [0], "MapValueAddressType": [0]},
 "NodeTypeArgument": {"EnclosedTypeArgument": [0], "GenericTypeArgument": [0], "AddressTypeArgument": [0], "MapTypeArgument": [0, 1]},
 "NodeScillaType": {"GenericTypeWithArgs": [0, 1], "MapType": [0, 1], "FunctionType": [0, 1], "PolyFunctionType": [1], "EnclosedType": [0], "ScillaAddresseType": [0]},
 "NodeTypeMapEntry": ["key", "value"],
 "NodeAddressTypeField": ["identifier", "type_name"],
 "NodeAddressType": ["identifier", "address_fields"],
 "NodeFullExpression": {
   "LocalVariableDeclaration": ["expression", "containing_expression"], "FunctionDeclaration": ["expression"], "TemplateFunction": ["expression"],
   "FunctionCall": ["function_name", "argument_list"], "ExpressionAtomic": [0], "ExpressionBuiltin": ["xs"], "Message": [0],
   "Match": ["match_expression", "clauses"], "ConstructorCall": ["identifier_name", "argument_list"], "TApp": ["identifier_name", "type_arguments"]},
 "NodeMessageEntry": {"MessageLiteral": [0, 1], "MessageVariable": [0, 1]},
 "NodePatternMatchExpressionClause": ["pattern", "expression"],
 "NodeAtomicExpression": {"AtomicSid": [0], "AtomicLit": [0]},
 "NodeContractTypeArguments": ["type_arguments"],
 "NodeValueLiteral": {"LiteralInt": [0], "LiteralEmptyMap": [0, 1]},
 "NodeMapAccess": ["identifier_name"],
 "NodePattern": {"Constructor": [0, 1]},
 "NodeArgumentPattern": {"ConstructorArgument": [0], "PatternArgument": [0]},
 "NodePatternMatchClause": ["pattern_expression", "statement_block"],
 "NodeBlockchainFetchArguments": ["arguments"],
 "NodeStatement": {
   "Load": ["right_hand_side"], "Store": ["right_hand_side"], "RemoteFetch": [0], "Bind": ["right_hand_side"], "ReadFromBC": ["arguments"],
   "MapGet": ["keys"], "MapGetExists": ["keys"], "MapUpdate": ["keys"], "MapUpdateDelete": ["keys"], "Send": ["identifier_name"],
   "CreateEvnt": ["identifier_name"], "Throw": ["error_variable"], "MatchStmt": ["variable", "clauses"], "CallProc": ["component_id", "arguments"],
   "Iterate": ["identifier_name", "component_id"]},
 "NodeRemoteFetchStatement": {"ReadStateMutable": [2], "ReadStateMutableMapAccess": [3], "ReadStateMutableMapAccessExists": [3], "ReadStateMutableCastAddress": [1, 2]},
 "NodeComponentId": {"WithTypeLikeName": [0]},
 "NodeComponentParameters": ["parameters"],
 "NodeParameterPair": ["identifier_with_type"],
 "NodeComponentBody": ["statement_block"],
 "NodeStatementBlock": ["statements"],
 "NodeTypedIdentifier": ["annotation"],
 "NodeTypeAnnotation": ["type_name"],
 "NodeProgram": ["import_declarations", "library_definition", "contract_definition"],
 "NodeLibraryDefinition": ["definitions"],
 "NodeLibrarySingleDefinition": {"LetDefinition": ["expression"], "TypeDefinition": [0, 1]},
 "NodeContractDefinition": ["parameters", "constraint", "fields", "components"],
 "NodeContractField": ["typed_identifier", "right_hand_side"],
 "NodeWithConstraint": ["expression"],
 "NodeComponentDefinition": {"TransitionComponent": [0], "ProcedureComponent": [0]},
 "NodeProcedureDefinition": ["name", "parameters", "body"],
 "NodeTransitionDefinition": ["name", "parameters", "body"],
 "NodeTypeAlternativeClause": {"ClauseType": [0], "ClauseTypeWithArgs": [0, 1]},
 "NodeTypeMapValueArguments": {"EnclosedTypeMapValue": [0], "GenericMapValueArgument": [0], "MapKeyValueType": [0, 1]},
 "NodeTypeMapValueAllowingTypeArguments": {"TypeMapValueNoArgs": [0], "TypeMapValueWithArgs": [0, 1]},
}


def split(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "<({": d += 1
        if c in ">)}": d -= 1
        if c == "," and d == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += c
    if cur.strip(): out.append(cur.strip())
    return out


def body(kind, name):
    m = re.search(r"pub %s %s\s*\{" % (kind, name), SRC)
    i = m.end(); d = 1; j = i
    while d:
        d += {"{": 1, "}": -1}.get(SRC[j], 0); j += 1
    return SRC[i:j - 1]


def fields(s):
    return {p.split(":")[0].replace("pub", "").strip(): re.sub(r"\s", "", p.split(":", 1)[1]) for p in split(s)}


TYPES = {}
for n, t in TABLE.items():
    if isinstance(t, list):
        TYPES[n] = fields(body("struct", n))
    else:
        vs = {}
        for v in split(body("enum", n)):
            m = re.match(r"(\w+)\s*(?:([({])(.*)[)}])?$", v, re.S)
            vn, br, inner = m.group(1), m.group(2), m.group(3)
            vs[vn] = None if not br else (fields(inner) if br == "{" else [re.sub(r"\s", "", x) for x in split(inner)])
        TYPES[n] = vs

LISTS = set()   # element types of lists
def one(ty, e):
    """The tree of a value of a type that is not a list or an option."""
    m = re.match(r"Box<(.*)>$", ty)
    if m: return one(m.group(1), "(*%s)" % e if not e.startswith("*") else e)
    m = re.match(r"WithMetaData<(\w+)>$", ty)
    if m: return "N::Span(%s.start, %s.end, Box::new(tree_%s(%s.node)))" % (e, e, m.group(1), e)
    return "tree_%s(%s)" % (ty, e)

def piece(ty, e):
    m = re.match(r"Option<(Vec<.*>)>$", ty)
    if m: return ("seq", "(match %s { Some(v) => %s, None => Seq::<N>::empty() })" % (e, piece(m.group(1), "v")[1]))
    m = re.match(r"Option<(.*)>$", ty)
    if m: return ("seq", "(match %s { Some(v) => Seq::<N>::empty().push(%s), None => Seq::<N>::empty() })" % (e, one(m.group(1), "v")))
    m = re.match(r"Vec<(.*)>$", ty)
    if m:
        LISTS.add(m.group(1))
        return ("seq", "trees_%s(%s)" % (re.sub(r"\W", "", m.group(1)), e))
    return ("one", one(ty, e))

def children(parts):
    out, cur = [], []
    for k, s in parts:
        if k == "one": cur.append(s)
        else:
            if cur: out.append("Seq::<N>::empty()" + "".join(".push(%s)" % c for c in cur)); cur = []
            out.append(s)
    if cur: out.append("Seq::<N>::empty()" + "".join(".push(%s)" % c for c in cur))
    return " + ".join(out) if out else "Seq::<N>::empty()"

def arms(n):
    t, ty = TABLE[n], TYPES[n]
    if isinstance(t, list):
        return None, children([piece(ty[f], "n." + f) for f in t])
    a = []
    for v, fs in ty.items():
        ch = t.get(v, [])
        if fs is None: pat, names = "", {}
        elif isinstance(fs, dict):
            pat = " { %s.. }" % "".join("%s, " % f for f in ch); names = fs
        else:
            pat = "(%s)" % ", ".join("a%d" % i if i in ch else "_" for i in range(len(fs))); names = dict(enumerate(fs))
        parts = [piece(names[f], f if isinstance(f, str) else "a%d" % f) for f in ch]
        a.append("%s::%s%s => %s" % (n, v, pat, children(parts)))
    return a, None

def emit_name(n):
    return "emit_" + re.sub(r"(?<!^)(?=[A-Z])", "_", n[4:]).lower()

o = []
o.append("# Written by tools/gen_visit.py")
o = ["==== prelude",
"// ---- the abstract traversal (specification) ----",
"enum GN { %s }" % ", ".join("%s(%s)" % (n, n) for n in TABLE),
"""enum N { Node(GN, Seq<N>), Span(SourcePosition, SourcePosition, Box<N>) }
enum Ev { Push(SourcePosition, SourcePosition), Pop, Cb(GN, bool) }
enum Ans { Continue, Skip, Fail(Seq<char>) }
enum Res { Ok, Fail(Seq<char>) }
// What the converter has been told so far, and its answer to a callback after any history.
struct GS { trace: Seq<Ev>, ans: spec_fn(Seq<Ev>) -> Ans }
spec fn said(g: GS, e: Ev) -> GS { GS { trace: g.trace.push(e), ans: g.ans } }
spec fn answer(g: GS) -> Ans { (g.ans)(g.trace) }

// Enter, the children in order, exit; a Skip leaves the children and the exit out, a failure ends everything
// but the closing of positions.
#[verifier::opaque]
spec fn run(t: N, g: GS) -> (Res, GS) decreases t, 0nat {
    match t {
        N::Node(gn, ch) => {
            let g1 = said(g, Ev::Cb(gn, true));
            match answer(g) {
                Ans::Fail(m) => (Res::Fail(m), g1),
                Ans::Skip => (Res::Ok, g1),
                Ans::Continue => {
                    let (r, g2) = run_list(ch, ch.len(), g1);
                    match r {
                        Res::Fail(m) => (r, g2),
                        Res::Ok => (match answer(g2) { Ans::Fail(m) => Res::Fail(m), _ => Res::Ok }, said(g2, Ev::Cb(gn, false))),
                    }
                },
            }
        },
        N::Span(start, end, t) => {
            let (r, g1) = run(*t, said(g, Ev::Push(start, end)));
            (r, said(g1, Ev::Pop))
        },
    }
}
// The first n of a list of siblings.
#[verifier::opaque]
spec fn run_list(s: Seq<N>, n: nat, g: GS) -> (Res, GS) decreases s, n {
    if n == 0 || n > s.len() { (Res::Ok, g) } else {
        let (r, g1) = run_list(s, (n - 1) as nat, g);
        match r { Res::Fail(m) => (r, g1), Res::Ok => run(s[n - 1], g1) }
    }
}
spec fn run_all(s: Seq<N>, g: GS) -> (Res, GS) { run_list(s, s.len(), g) }

broadcast proof fn run_node(gn: GN, ch: Seq<N>, g: GS)
    ensures #[trigger] run(N::Node(gn, ch), g) == ({
            let g1 = said(g, Ev::Cb(gn, true));
            match answer(g) {
                Ans::Fail(m) => (Res::Fail(m), g1),
                Ans::Skip => (Res::Ok, g1),
                Ans::Continue => {
                    let (r, g2) = run_all(ch, g1);
                    match r {
                        Res::Fail(m) => (r, g2),
                        Res::Ok => (match answer(g2) { Ans::Fail(m) => Res::Fail(m), _ => Res::Ok }, said(g2, Ev::Cb(gn, false))),
                    }
                },
            }
    })
{ reveal(run); reveal(run_list); }
broadcast proof fn run_span(start: SourcePosition, end: SourcePosition, t: N, g: GS)
    ensures #[trigger] run(N::Span(start, end, Box::new(t)), g) == ({
            let (r, g1) = run(t, said(g, Ev::Push(start, end)));
            (r, said(g1, Ev::Pop))
    })
{ reveal(run); reveal(run_list); }
broadcast proof fn run_empty(g: GS) ensures #[trigger] run_all(Seq::<N>::empty(), g) == (Res::Ok, g) { reveal(run); reveal(run_list); }
broadcast proof fn run_none(s: Seq<N>, g: GS) ensures #[trigger] run_list(s, 0, g) == (Res::Ok, g) { reveal(run); reveal(run_list); }
proof fn run_list_prefix(a: Seq<N>, b: Seq<N>, n: nat, g: GS)
    requires n <= a.len(), n <= b.len(), a.subrange(0, n as int) =~= b.subrange(0, n as int),
    ensures run_list(a, n, g) == run_list(b, n, g),
    decreases n,
{
    reveal(run); reveal(run_list);
    if n > 0 {
        assert(a.subrange(0, n - 1) =~= a.subrange(0, n as int).subrange(0, n - 1));
        assert(b.subrange(0, n - 1) =~= b.subrange(0, n as int).subrange(0, n - 1));
        run_list_prefix(a, b, (n - 1) as nat, g);
        assert(a.subrange(0, n as int)[n - 1] == b.subrange(0, n as int)[n - 1]);
    }
}
broadcast proof fn run_push(s: Seq<N>, x: N, g: GS)
    ensures #[trigger] run_all(s.push(x), g) == (match run_all(s, g) { (Res::Ok, g1) => run(x, g1), (r, g1) => (r, g1) }),
{
    reveal(run); reveal(run_list);
    run_list_prefix(s.push(x), s, s.len(), g);
    assert(s.push(x).len() == s.len() + 1);
    assert(s.push(x)[s.len() as int] == x);
}
broadcast proof fn run_add(a: Seq<N>, b: Seq<N>, g: GS)
    ensures #[trigger] run_all(a + b, g) == (match run_all(a, g) { (Res::Ok, g1) => run_all(b, g1), (r, g1) => (r, g1) }),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        reveal(run_list);
    } else {
        let c = b.drop_last();
        let x = b.last();
        run_add(a, c, g);
        assert(a + b =~= (a + c).push(x));
        assert(b =~= c.push(x));
        run_push(a + c, x, g);
        match run_all(a, g) { (Res::Ok, g1) => { run_push(c, x, g1); }, _ => { } }
    }
}
// One more sibling, or the failure of one decides for the whole list.
proof fn run_step(s: Seq<N>, n: nat, g: GS)
    requires n < s.len(), run_list(s, n, g).0 is Ok,
    ensures
        run_list(s, n + 1, g) == run(s[n as int], run_list(s, n, g).1),
        run(s[n as int], run_list(s, n, g).1).0 is Fail ==> run_all(s, g) == run(s[n as int], run_list(s, n, g).1),
{
    reveal(run); reveal(run_list);
    let r = run(s[n as int], run_list(s, n, g).1);
    if r.0 is Fail { run_fail(s, n + 1, s.len(), g); }
}
proof fn run_fail(s: Seq<N>, n: nat, m: nat, g: GS)
    requires n <= m <= s.len(), run_list(s, n, g).0 is Fail,
    ensures run_list(s, m, g) == run_list(s, n, g),
    decreases m,
{
    reveal(run); reveal(run_list);
    if m > n { run_fail(s, n, (m - 1) as nat, g); }
}

// ---- what the traversals say about any converter (C10, C11) ----
spec fn walk(t: N) -> Seq<Ev> decreases t, 0nat {
    match t {
        N::Node(gn, ch) => seq![Ev::Cb(gn, true)] + walk_list(ch, ch.len()) + seq![Ev::Cb(gn, false)],
        N::Span(start, end, t) => seq![Ev::Push(start, end)] + walk(*t) + seq![Ev::Pop],
    }
}
spec fn walk_list(s: Seq<N>, n: nat) -> Seq<Ev> decreases s, n {
    if n == 0 || n > s.len() { Seq::empty() } else { walk_list(s, (n - 1) as nat) + walk(s[n - 1]) }
}
// C10: when nothing is skipped and nothing fails, every node is entered, its children follow in order, and it is left.
proof fn lemma_walk(t: N, g: GS)
    requires forall|h: Seq<Ev>| (#[trigger] (g.ans)(h)) is Continue,
    ensures run(t, g) == (Res::Ok, GS { trace: g.trace + walk(t), ans: g.ans }),
    decreases t, 0nat,
{
    reveal(run); reveal(run_list);
    match t {
        N::Node(gn, ch) => {
            let g1 = said(g, Ev::Cb(gn, true));
            lemma_walk_list(ch, ch.len(), g1);
            assert(run(t, g).1.trace =~= g.trace + walk(t));
        },
        N::Span(start, end, u) => {
            lemma_walk(*u, said(g, Ev::Push(start, end)));
            assert(run(t, g).1.trace =~= g.trace + walk(t));
        },
    }
}
proof fn lemma_walk_list(s: Seq<N>, n: nat, g: GS)
    requires forall|h: Seq<Ev>| (#[trigger] (g.ans)(h)) is Continue, n <= s.len(),
    ensures run_list(s, n, g) == (Res::Ok, GS { trace: g.trace + walk_list(s, n), ans: g.ans }),
    decreases s, n,
{
    reveal(run); reveal(run_list);
    if n == 0 { assert(g.trace + walk_list(s, n) =~= g.trace); } else {
        lemma_walk_list(s, (n - 1) as nat, g);
        let g1 = run_list(s, (n - 1) as nat, g).1;
        lemma_walk(s[n - 1], g1);
        assert(g1.trace + walk(s[n - 1]) =~= g.trace + walk_list(s, n));
    }
}
// C11: a failing traversal ends with the failing callback and then only closes positions; a successful one has
// no failing callback; the history before is kept, and openings and closings balance.
spec fn only_pops(t: Seq<Ev>, from: int) -> bool { forall|i: int| from <= i < t.len() ==> (#[trigger] t[i]) is Pop }
spec fn failed_at(g: GS, t: Seq<Ev>, i: int, m: Seq<char>) -> bool {
    0 <= i < t.len() && t[i] is Cb && (g.ans)(t.subrange(0, i)) == Ans::Fail(m)
}
spec fn clean(g: GS, t: Seq<Ev>, from: int, to: int) -> bool {
    forall|i: int| from <= i < to && (#[trigger] t[i]) is Cb ==> !((g.ans)(t.subrange(0, i)) is Fail)
}
spec fn depth(t: Seq<Ev>) -> int decreases t.len() {
    if t.len() == 0 { 0 } else { depth(t.drop_last()) + (match t.last() { Ev::Push(..) => 1int, Ev::Pop => -1int, _ => 0int }) }
}
spec fn fails(g: GS, h: GS, m: Seq<char>) -> bool { exists|i: int| fails_at(g, h, i, m) }
spec fn fails_at(g: GS, h: GS, i: int, m: Seq<char>) -> bool {
    g.trace.len() <= i && failed_at(g, h.trace, i, m) && only_pops(h.trace, i + 1) && clean(g, h.trace, g.trace.len() as int, i)
}
spec fn stops(g: GS, r: Res, h: GS) -> bool {
    &&& h.ans == g.ans
    &&& g.trace.len() <= h.trace.len()
    &&& h.trace.subrange(0, g.trace.len() as int) =~= g.trace
    &&& depth(h.trace) == depth(g.trace)
    &&& match r {
        Res::Ok => clean(g, h.trace, g.trace.len() as int, h.trace.len() as int),
        Res::Fail(m) => fails(g, h, m),
    }
}
proof fn lemma_depth_push(t: Seq<Ev>, e: Ev)
    ensures depth(t.push(e)) == depth(t) + (match e { Ev::Push(..) => 1int, Ev::Pop => -1int, _ => 0int }),
{ assert(t.push(e).drop_last() =~= t); }
proof fn lemma_keep(g: GS, a: Seq<Ev>, b: Seq<Ev>, from: int, to: int)
    requires 0 <= from, to <= a.len() <= b.len(), b.subrange(0, a.len() as int) =~= a,
    ensures clean(g, a, from, to) ==> clean(g, b, from, to),
        forall|i: int, m: Seq<char>| 0 <= i < a.len() && failed_at(g, a, i, m) ==> #[trigger] failed_at(g, b, i, m),
{
    assert forall|i: int| 0 <= i < a.len() implies b.subrange(0, i) == a.subrange(0, i) && b[i] == a[i] by {
        assert(b.subrange(0, a.len() as int)[i] == b[i]);
        assert(b.subrange(0, a.len() as int).subrange(0, i) =~= b.subrange(0, i));
    }
}
proof fn lemma_stops(t: N, g: GS)
    ensures stops(g, run(t, g).0, run(t, g).1),
    decreases t, 0nat,
{
    reveal(run); reveal(run_list);
    let (r, h) = run(t, g);
    match t {
        N::Node(gn, ch) => {
            let e1 = Ev::Cb(gn, true);
            let g1 = said(g, e1);
            lemma_depth_push(g.trace, e1);
            assert(g1.trace.subrange(0, g.trace.len() as int) =~= g.trace);
            let k = g.trace.len() as int;
            match answer(g) {
                Ans::Fail(m) => { assert(r == Res::Fail(m) && h == g1); assert(failed_at(g, h.trace, k, m)); assert(only_pops(h.trace, k + 1)); assert(clean(g, h.trace, k, k)); assert(fails_at(g, h, k, m)); assert(h.trace.subrange(0, k) =~= g.trace); assert(depth(h.trace) == depth(g.trace)); assert(stops(g, r, h)); },
                Ans::Skip => { assert(stops(g, r, h)); },
                Ans::Continue => {
                    lemma_stops_list(ch, ch.len(), g1);
                    let (r2, g2) = run_list(ch, ch.len(), g1);
                    assert(g2.trace.subrange(0, k) =~= g.trace) by {
                        assert(g2.trace.subrange(0, k) =~= g2.trace.subrange(0, k + 1).subrange(0, k));
                    }
                    lemma_keep(g, g1.trace, g2.trace, k, k + 1);
                    assert(clean(g, g1.trace, k, k + 1));
                    match r2 {
                        Res::Fail(m) => {
                            let i = choose|i: int| fails_at(g1, g2, i, m);
                            assert(failed_at(g, g2.trace, i, m));
                            assert(clean(g, g2.trace, k, i));
                            assert(fails_at(g, h, i, m));
                            assert(stops(g, r, h));
                        },
                        Res::Ok => {
                            let e2 = Ev::Cb(gn, false);
                            lemma_depth_push(g2.trace, e2);
                            let n2 = g2.trace.len() as int;
                            assert(h.trace == g2.trace.push(e2));
                            assert(h.trace.subrange(0, n2) =~= g2.trace);
                            assert(h.trace.subrange(0, k) =~= g2.trace.subrange(0, k));
                            assert(clean(g, g2.trace, k, n2));
                            lemma_keep(g, g2.trace, h.trace, k, n2);
                            match answer(g2) { Ans::Fail(m) => { assert(r == Res::Fail(m)); assert(failed_at(g, h.trace, n2, m)); assert(only_pops(h.trace, n2 + 1)); assert(clean(g, h.trace, k, n2)); assert(fails_at(g, h, n2, m)); assert(depth(h.trace) == depth(g.trace)); assert(stops(g, r, h)); }, _ => { assert(stops(g, r, h)); } }
                        },
                    }
                },
            }
        },
        N::Span(start, end, u) => {
            let g0 = said(g, Ev::Push(start, end));
            lemma_depth_push(g.trace, Ev::Push(start, end));
            lemma_stops(*u, g0);
            let (r1, g1) = run(*u, g0);
            let k = g.trace.len() as int;
            let n1 = g1.trace.len() as int;
            lemma_depth_push(g1.trace, Ev::Pop);
            assert(h.trace == g1.trace.push(Ev::Pop));
            assert(h.trace.subrange(0, n1) =~= g1.trace);
            assert(g0.trace.subrange(0, k) =~= g.trace);
            assert(h.trace.subrange(0, k) =~= g1.trace.subrange(0, k + 1).subrange(0, k));
            assert(g1.trace.subrange(0, k + 1)[k] == g1.trace[k]);
            match r1 {
                Res::Ok => { assert(clean(g, g1.trace, k, n1)); lemma_keep(g, g1.trace, h.trace, k, n1); },
                Res::Fail(m) => {
                    let i = choose|i: int| fails_at(g0, g1, i, m);
                    assert(failed_at(g, g1.trace, i, m));
                    assert(clean(g, g1.trace, k, i));
                    lemma_keep(g, g1.trace, h.trace, k, i);
                    assert(failed_at(g, h.trace, i, m));
                    assert(fails_at(g, h, i, m));
                },
            }
        },
    }
}
proof fn lemma_stops_list(s: Seq<N>, n: nat, g: GS)
    requires n <= s.len(),
    ensures stops(g, run_list(s, n, g).0, run_list(s, n, g).1),
    decreases s, n,
{
    reveal(run); reveal(run_list);
    let k = g.trace.len() as int;
    if n == 0 { } else {
        lemma_stops_list(s, (n - 1) as nat, g);
        let (r1, g1) = run_list(s, (n - 1) as nat, g);
        if r1 is Ok {
            lemma_stops(s[n - 1], g1);
            let (r, h) = run(s[n - 1], g1);
            let n1 = g1.trace.len() as int;
            assert(h.trace.subrange(0, k) =~= h.trace.subrange(0, n1).subrange(0, k));
            lemma_keep(g, g1.trace, h.trace, k, n1);
            match r {
                Res::Ok => { assert(clean(g, h.trace, k, h.trace.len() as int)); },
                Res::Fail(m) => {
                    let i = choose|i: int| fails_at(g1, h, i, m);
                    assert(failed_at(g, h.trace, i, m));
                    assert(clean(g, h.trace, k, i));
                    assert(fails_at(g, h, i, m));
                },
            }
        }
    }
}

// ---- the visited part of a syntax tree (specification) ----"""]
lem = []
def reveals(e, own):
    return " ".join("reveal_with_fuel(%s, 1);" % f for f in sorted(set(re.findall(r"trees?_\w+", e)) | {own}))
for n in TABLE:
    a, ch = arms(n)
    if a is None:
        o.append("#[verifier::opaque]\nspec fn tree_%s(n: %s) -> N decreases n { N::Node(GN::%s(n), %s) }" % (n, n, n, ch))
        e = ch
    else:
        o.append("#[verifier::opaque]\nspec fn tree_%s(n: %s) -> N decreases n {\n    N::Node(GN::%s(n), match n {\n        %s,\n    })\n}" % (n, n, n, ",\n        ".join(a)))
        e = "(match n {\n        %s,\n    })" % ",\n        ".join(a)
    o.append("proof fn tree_is_%s(n: %s)\n    ensures tree_%s(n) == N::Node(GN::%s(n), %s)\n{ %s }" % (n, n, n, n, e, reveals(e, "tree_" + n)))
o.append("trait VxTrees { spec fn trees(&self) -> Seq<N>; }")
for l in sorted(LISTS):
    s = re.sub(r"\W", "", l)
    e = one(l, "v@[i]")
    o.append("#[verifier::opaque]\nspec fn trees_%s(v: Vec<%s>) -> Seq<N> decreases v { Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { %s } else { arbitrary() }) }" % (s, l, e))
    o.append("broadcast proof fn trees_are_%s(v: Vec<%s>)\n    ensures (#[trigger] trees_%s(v)).len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] trees_%s(v)[i] == %s\n{ %s }" % (s, l, s, s, e, reveals(e, "trees_" + s)))
    o.append("impl VxTrees for Vec<%s> { spec fn trees(&self) -> Seq<N> { trees_%s(*self) } }" % (l, s))
    lem.append("trees_are_" + s)
o.append("""
// A derived Clone gives an equal value.
trait VxClone: Sized {
    fn vx_clone(&self) -> (r: Self) ensures r == *self;
}
impl<T> VxClone for T {
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: Self) { unimplemented!() }
}
// ---- a converter that answers as it likes: the visits see nothing of it but its answers ----
#[verifier::external_body]
struct VxEm { x: u8 }
impl VxEm {
    spec fn gs(&self) -> GS;
    #[verifier::external_body]
    fn push_source_position(&mut self, start: &SourcePosition, end: &SourcePosition)
        ensures final(self).gs() == said(old(self).gs(), Ev::Push(*start, *end))
    { unimplemented!() }
    #[verifier::external_body]
    fn pop_source_position(&mut self)
        ensures final(self).gs() == said(old(self).gs(), Ev::Pop)
    { unimplemented!() }""".replace("    spec fn gs(&self) -> GS;", "    uninterp spec fn gs(&self) -> GS;"))
for n in TABLE:
    o.append("""    #[verifier::external_body]
    fn %s(&mut self, mode: TreeTraversalMode, node: &%s) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::%s(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }""" % (emit_name(n), n, n))
o.append("""}
// A leave call is answered with Continue or an error.
spec fn answers(r: Result<TraversalResult, String>, enter: bool, a: Ans) -> bool {
    match a {
        Ans::Fail(m) => r is Err && r->Err_0@ == m,
        Ans::Skip => r == Ok::<TraversalResult, String>(if enter { TraversalResult::SkipChildren } else { TraversalResult::Continue }),
        Ans::Continue => r == Ok::<TraversalResult, String>(TraversalResult::Continue),
    }
}
spec fn outcome(r: Result<TraversalResult, String>) -> Res {
    match r { Ok(_) => Res::Ok, Err(m) => Res::Fail(m@) }
}
spec fn res_of(r: Result<TraversalResult, String>, g: GS, p: (Res, GS)) -> bool {
    &&& p.1 == g
    &&& match r { Ok(x) => x is Continue && p.0 is Ok, Err(m) => p.0 == Res::Fail(m@) }
}
broadcast group vx_facts {
    vstd::std_specs::vec::axiom_spec_len,
    run_node, run_span, run_empty, run_none, run_push, run_add,
    %s,
}""" % ", ".join(lem))

o.append("""==== loops ::visit
---- enter
let ghost __g$k = $1.gs();
---- for
run_list($it.trees(), $i as nat, __g$k) == (Res::Ok, $1.gs()),
---- body
proof { run_step($it.trees(), $i as nat, __g$k); }""")
SRCN = open("/repo/src/ast/nodes.rs").read()
for n in TABLE:
    o.append("""==== fn %s::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_%s(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_%s(*self); }""" % (n, n, n))
    if "WithMetaData<%s>" % n in SRCN:
        o.append("""==== fn WithMetaData<%s>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_%s(self.node))), old($1).gs())),
    decreases *self, 1nat,""" % (n, n))
o.append("""==== add NodeTypeMapValueAllowingTypeArguments::visit
---- attr
#[verifier::allow_complex_invariants]
---- for:0
invariant_except_break
    run_list(__it0.trees(), __i0 as nat, __g0) == (Res::Ok, $1.gs()) && $m0 == Ok::<TraversalResult, String>(TraversalResult::Continue),
@@
ensures
    res_of($m0, $1.gs(), run_all(__it0.trees(), __g0)),""")
open(os.path.join(H, "contracts/visit.vx"), "w").write("\n".join(o) + "\n")
