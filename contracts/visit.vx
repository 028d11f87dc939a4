==== prelude
// ---- the abstract traversal (specification) ----
enum GN { NodeByteStr(NodeByteStr), NodeTypeNameIdentifier(NodeTypeNameIdentifier), NodeImportedName(NodeImportedName), NodeImportDeclarations(NodeImportDeclarations), NodeMetaIdentifier(NodeMetaIdentifier), NodeVariableIdentifier(NodeVariableIdentifier), NodeBuiltinArguments(NodeBuiltinArguments), NodeTypeMapKey(NodeTypeMapKey), NodeTypeMapValue(NodeTypeMapValue), NodeTypeArgument(NodeTypeArgument), NodeScillaType(NodeScillaType), NodeTypeMapEntry(NodeTypeMapEntry), NodeAddressTypeField(NodeAddressTypeField), NodeAddressType(NodeAddressType), NodeFullExpression(NodeFullExpression), NodeMessageEntry(NodeMessageEntry), NodePatternMatchExpressionClause(NodePatternMatchExpressionClause), NodeAtomicExpression(NodeAtomicExpression), NodeContractTypeArguments(NodeContractTypeArguments), NodeValueLiteral(NodeValueLiteral), NodeMapAccess(NodeMapAccess), NodePattern(NodePattern), NodeArgumentPattern(NodeArgumentPattern), NodePatternMatchClause(NodePatternMatchClause), NodeBlockchainFetchArguments(NodeBlockchainFetchArguments), NodeStatement(NodeStatement), NodeRemoteFetchStatement(NodeRemoteFetchStatement), NodeComponentId(NodeComponentId), NodeComponentParameters(NodeComponentParameters), NodeParameterPair(NodeParameterPair), NodeComponentBody(NodeComponentBody), NodeStatementBlock(NodeStatementBlock), NodeTypedIdentifier(NodeTypedIdentifier), NodeTypeAnnotation(NodeTypeAnnotation), NodeProgram(NodeProgram), NodeLibraryDefinition(NodeLibraryDefinition), NodeLibrarySingleDefinition(NodeLibrarySingleDefinition), NodeContractDefinition(NodeContractDefinition), NodeContractField(NodeContractField), NodeWithConstraint(NodeWithConstraint), NodeComponentDefinition(NodeComponentDefinition), NodeProcedureDefinition(NodeProcedureDefinition), NodeTransitionDefinition(NodeTransitionDefinition), NodeTypeAlternativeClause(NodeTypeAlternativeClause), NodeTypeMapValueArguments(NodeTypeMapValueArguments), NodeTypeMapValueAllowingTypeArguments(NodeTypeMapValueAllowingTypeArguments) }
enum N { Node(GN, Seq<N>), Span(SourcePosition, SourcePosition, Box<N>) }
enum Ev { Push(SourcePosition, SourcePosition), Pop, Cb(GN, bool) }
enum Ans { Continue, Skip, Fail(Seq<char>) }
enum Res { Ok, Fail(Seq<char>) }
// What the converter has been told so far, and its answer to a callback after any history.
struct GS { trace: Seq<Ev>, ans: spec_fn(Seq<Ev>) -> Ans }
spec fn said(g: GS, e: Ev) -> GS { GS { trace: g.trace.push(e), ans: g.ans } }
spec fn answer(g: GS) -> Ans { (g.ans)(g.trace) }

// Enter, the children in order, exit; a Skip leaves the children and the exit out, a failure ends everything
// but the closing of positions.
#[verifier::opaque]
spec fn run(t: N, g: GS) -> (Res, GS) decreases t, 0nat {
    match t {
        N::Node(gn, ch) => {
            let g1 = said(g, Ev::Cb(gn, true));
            match answer(g) {
                Ans::Fail(m) => (Res::Fail(m), g1),
                Ans::Skip => (Res::Ok, g1),
                Ans::Continue => {
                    let (r, g2) = run_list(ch, ch.len(), g1);
                    match r {
                        Res::Fail(m) => (r, g2),
                        Res::Ok => (match answer(g2) { Ans::Fail(m) => Res::Fail(m), _ => Res::Ok }, said(g2, Ev::Cb(gn, false))),
                    }
                },
            }
        },
        N::Span(start, end, t) => {
            let (r, g1) = run(*t, said(g, Ev::Push(start, end)));
            (r, said(g1, Ev::Pop))
        },
    }
}
// The first n of a list of siblings.
#[verifier::opaque]
spec fn run_list(s: Seq<N>, n: nat, g: GS) -> (Res, GS) decreases s, n {
    if n == 0 || n > s.len() { (Res::Ok, g) } else {
        let (r, g1) = run_list(s, (n - 1) as nat, g);
        match r { Res::Fail(m) => (r, g1), Res::Ok => run(s[n - 1], g1) }
    }
}
spec fn run_all(s: Seq<N>, g: GS) -> (Res, GS) { run_list(s, s.len(), g) }

broadcast proof fn run_node(gn: GN, ch: Seq<N>, g: GS)
    ensures #[trigger] run(N::Node(gn, ch), g) == ({
            let g1 = said(g, Ev::Cb(gn, true));
            match answer(g) {
                Ans::Fail(m) => (Res::Fail(m), g1),
                Ans::Skip => (Res::Ok, g1),
                Ans::Continue => {
                    let (r, g2) = run_all(ch, g1);
                    match r {
                        Res::Fail(m) => (r, g2),
                        Res::Ok => (match answer(g2) { Ans::Fail(m) => Res::Fail(m), _ => Res::Ok }, said(g2, Ev::Cb(gn, false))),
                    }
                },
            }
    })
{ reveal(run); reveal(run_list); }
broadcast proof fn run_span(start: SourcePosition, end: SourcePosition, t: N, g: GS)
    ensures #[trigger] run(N::Span(start, end, Box::new(t)), g) == ({
            let (r, g1) = run(t, said(g, Ev::Push(start, end)));
            (r, said(g1, Ev::Pop))
    })
{ reveal(run); reveal(run_list); }
broadcast proof fn run_empty(g: GS) ensures #[trigger] run_all(Seq::<N>::empty(), g) == (Res::Ok, g) { reveal(run); reveal(run_list); }
broadcast proof fn run_none(s: Seq<N>, g: GS) ensures #[trigger] run_list(s, 0, g) == (Res::Ok, g) { reveal(run); reveal(run_list); }
proof fn run_list_prefix(a: Seq<N>, b: Seq<N>, n: nat, g: GS)
    requires n <= a.len(), n <= b.len(), a.subrange(0, n as int) =~= b.subrange(0, n as int),
    ensures run_list(a, n, g) == run_list(b, n, g),
    decreases n,
{
    reveal(run); reveal(run_list);
    if n > 0 {
        assert(a.subrange(0, n - 1) =~= a.subrange(0, n as int).subrange(0, n - 1));
        assert(b.subrange(0, n - 1) =~= b.subrange(0, n as int).subrange(0, n - 1));
        run_list_prefix(a, b, (n - 1) as nat, g);
        assert(a.subrange(0, n as int)[n - 1] == b.subrange(0, n as int)[n - 1]);
    }
}
broadcast proof fn run_push(s: Seq<N>, x: N, g: GS)
    ensures #[trigger] run_all(s.push(x), g) == (match run_all(s, g) { (Res::Ok, g1) => run(x, g1), (r, g1) => (r, g1) }),
{
    reveal(run); reveal(run_list);
    run_list_prefix(s.push(x), s, s.len(), g);
    assert(s.push(x).len() == s.len() + 1);
    assert(s.push(x)[s.len() as int] == x);
}
broadcast proof fn run_add(a: Seq<N>, b: Seq<N>, g: GS)
    ensures #[trigger] run_all(a + b, g) == (match run_all(a, g) { (Res::Ok, g1) => run_all(b, g1), (r, g1) => (r, g1) }),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        reveal(run_list);
    } else {
        let c = b.drop_last();
        let x = b.last();
        run_add(a, c, g);
        assert(a + b =~= (a + c).push(x));
        assert(b =~= c.push(x));
        run_push(a + c, x, g);
        match run_all(a, g) { (Res::Ok, g1) => { run_push(c, x, g1); }, _ => { } }
    }
}
// One more sibling, or the failure of one decides for the whole list.
proof fn run_step(s: Seq<N>, n: nat, g: GS)
    requires n < s.len(), run_list(s, n, g).0 is Ok,
    ensures
        run_list(s, n + 1, g) == run(s[n as int], run_list(s, n, g).1),
        run(s[n as int], run_list(s, n, g).1).0 is Fail ==> run_all(s, g) == run(s[n as int], run_list(s, n, g).1),
{
    reveal(run); reveal(run_list);
    let r = run(s[n as int], run_list(s, n, g).1);
    if r.0 is Fail { run_fail(s, n + 1, s.len(), g); }
}
proof fn run_fail(s: Seq<N>, n: nat, m: nat, g: GS)
    requires n <= m <= s.len(), run_list(s, n, g).0 is Fail,
    ensures run_list(s, m, g) == run_list(s, n, g),
    decreases m,
{
    reveal(run); reveal(run_list);
    if m > n { run_fail(s, n, (m - 1) as nat, g); }
}

// ---- what the traversals say about any converter (C10, C11) ----
spec fn walk(t: N) -> Seq<Ev> decreases t, 0nat {
    match t {
        N::Node(gn, ch) => seq![Ev::Cb(gn, true)] + walk_list(ch, ch.len()) + seq![Ev::Cb(gn, false)],
        N::Span(start, end, t) => seq![Ev::Push(start, end)] + walk(*t) + seq![Ev::Pop],
    }
}
spec fn walk_list(s: Seq<N>, n: nat) -> Seq<Ev> decreases s, n {
    if n == 0 || n > s.len() { Seq::empty() } else { walk_list(s, (n - 1) as nat) + walk(s[n - 1]) }
}
// C10: when nothing is skipped and nothing fails, every node is entered, its children follow in order, and it is left.
proof fn lemma_walk(t: N, g: GS)
    requires forall|h: Seq<Ev>| (#[trigger] (g.ans)(h)) is Continue,
    ensures run(t, g) == (Res::Ok, GS { trace: g.trace + walk(t), ans: g.ans }),
    decreases t, 0nat,
{
    reveal(run); reveal(run_list);
    match t {
        N::Node(gn, ch) => {
            let g1 = said(g, Ev::Cb(gn, true));
            lemma_walk_list(ch, ch.len(), g1);
            assert(run(t, g).1.trace =~= g.trace + walk(t));
        },
        N::Span(start, end, u) => {
            lemma_walk(*u, said(g, Ev::Push(start, end)));
            assert(run(t, g).1.trace =~= g.trace + walk(t));
        },
    }
}
proof fn lemma_walk_list(s: Seq<N>, n: nat, g: GS)
    requires forall|h: Seq<Ev>| (#[trigger] (g.ans)(h)) is Continue, n <= s.len(),
    ensures run_list(s, n, g) == (Res::Ok, GS { trace: g.trace + walk_list(s, n), ans: g.ans }),
    decreases s, n,
{
    reveal(run); reveal(run_list);
    if n == 0 { assert(g.trace + walk_list(s, n) =~= g.trace); } else {
        lemma_walk_list(s, (n - 1) as nat, g);
        let g1 = run_list(s, (n - 1) as nat, g).1;
        lemma_walk(s[n - 1], g1);
        assert(g1.trace + walk(s[n - 1]) =~= g.trace + walk_list(s, n));
    }
}
// C11: a failing traversal ends with the failing callback and then only closes positions; a successful one has
// no failing callback; the history before is kept, and openings and closings balance.
spec fn only_pops(t: Seq<Ev>, from: int) -> bool { forall|i: int| from <= i < t.len() ==> (#[trigger] t[i]) is Pop }
spec fn failed_at(g: GS, t: Seq<Ev>, i: int, m: Seq<char>) -> bool {
    0 <= i < t.len() && t[i] is Cb && (g.ans)(t.subrange(0, i)) == Ans::Fail(m)
}
spec fn clean(g: GS, t: Seq<Ev>, from: int, to: int) -> bool {
    forall|i: int| from <= i < to && (#[trigger] t[i]) is Cb ==> !((g.ans)(t.subrange(0, i)) is Fail)
}
spec fn depth(t: Seq<Ev>) -> int decreases t.len() {
    if t.len() == 0 { 0 } else { depth(t.drop_last()) + (match t.last() { Ev::Push(..) => 1int, Ev::Pop => -1int, _ => 0int }) }
}
spec fn fails(g: GS, h: GS, m: Seq<char>) -> bool { exists|i: int| fails_at(g, h, i, m) }
spec fn fails_at(g: GS, h: GS, i: int, m: Seq<char>) -> bool {
    g.trace.len() <= i && failed_at(g, h.trace, i, m) && only_pops(h.trace, i + 1) && clean(g, h.trace, g.trace.len() as int, i)
}
spec fn stops(g: GS, r: Res, h: GS) -> bool {
    &&& h.ans == g.ans
    &&& g.trace.len() <= h.trace.len()
    &&& h.trace.subrange(0, g.trace.len() as int) =~= g.trace
    &&& depth(h.trace) == depth(g.trace)
    &&& match r {
        Res::Ok => clean(g, h.trace, g.trace.len() as int, h.trace.len() as int),
        Res::Fail(m) => fails(g, h, m),
    }
}
proof fn lemma_depth_push(t: Seq<Ev>, e: Ev)
    ensures depth(t.push(e)) == depth(t) + (match e { Ev::Push(..) => 1int, Ev::Pop => -1int, _ => 0int }),
{ assert(t.push(e).drop_last() =~= t); }
proof fn lemma_keep(g: GS, a: Seq<Ev>, b: Seq<Ev>, from: int, to: int)
    requires 0 <= from, to <= a.len() <= b.len(), b.subrange(0, a.len() as int) =~= a,
    ensures clean(g, a, from, to) ==> clean(g, b, from, to),
        forall|i: int, m: Seq<char>| 0 <= i < a.len() && failed_at(g, a, i, m) ==> #[trigger] failed_at(g, b, i, m),
{
    assert forall|i: int| 0 <= i < a.len() implies b.subrange(0, i) == a.subrange(0, i) && b[i] == a[i] by {
        assert(b.subrange(0, a.len() as int)[i] == b[i]);
        assert(b.subrange(0, a.len() as int).subrange(0, i) =~= b.subrange(0, i));
    }
}
proof fn lemma_stops(t: N, g: GS)
    ensures stops(g, run(t, g).0, run(t, g).1),
    decreases t, 0nat,
{
    reveal(run); reveal(run_list);
    let (r, h) = run(t, g);
    match t {
        N::Node(gn, ch) => {
            let e1 = Ev::Cb(gn, true);
            let g1 = said(g, e1);
            lemma_depth_push(g.trace, e1);
            assert(g1.trace.subrange(0, g.trace.len() as int) =~= g.trace);
            let k = g.trace.len() as int;
            match answer(g) {
                Ans::Fail(m) => { assert(r == Res::Fail(m) && h == g1); assert(failed_at(g, h.trace, k, m)); assert(only_pops(h.trace, k + 1)); assert(clean(g, h.trace, k, k)); assert(fails_at(g, h, k, m)); assert(h.trace.subrange(0, k) =~= g.trace); assert(depth(h.trace) == depth(g.trace)); assert(stops(g, r, h)); },
                Ans::Skip => { assert(stops(g, r, h)); },
                Ans::Continue => {
                    lemma_stops_list(ch, ch.len(), g1);
                    let (r2, g2) = run_list(ch, ch.len(), g1);
                    assert(g2.trace.subrange(0, k) =~= g.trace) by {
                        assert(g2.trace.subrange(0, k) =~= g2.trace.subrange(0, k + 1).subrange(0, k));
                    }
                    lemma_keep(g, g1.trace, g2.trace, k, k + 1);
                    assert(clean(g, g1.trace, k, k + 1));
                    match r2 {
                        Res::Fail(m) => {
                            let i = choose|i: int| fails_at(g1, g2, i, m);
                            assert(failed_at(g, g2.trace, i, m));
                            assert(clean(g, g2.trace, k, i));
                            assert(fails_at(g, h, i, m));
                            assert(stops(g, r, h));
                        },
                        Res::Ok => {
                            let e2 = Ev::Cb(gn, false);
                            lemma_depth_push(g2.trace, e2);
                            let n2 = g2.trace.len() as int;
                            assert(h.trace == g2.trace.push(e2));
                            assert(h.trace.subrange(0, n2) =~= g2.trace);
                            assert(h.trace.subrange(0, k) =~= g2.trace.subrange(0, k));
                            assert(clean(g, g2.trace, k, n2));
                            lemma_keep(g, g2.trace, h.trace, k, n2);
                            match answer(g2) { Ans::Fail(m) => { assert(r == Res::Fail(m)); assert(failed_at(g, h.trace, n2, m)); assert(only_pops(h.trace, n2 + 1)); assert(clean(g, h.trace, k, n2)); assert(fails_at(g, h, n2, m)); assert(depth(h.trace) == depth(g.trace)); assert(stops(g, r, h)); }, _ => { assert(stops(g, r, h)); } }
                        },
                    }
                },
            }
        },
        N::Span(start, end, u) => {
            let g0 = said(g, Ev::Push(start, end));
            lemma_depth_push(g.trace, Ev::Push(start, end));
            lemma_stops(*u, g0);
            let (r1, g1) = run(*u, g0);
            let k = g.trace.len() as int;
            let n1 = g1.trace.len() as int;
            lemma_depth_push(g1.trace, Ev::Pop);
            assert(h.trace == g1.trace.push(Ev::Pop));
            assert(h.trace.subrange(0, n1) =~= g1.trace);
            assert(g0.trace.subrange(0, k) =~= g.trace);
            assert(h.trace.subrange(0, k) =~= g1.trace.subrange(0, k + 1).subrange(0, k));
            assert(g1.trace.subrange(0, k + 1)[k] == g1.trace[k]);
            match r1 {
                Res::Ok => { assert(clean(g, g1.trace, k, n1)); lemma_keep(g, g1.trace, h.trace, k, n1); },
                Res::Fail(m) => {
                    let i = choose|i: int| fails_at(g0, g1, i, m);
                    assert(failed_at(g, g1.trace, i, m));
                    assert(clean(g, g1.trace, k, i));
                    lemma_keep(g, g1.trace, h.trace, k, i);
                    assert(failed_at(g, h.trace, i, m));
                    assert(fails_at(g, h, i, m));
                },
            }
        },
    }
}
proof fn lemma_stops_list(s: Seq<N>, n: nat, g: GS)
    requires n <= s.len(),
    ensures stops(g, run_list(s, n, g).0, run_list(s, n, g).1),
    decreases s, n,
{
    reveal(run); reveal(run_list);
    let k = g.trace.len() as int;
    if n == 0 { } else {
        lemma_stops_list(s, (n - 1) as nat, g);
        let (r1, g1) = run_list(s, (n - 1) as nat, g);
        if r1 is Ok {
            lemma_stops(s[n - 1], g1);
            let (r, h) = run(s[n - 1], g1);
            let n1 = g1.trace.len() as int;
            assert(h.trace.subrange(0, k) =~= h.trace.subrange(0, n1).subrange(0, k));
            lemma_keep(g, g1.trace, h.trace, k, n1);
            match r {
                Res::Ok => { assert(clean(g, h.trace, k, h.trace.len() as int)); },
                Res::Fail(m) => {
                    let i = choose|i: int| fails_at(g1, h, i, m);
                    assert(failed_at(g, h.trace, i, m));
                    assert(clean(g, h.trace, k, i));
                    assert(fails_at(g, h, i, m));
                },
            }
        }
    }
}

// ---- the visited part of a syntax tree (specification) ----
#[verifier::opaque]
spec fn tree_NodeByteStr(n: NodeByteStr) -> N decreases n {
    N::Node(GN::NodeByteStr(n), match n {
        NodeByteStr::Constant(_) => Seq::<N>::empty(),
        NodeByteStr::Type(_) => Seq::<N>::empty(),
    })
}
proof fn tree_is_NodeByteStr(n: NodeByteStr)
    ensures tree_NodeByteStr(n) == N::Node(GN::NodeByteStr(n), (match n {
        NodeByteStr::Constant(_) => Seq::<N>::empty(),
        NodeByteStr::Type(_) => Seq::<N>::empty(),
    }))
{ reveal_with_fuel(tree_NodeByteStr, 1); }
#[verifier::opaque]
spec fn tree_NodeTypeNameIdentifier(n: NodeTypeNameIdentifier) -> N decreases n {
    N::Node(GN::NodeTypeNameIdentifier(n), match n {
        NodeTypeNameIdentifier::ByteStringType(a0) => Seq::<N>::empty().push(tree_NodeByteStr(a0)),
        NodeTypeNameIdentifier::EventType => Seq::<N>::empty(),
        NodeTypeNameIdentifier::TypeOrEnumLikeIdentifier(_) => Seq::<N>::empty(),
    })
}
proof fn tree_is_NodeTypeNameIdentifier(n: NodeTypeNameIdentifier)
    ensures tree_NodeTypeNameIdentifier(n) == N::Node(GN::NodeTypeNameIdentifier(n), (match n {
        NodeTypeNameIdentifier::ByteStringType(a0) => Seq::<N>::empty().push(tree_NodeByteStr(a0)),
        NodeTypeNameIdentifier::EventType => Seq::<N>::empty(),
        NodeTypeNameIdentifier::TypeOrEnumLikeIdentifier(_) => Seq::<N>::empty(),
    }))
{ reveal_with_fuel(tree_NodeByteStr, 1); reveal_with_fuel(tree_NodeTypeNameIdentifier, 1); }
#[verifier::opaque]
spec fn tree_NodeImportedName(n: NodeImportedName) -> N decreases n {
    N::Node(GN::NodeImportedName(n), match n {
        NodeImportedName::RegularImport(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeNameIdentifier(a0.node)))),
        NodeImportedName::AliasedImport(a0, a1) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeNameIdentifier(a0.node)))).push(N::Span(a1.start, a1.end, Box::new(tree_NodeTypeNameIdentifier(a1.node)))),
    })
}
proof fn tree_is_NodeImportedName(n: NodeImportedName)
    ensures tree_NodeImportedName(n) == N::Node(GN::NodeImportedName(n), (match n {
        NodeImportedName::RegularImport(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeNameIdentifier(a0.node)))),
        NodeImportedName::AliasedImport(a0, a1) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeNameIdentifier(a0.node)))).push(N::Span(a1.start, a1.end, Box::new(tree_NodeTypeNameIdentifier(a1.node)))),
    }))
{ reveal_with_fuel(tree_NodeImportedName, 1); reveal_with_fuel(tree_NodeTypeNameIdentifier, 1); }
#[verifier::opaque]
spec fn tree_NodeImportDeclarations(n: NodeImportDeclarations) -> N decreases n { N::Node(GN::NodeImportDeclarations(n), trees_WithMetaDataNodeImportedName(n.import_list)) }
proof fn tree_is_NodeImportDeclarations(n: NodeImportDeclarations)
    ensures tree_NodeImportDeclarations(n) == N::Node(GN::NodeImportDeclarations(n), trees_WithMetaDataNodeImportedName(n.import_list))
{ reveal_with_fuel(tree_NodeImportDeclarations, 1); reveal_with_fuel(trees_WithMetaDataNodeImportedName, 1); }
#[verifier::opaque]
spec fn tree_NodeMetaIdentifier(n: NodeMetaIdentifier) -> N decreases n {
    N::Node(GN::NodeMetaIdentifier(n), match n {
        NodeMetaIdentifier::MetaName(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeNameIdentifier(a0.node)))),
        NodeMetaIdentifier::MetaNameInNamespace(a0, a1) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeNameIdentifier(a0.node)))).push(N::Span(a1.start, a1.end, Box::new(tree_NodeTypeNameIdentifier(a1.node)))),
        NodeMetaIdentifier::MetaNameInHexspace(_, a1) => Seq::<N>::empty().push(N::Span(a1.start, a1.end, Box::new(tree_NodeTypeNameIdentifier(a1.node)))),
        NodeMetaIdentifier::ByteString => Seq::<N>::empty(),
    })
}
proof fn tree_is_NodeMetaIdentifier(n: NodeMetaIdentifier)
    ensures tree_NodeMetaIdentifier(n) == N::Node(GN::NodeMetaIdentifier(n), (match n {
        NodeMetaIdentifier::MetaName(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeNameIdentifier(a0.node)))),
        NodeMetaIdentifier::MetaNameInNamespace(a0, a1) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeNameIdentifier(a0.node)))).push(N::Span(a1.start, a1.end, Box::new(tree_NodeTypeNameIdentifier(a1.node)))),
        NodeMetaIdentifier::MetaNameInHexspace(_, a1) => Seq::<N>::empty().push(N::Span(a1.start, a1.end, Box::new(tree_NodeTypeNameIdentifier(a1.node)))),
        NodeMetaIdentifier::ByteString => Seq::<N>::empty(),
    }))
{ reveal_with_fuel(tree_NodeMetaIdentifier, 1); reveal_with_fuel(tree_NodeTypeNameIdentifier, 1); }
#[verifier::opaque]
spec fn tree_NodeVariableIdentifier(n: NodeVariableIdentifier) -> N decreases n {
    N::Node(GN::NodeVariableIdentifier(n), match n {
        NodeVariableIdentifier::VariableName(_) => Seq::<N>::empty(),
        NodeVariableIdentifier::SpecialIdentifier(_) => Seq::<N>::empty(),
        NodeVariableIdentifier::VariableInNamespace(a0, _) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeNameIdentifier(a0.node)))),
    })
}
proof fn tree_is_NodeVariableIdentifier(n: NodeVariableIdentifier)
    ensures tree_NodeVariableIdentifier(n) == N::Node(GN::NodeVariableIdentifier(n), (match n {
        NodeVariableIdentifier::VariableName(_) => Seq::<N>::empty(),
        NodeVariableIdentifier::SpecialIdentifier(_) => Seq::<N>::empty(),
        NodeVariableIdentifier::VariableInNamespace(a0, _) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeNameIdentifier(a0.node)))),
    }))
{ reveal_with_fuel(tree_NodeTypeNameIdentifier, 1); reveal_with_fuel(tree_NodeVariableIdentifier, 1); }
#[verifier::opaque]
spec fn tree_NodeBuiltinArguments(n: NodeBuiltinArguments) -> N decreases n { N::Node(GN::NodeBuiltinArguments(n), trees_WithMetaDataNodeVariableIdentifier(n.arguments)) }
proof fn tree_is_NodeBuiltinArguments(n: NodeBuiltinArguments)
    ensures tree_NodeBuiltinArguments(n) == N::Node(GN::NodeBuiltinArguments(n), trees_WithMetaDataNodeVariableIdentifier(n.arguments))
{ reveal_with_fuel(tree_NodeBuiltinArguments, 1); reveal_with_fuel(trees_WithMetaDataNodeVariableIdentifier, 1); }
#[verifier::opaque]
spec fn tree_NodeTypeMapKey(n: NodeTypeMapKey) -> N decreases n {
    N::Node(GN::NodeTypeMapKey(n), match n {
        NodeTypeMapKey::GenericMapKey(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeMetaIdentifier(a0.node)))),
        NodeTypeMapKey::EnclosedGenericId(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeMetaIdentifier(a0.node)))),
        NodeTypeMapKey::EnclosedAddressMapKeyType(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeAddressType(a0.node)))),
        NodeTypeMapKey::AddressMapKeyType(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeAddressType(a0.node)))),
    })
}
proof fn tree_is_NodeTypeMapKey(n: NodeTypeMapKey)
    ensures tree_NodeTypeMapKey(n) == N::Node(GN::NodeTypeMapKey(n), (match n {
        NodeTypeMapKey::GenericMapKey(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeMetaIdentifier(a0.node)))),
        NodeTypeMapKey::EnclosedGenericId(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeMetaIdentifier(a0.node)))),
        NodeTypeMapKey::EnclosedAddressMapKeyType(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeAddressType(a0.node)))),
        NodeTypeMapKey::AddressMapKeyType(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeAddressType(a0.node)))),
    }))
{ reveal_with_fuel(tree_NodeAddressType, 1); reveal_with_fuel(tree_NodeMetaIdentifier, 1); reveal_with_fuel(tree_NodeTypeMapKey, 1); }
#[verifier::opaque]
spec fn tree_NodeTypeMapValue(n: NodeTypeMapValue) -> N decreases n {
    N::Node(GN::NodeTypeMapValue(n), match n {
        NodeTypeMapValue::MapValueTypeOrEnumLikeIdentifier(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeMetaIdentifier(a0.node)))),
        NodeTypeMapValue::MapKeyValue(a0) => Seq::<N>::empty().push(N::Span((*a0).start, (*a0).end, Box::new(tree_NodeTypeMapEntry((*a0).node)))),
        NodeTypeMapValue::MapValueParenthesizedType(a0) => Seq::<N>::empty().push(N::Span((*a0).start, (*a0).end, Box::new(tree_NodeTypeMapValueAllowingTypeArguments((*a0).node)))),
        NodeTypeMapValue::MapValueAddressType(a0) => Seq::<N>::empty().push(N::Span((*a0).start, (*a0).end, Box::new(tree_NodeAddressType((*a0).node)))),
    })
}
proof fn tree_is_NodeTypeMapValue(n: NodeTypeMapValue)
    ensures tree_NodeTypeMapValue(n) == N::Node(GN::NodeTypeMapValue(n), (match n {
        NodeTypeMapValue::MapValueTypeOrEnumLikeIdentifier(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeMetaIdentifier(a0.node)))),
        NodeTypeMapValue::MapKeyValue(a0) => Seq::<N>::empty().push(N::Span((*a0).start, (*a0).end, Box::new(tree_NodeTypeMapEntry((*a0).node)))),
        NodeTypeMapValue::MapValueParenthesizedType(a0) => Seq::<N>::empty().push(N::Span((*a0).start, (*a0).end, Box::new(tree_NodeTypeMapValueAllowingTypeArguments((*a0).node)))),
        NodeTypeMapValue::MapValueAddressType(a0) => Seq::<N>::empty().push(N::Span((*a0).start, (*a0).end, Box::new(tree_NodeAddressType((*a0).node)))),
    }))
{ reveal_with_fuel(tree_NodeAddressType, 1); reveal_with_fuel(tree_NodeMetaIdentifier, 1); reveal_with_fuel(tree_NodeTypeMapEntry, 1); reveal_with_fuel(tree_NodeTypeMapValue, 1); reveal_with_fuel(tree_NodeTypeMapValueAllowingTypeArguments, 1); }
#[verifier::opaque]
spec fn tree_NodeTypeArgument(n: NodeTypeArgument) -> N decreases n {
    N::Node(GN::NodeTypeArgument(n), match n {
        NodeTypeArgument::EnclosedTypeArgument(a0) => Seq::<N>::empty().push(N::Span((*a0).start, (*a0).end, Box::new(tree_NodeScillaType((*a0).node)))),
        NodeTypeArgument::GenericTypeArgument(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeMetaIdentifier(a0.node)))),
        NodeTypeArgument::TemplateTypeArgument(_) => Seq::<N>::empty(),
        NodeTypeArgument::AddressTypeArgument(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeAddressType(a0.node)))),
        NodeTypeArgument::MapTypeArgument(a0, a1) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeMapKey(a0.node)))).push(N::Span(a1.start, a1.end, Box::new(tree_NodeTypeMapValue(a1.node)))),
    })
}
proof fn tree_is_NodeTypeArgument(n: NodeTypeArgument)
    ensures tree_NodeTypeArgument(n) == N::Node(GN::NodeTypeArgument(n), (match n {
        NodeTypeArgument::EnclosedTypeArgument(a0) => Seq::<N>::empty().push(N::Span((*a0).start, (*a0).end, Box::new(tree_NodeScillaType((*a0).node)))),
        NodeTypeArgument::GenericTypeArgument(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeMetaIdentifier(a0.node)))),
        NodeTypeArgument::TemplateTypeArgument(_) => Seq::<N>::empty(),
        NodeTypeArgument::AddressTypeArgument(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeAddressType(a0.node)))),
        NodeTypeArgument::MapTypeArgument(a0, a1) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeMapKey(a0.node)))).push(N::Span(a1.start, a1.end, Box::new(tree_NodeTypeMapValue(a1.node)))),
    }))
{ reveal_with_fuel(tree_NodeAddressType, 1); reveal_with_fuel(tree_NodeMetaIdentifier, 1); reveal_with_fuel(tree_NodeScillaType, 1); reveal_with_fuel(tree_NodeTypeArgument, 1); reveal_with_fuel(tree_NodeTypeMapKey, 1); reveal_with_fuel(tree_NodeTypeMapValue, 1); }
#[verifier::opaque]
spec fn tree_NodeScillaType(n: NodeScillaType) -> N decreases n {
    N::Node(GN::NodeScillaType(n), match n {
        NodeScillaType::GenericTypeWithArgs(a0, a1) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeMetaIdentifier(a0.node)))) + trees_WithMetaDataNodeTypeArgument(a1),
        NodeScillaType::MapType(a0, a1) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeMapKey(a0.node)))).push(N::Span(a1.start, a1.end, Box::new(tree_NodeTypeMapValue(a1.node)))),
        NodeScillaType::FunctionType(a0, a1) => Seq::<N>::empty().push(N::Span((*a0).start, (*a0).end, Box::new(tree_NodeScillaType((*a0).node)))).push(N::Span((*a1).start, (*a1).end, Box::new(tree_NodeScillaType((*a1).node)))),
        NodeScillaType::EnclosedType(a0) => Seq::<N>::empty().push(N::Span((*a0).start, (*a0).end, Box::new(tree_NodeScillaType((*a0).node)))),
        NodeScillaType::ScillaAddresseType(a0) => Seq::<N>::empty().push(N::Span((*a0).start, (*a0).end, Box::new(tree_NodeAddressType((*a0).node)))),
        NodeScillaType::PolyFunctionType(_, a1) => Seq::<N>::empty().push(N::Span((*a1).start, (*a1).end, Box::new(tree_NodeScillaType((*a1).node)))),
        NodeScillaType::TypeVarType(_) => Seq::<N>::empty(),
    })
}
proof fn tree_is_NodeScillaType(n: NodeScillaType)
    ensures tree_NodeScillaType(n) == N::Node(GN::NodeScillaType(n), (match n {
        NodeScillaType::GenericTypeWithArgs(a0, a1) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeMetaIdentifier(a0.node)))) + trees_WithMetaDataNodeTypeArgument(a1),
        NodeScillaType::MapType(a0, a1) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeMapKey(a0.node)))).push(N::Span(a1.start, a1.end, Box::new(tree_NodeTypeMapValue(a1.node)))),
        NodeScillaType::FunctionType(a0, a1) => Seq::<N>::empty().push(N::Span((*a0).start, (*a0).end, Box::new(tree_NodeScillaType((*a0).node)))).push(N::Span((*a1).start, (*a1).end, Box::new(tree_NodeScillaType((*a1).node)))),
        NodeScillaType::EnclosedType(a0) => Seq::<N>::empty().push(N::Span((*a0).start, (*a0).end, Box::new(tree_NodeScillaType((*a0).node)))),
        NodeScillaType::ScillaAddresseType(a0) => Seq::<N>::empty().push(N::Span((*a0).start, (*a0).end, Box::new(tree_NodeAddressType((*a0).node)))),
        NodeScillaType::PolyFunctionType(_, a1) => Seq::<N>::empty().push(N::Span((*a1).start, (*a1).end, Box::new(tree_NodeScillaType((*a1).node)))),
        NodeScillaType::TypeVarType(_) => Seq::<N>::empty(),
    }))
{ reveal_with_fuel(tree_NodeAddressType, 1); reveal_with_fuel(tree_NodeMetaIdentifier, 1); reveal_with_fuel(tree_NodeScillaType, 1); reveal_with_fuel(tree_NodeTypeMapKey, 1); reveal_with_fuel(tree_NodeTypeMapValue, 1); reveal_with_fuel(trees_WithMetaDataNodeTypeArgument, 1); }
#[verifier::opaque]
spec fn tree_NodeTypeMapEntry(n: NodeTypeMapEntry) -> N decreases n { N::Node(GN::NodeTypeMapEntry(n), Seq::<N>::empty().push(N::Span(n.key.start, n.key.end, Box::new(tree_NodeTypeMapKey(n.key.node)))).push(N::Span(n.value.start, n.value.end, Box::new(tree_NodeTypeMapValue(n.value.node))))) }
proof fn tree_is_NodeTypeMapEntry(n: NodeTypeMapEntry)
    ensures tree_NodeTypeMapEntry(n) == N::Node(GN::NodeTypeMapEntry(n), Seq::<N>::empty().push(N::Span(n.key.start, n.key.end, Box::new(tree_NodeTypeMapKey(n.key.node)))).push(N::Span(n.value.start, n.value.end, Box::new(tree_NodeTypeMapValue(n.value.node)))))
{ reveal_with_fuel(tree_NodeTypeMapEntry, 1); reveal_with_fuel(tree_NodeTypeMapKey, 1); reveal_with_fuel(tree_NodeTypeMapValue, 1); }
#[verifier::opaque]
spec fn tree_NodeAddressTypeField(n: NodeAddressTypeField) -> N decreases n { N::Node(GN::NodeAddressTypeField(n), Seq::<N>::empty().push(N::Span(n.identifier.start, n.identifier.end, Box::new(tree_NodeVariableIdentifier(n.identifier.node)))).push(N::Span(n.type_name.start, n.type_name.end, Box::new(tree_NodeScillaType(n.type_name.node))))) }
proof fn tree_is_NodeAddressTypeField(n: NodeAddressTypeField)
    ensures tree_NodeAddressTypeField(n) == N::Node(GN::NodeAddressTypeField(n), Seq::<N>::empty().push(N::Span(n.identifier.start, n.identifier.end, Box::new(tree_NodeVariableIdentifier(n.identifier.node)))).push(N::Span(n.type_name.start, n.type_name.end, Box::new(tree_NodeScillaType(n.type_name.node)))))
{ reveal_with_fuel(tree_NodeAddressTypeField, 1); reveal_with_fuel(tree_NodeScillaType, 1); reveal_with_fuel(tree_NodeVariableIdentifier, 1); }
#[verifier::opaque]
spec fn tree_NodeAddressType(n: NodeAddressType) -> N decreases n { N::Node(GN::NodeAddressType(n), Seq::<N>::empty().push(N::Span(n.identifier.start, n.identifier.end, Box::new(tree_NodeTypeNameIdentifier(n.identifier.node)))) + trees_WithMetaDataNodeAddressTypeField(n.address_fields)) }
proof fn tree_is_NodeAddressType(n: NodeAddressType)
    ensures tree_NodeAddressType(n) == N::Node(GN::NodeAddressType(n), Seq::<N>::empty().push(N::Span(n.identifier.start, n.identifier.end, Box::new(tree_NodeTypeNameIdentifier(n.identifier.node)))) + trees_WithMetaDataNodeAddressTypeField(n.address_fields))
{ reveal_with_fuel(tree_NodeAddressType, 1); reveal_with_fuel(tree_NodeTypeNameIdentifier, 1); reveal_with_fuel(trees_WithMetaDataNodeAddressTypeField, 1); }
#[verifier::opaque]
spec fn tree_NodeFullExpression(n: NodeFullExpression) -> N decreases n {
    N::Node(GN::NodeFullExpression(n), match n {
        NodeFullExpression::LocalVariableDeclaration { expression, containing_expression, .. } => Seq::<N>::empty().push(N::Span((*expression).start, (*expression).end, Box::new(tree_NodeFullExpression((*expression).node)))).push(N::Span((*containing_expression).start, (*containing_expression).end, Box::new(tree_NodeFullExpression((*containing_expression).node)))),
        NodeFullExpression::FunctionDeclaration { expression, .. } => Seq::<N>::empty().push(N::Span((*expression).start, (*expression).end, Box::new(tree_NodeFullExpression((*expression).node)))),
        NodeFullExpression::FunctionCall { function_name, argument_list, .. } => Seq::<N>::empty().push(N::Span(function_name.start, function_name.end, Box::new(tree_NodeVariableIdentifier(function_name.node)))) + trees_WithMetaDataNodeVariableIdentifier(argument_list),
        NodeFullExpression::ExpressionAtomic(a0) => Seq::<N>::empty().push(N::Span((*a0).start, (*a0).end, Box::new(tree_NodeAtomicExpression((*a0).node)))),
        NodeFullExpression::ExpressionBuiltin { xs, .. } => Seq::<N>::empty().push(N::Span(xs.start, xs.end, Box::new(tree_NodeBuiltinArguments(xs.node)))),
        NodeFullExpression::Message(a0) => trees_WithMetaDataNodeMessageEntry(a0),
        NodeFullExpression::Match { match_expression, clauses, .. } => Seq::<N>::empty().push(N::Span(match_expression.start, match_expression.end, Box::new(tree_NodeVariableIdentifier(match_expression.node)))) + trees_WithMetaDataNodePatternMatchExpressionClause(clauses),
        NodeFullExpression::ConstructorCall { identifier_name, argument_list, .. } => Seq::<N>::empty().push(N::Span(identifier_name.start, identifier_name.end, Box::new(tree_NodeMetaIdentifier(identifier_name.node)))) + trees_WithMetaDataNodeVariableIdentifier(argument_list),
        NodeFullExpression::TemplateFunction { expression, .. } => Seq::<N>::empty().push(N::Span((*expression).start, (*expression).end, Box::new(tree_NodeFullExpression((*expression).node)))),
        NodeFullExpression::TApp { identifier_name, type_arguments, .. } => Seq::<N>::empty().push(N::Span(identifier_name.start, identifier_name.end, Box::new(tree_NodeVariableIdentifier(identifier_name.node)))) + trees_WithMetaDataNodeTypeArgument(type_arguments),
    })
}
proof fn tree_is_NodeFullExpression(n: NodeFullExpression)
    ensures tree_NodeFullExpression(n) == N::Node(GN::NodeFullExpression(n), (match n {
        NodeFullExpression::LocalVariableDeclaration { expression, containing_expression, .. } => Seq::<N>::empty().push(N::Span((*expression).start, (*expression).end, Box::new(tree_NodeFullExpression((*expression).node)))).push(N::Span((*containing_expression).start, (*containing_expression).end, Box::new(tree_NodeFullExpression((*containing_expression).node)))),
        NodeFullExpression::FunctionDeclaration { expression, .. } => Seq::<N>::empty().push(N::Span((*expression).start, (*expression).end, Box::new(tree_NodeFullExpression((*expression).node)))),
        NodeFullExpression::FunctionCall { function_name, argument_list, .. } => Seq::<N>::empty().push(N::Span(function_name.start, function_name.end, Box::new(tree_NodeVariableIdentifier(function_name.node)))) + trees_WithMetaDataNodeVariableIdentifier(argument_list),
        NodeFullExpression::ExpressionAtomic(a0) => Seq::<N>::empty().push(N::Span((*a0).start, (*a0).end, Box::new(tree_NodeAtomicExpression((*a0).node)))),
        NodeFullExpression::ExpressionBuiltin { xs, .. } => Seq::<N>::empty().push(N::Span(xs.start, xs.end, Box::new(tree_NodeBuiltinArguments(xs.node)))),
        NodeFullExpression::Message(a0) => trees_WithMetaDataNodeMessageEntry(a0),
        NodeFullExpression::Match { match_expression, clauses, .. } => Seq::<N>::empty().push(N::Span(match_expression.start, match_expression.end, Box::new(tree_NodeVariableIdentifier(match_expression.node)))) + trees_WithMetaDataNodePatternMatchExpressionClause(clauses),
        NodeFullExpression::ConstructorCall { identifier_name, argument_list, .. } => Seq::<N>::empty().push(N::Span(identifier_name.start, identifier_name.end, Box::new(tree_NodeMetaIdentifier(identifier_name.node)))) + trees_WithMetaDataNodeVariableIdentifier(argument_list),
        NodeFullExpression::TemplateFunction { expression, .. } => Seq::<N>::empty().push(N::Span((*expression).start, (*expression).end, Box::new(tree_NodeFullExpression((*expression).node)))),
        NodeFullExpression::TApp { identifier_name, type_arguments, .. } => Seq::<N>::empty().push(N::Span(identifier_name.start, identifier_name.end, Box::new(tree_NodeVariableIdentifier(identifier_name.node)))) + trees_WithMetaDataNodeTypeArgument(type_arguments),
    }))
{ reveal_with_fuel(tree_NodeAtomicExpression, 1); reveal_with_fuel(tree_NodeBuiltinArguments, 1); reveal_with_fuel(tree_NodeFullExpression, 1); reveal_with_fuel(tree_NodeMetaIdentifier, 1); reveal_with_fuel(tree_NodeVariableIdentifier, 1); reveal_with_fuel(trees_WithMetaDataNodeMessageEntry, 1); reveal_with_fuel(trees_WithMetaDataNodePatternMatchExpressionClause, 1); reveal_with_fuel(trees_WithMetaDataNodeTypeArgument, 1); reveal_with_fuel(trees_WithMetaDataNodeVariableIdentifier, 1); }
#[verifier::opaque]
spec fn tree_NodeMessageEntry(n: NodeMessageEntry) -> N decreases n {
    N::Node(GN::NodeMessageEntry(n), match n {
        NodeMessageEntry::MessageLiteral(a0, a1) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeVariableIdentifier(a0.node)))).push(N::Span(a1.start, a1.end, Box::new(tree_NodeValueLiteral(a1.node)))),
        NodeMessageEntry::MessageVariable(a0, a1) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeVariableIdentifier(a0.node)))).push(N::Span(a1.start, a1.end, Box::new(tree_NodeVariableIdentifier(a1.node)))),
    })
}
proof fn tree_is_NodeMessageEntry(n: NodeMessageEntry)
    ensures tree_NodeMessageEntry(n) == N::Node(GN::NodeMessageEntry(n), (match n {
        NodeMessageEntry::MessageLiteral(a0, a1) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeVariableIdentifier(a0.node)))).push(N::Span(a1.start, a1.end, Box::new(tree_NodeValueLiteral(a1.node)))),
        NodeMessageEntry::MessageVariable(a0, a1) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeVariableIdentifier(a0.node)))).push(N::Span(a1.start, a1.end, Box::new(tree_NodeVariableIdentifier(a1.node)))),
    }))
{ reveal_with_fuel(tree_NodeMessageEntry, 1); reveal_with_fuel(tree_NodeValueLiteral, 1); reveal_with_fuel(tree_NodeVariableIdentifier, 1); }
#[verifier::opaque]
spec fn tree_NodePatternMatchExpressionClause(n: NodePatternMatchExpressionClause) -> N decreases n { N::Node(GN::NodePatternMatchExpressionClause(n), Seq::<N>::empty().push(N::Span(n.pattern.start, n.pattern.end, Box::new(tree_NodePattern(n.pattern.node)))).push(N::Span(n.expression.start, n.expression.end, Box::new(tree_NodeFullExpression(n.expression.node))))) }
proof fn tree_is_NodePatternMatchExpressionClause(n: NodePatternMatchExpressionClause)
    ensures tree_NodePatternMatchExpressionClause(n) == N::Node(GN::NodePatternMatchExpressionClause(n), Seq::<N>::empty().push(N::Span(n.pattern.start, n.pattern.end, Box::new(tree_NodePattern(n.pattern.node)))).push(N::Span(n.expression.start, n.expression.end, Box::new(tree_NodeFullExpression(n.expression.node)))))
{ reveal_with_fuel(tree_NodeFullExpression, 1); reveal_with_fuel(tree_NodePattern, 1); reveal_with_fuel(tree_NodePatternMatchExpressionClause, 1); }
#[verifier::opaque]
spec fn tree_NodeAtomicExpression(n: NodeAtomicExpression) -> N decreases n {
    N::Node(GN::NodeAtomicExpression(n), match n {
        NodeAtomicExpression::AtomicSid(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeVariableIdentifier(a0.node)))),
        NodeAtomicExpression::AtomicLit(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeValueLiteral(a0.node)))),
    })
}
proof fn tree_is_NodeAtomicExpression(n: NodeAtomicExpression)
    ensures tree_NodeAtomicExpression(n) == N::Node(GN::NodeAtomicExpression(n), (match n {
        NodeAtomicExpression::AtomicSid(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeVariableIdentifier(a0.node)))),
        NodeAtomicExpression::AtomicLit(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeValueLiteral(a0.node)))),
    }))
{ reveal_with_fuel(tree_NodeAtomicExpression, 1); reveal_with_fuel(tree_NodeValueLiteral, 1); reveal_with_fuel(tree_NodeVariableIdentifier, 1); }
#[verifier::opaque]
spec fn tree_NodeContractTypeArguments(n: NodeContractTypeArguments) -> N decreases n { N::Node(GN::NodeContractTypeArguments(n), trees_WithMetaDataNodeTypeArgument(n.type_arguments)) }
proof fn tree_is_NodeContractTypeArguments(n: NodeContractTypeArguments)
    ensures tree_NodeContractTypeArguments(n) == N::Node(GN::NodeContractTypeArguments(n), trees_WithMetaDataNodeTypeArgument(n.type_arguments))
{ reveal_with_fuel(tree_NodeContractTypeArguments, 1); reveal_with_fuel(trees_WithMetaDataNodeTypeArgument, 1); }
#[verifier::opaque]
spec fn tree_NodeValueLiteral(n: NodeValueLiteral) -> N decreases n {
    N::Node(GN::NodeValueLiteral(n), match n {
        NodeValueLiteral::LiteralInt(a0, _) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeNameIdentifier(a0.node)))),
        NodeValueLiteral::LiteralHex(_) => Seq::<N>::empty(),
        NodeValueLiteral::LiteralString(_) => Seq::<N>::empty(),
        NodeValueLiteral::LiteralEmptyMap(a0, a1) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeMapKey(a0.node)))).push(N::Span(a1.start, a1.end, Box::new(tree_NodeTypeMapValue(a1.node)))),
    })
}
proof fn tree_is_NodeValueLiteral(n: NodeValueLiteral)
    ensures tree_NodeValueLiteral(n) == N::Node(GN::NodeValueLiteral(n), (match n {
        NodeValueLiteral::LiteralInt(a0, _) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeNameIdentifier(a0.node)))),
        NodeValueLiteral::LiteralHex(_) => Seq::<N>::empty(),
        NodeValueLiteral::LiteralString(_) => Seq::<N>::empty(),
        NodeValueLiteral::LiteralEmptyMap(a0, a1) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeMapKey(a0.node)))).push(N::Span(a1.start, a1.end, Box::new(tree_NodeTypeMapValue(a1.node)))),
    }))
{ reveal_with_fuel(tree_NodeTypeMapKey, 1); reveal_with_fuel(tree_NodeTypeMapValue, 1); reveal_with_fuel(tree_NodeTypeNameIdentifier, 1); reveal_with_fuel(tree_NodeValueLiteral, 1); }
#[verifier::opaque]
spec fn tree_NodeMapAccess(n: NodeMapAccess) -> N decreases n { N::Node(GN::NodeMapAccess(n), Seq::<N>::empty().push(N::Span(n.identifier_name.start, n.identifier_name.end, Box::new(tree_NodeVariableIdentifier(n.identifier_name.node))))) }
proof fn tree_is_NodeMapAccess(n: NodeMapAccess)
    ensures tree_NodeMapAccess(n) == N::Node(GN::NodeMapAccess(n), Seq::<N>::empty().push(N::Span(n.identifier_name.start, n.identifier_name.end, Box::new(tree_NodeVariableIdentifier(n.identifier_name.node)))))
{ reveal_with_fuel(tree_NodeMapAccess, 1); reveal_with_fuel(tree_NodeVariableIdentifier, 1); }
#[verifier::opaque]
spec fn tree_NodePattern(n: NodePattern) -> N decreases n {
    N::Node(GN::NodePattern(n), match n {
        NodePattern::Wildcard => Seq::<N>::empty(),
        NodePattern::Binder(_) => Seq::<N>::empty(),
        NodePattern::Constructor(a0, a1) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeMetaIdentifier(a0.node)))) + trees_WithMetaDataNodeArgumentPattern(a1),
    })
}
proof fn tree_is_NodePattern(n: NodePattern)
    ensures tree_NodePattern(n) == N::Node(GN::NodePattern(n), (match n {
        NodePattern::Wildcard => Seq::<N>::empty(),
        NodePattern::Binder(_) => Seq::<N>::empty(),
        NodePattern::Constructor(a0, a1) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeMetaIdentifier(a0.node)))) + trees_WithMetaDataNodeArgumentPattern(a1),
    }))
{ reveal_with_fuel(tree_NodeMetaIdentifier, 1); reveal_with_fuel(tree_NodePattern, 1); reveal_with_fuel(trees_WithMetaDataNodeArgumentPattern, 1); }
#[verifier::opaque]
spec fn tree_NodeArgumentPattern(n: NodeArgumentPattern) -> N decreases n {
    N::Node(GN::NodeArgumentPattern(n), match n {
        NodeArgumentPattern::WildcardArgument => Seq::<N>::empty(),
        NodeArgumentPattern::BinderArgument(_) => Seq::<N>::empty(),
        NodeArgumentPattern::ConstructorArgument(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeMetaIdentifier(a0.node)))),
        NodeArgumentPattern::PatternArgument(a0) => Seq::<N>::empty().push(N::Span((*a0).start, (*a0).end, Box::new(tree_NodePattern((*a0).node)))),
    })
}
proof fn tree_is_NodeArgumentPattern(n: NodeArgumentPattern)
    ensures tree_NodeArgumentPattern(n) == N::Node(GN::NodeArgumentPattern(n), (match n {
        NodeArgumentPattern::WildcardArgument => Seq::<N>::empty(),
        NodeArgumentPattern::BinderArgument(_) => Seq::<N>::empty(),
        NodeArgumentPattern::ConstructorArgument(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeMetaIdentifier(a0.node)))),
        NodeArgumentPattern::PatternArgument(a0) => Seq::<N>::empty().push(N::Span((*a0).start, (*a0).end, Box::new(tree_NodePattern((*a0).node)))),
    }))
{ reveal_with_fuel(tree_NodeArgumentPattern, 1); reveal_with_fuel(tree_NodeMetaIdentifier, 1); reveal_with_fuel(tree_NodePattern, 1); }
#[verifier::opaque]
spec fn tree_NodePatternMatchClause(n: NodePatternMatchClause) -> N decreases n { N::Node(GN::NodePatternMatchClause(n), Seq::<N>::empty().push(N::Span((*n.pattern_expression).start, (*n.pattern_expression).end, Box::new(tree_NodePattern((*n.pattern_expression).node)))) + (match n.statement_block { Some(v) => Seq::<N>::empty().push(N::Span(v.start, v.end, Box::new(tree_NodeStatementBlock(v.node)))), None => Seq::<N>::empty() })) }
proof fn tree_is_NodePatternMatchClause(n: NodePatternMatchClause)
    ensures tree_NodePatternMatchClause(n) == N::Node(GN::NodePatternMatchClause(n), Seq::<N>::empty().push(N::Span((*n.pattern_expression).start, (*n.pattern_expression).end, Box::new(tree_NodePattern((*n.pattern_expression).node)))) + (match n.statement_block { Some(v) => Seq::<N>::empty().push(N::Span(v.start, v.end, Box::new(tree_NodeStatementBlock(v.node)))), None => Seq::<N>::empty() }))
{ reveal_with_fuel(tree_NodePattern, 1); reveal_with_fuel(tree_NodePatternMatchClause, 1); reveal_with_fuel(tree_NodeStatementBlock, 1); }
#[verifier::opaque]
spec fn tree_NodeBlockchainFetchArguments(n: NodeBlockchainFetchArguments) -> N decreases n { N::Node(GN::NodeBlockchainFetchArguments(n), trees_WithMetaDataNodeVariableIdentifier(n.arguments)) }
proof fn tree_is_NodeBlockchainFetchArguments(n: NodeBlockchainFetchArguments)
    ensures tree_NodeBlockchainFetchArguments(n) == N::Node(GN::NodeBlockchainFetchArguments(n), trees_WithMetaDataNodeVariableIdentifier(n.arguments))
{ reveal_with_fuel(tree_NodeBlockchainFetchArguments, 1); reveal_with_fuel(trees_WithMetaDataNodeVariableIdentifier, 1); }
#[verifier::opaque]
spec fn tree_NodeStatement(n: NodeStatement) -> N decreases n {
    N::Node(GN::NodeStatement(n), match n {
        NodeStatement::Load { right_hand_side, .. } => Seq::<N>::empty().push(N::Span(right_hand_side.start, right_hand_side.end, Box::new(tree_NodeVariableIdentifier(right_hand_side.node)))),
        NodeStatement::RemoteFetch(a0) => Seq::<N>::empty().push(tree_NodeRemoteFetchStatement((*a0))),
        NodeStatement::Store { right_hand_side, .. } => Seq::<N>::empty().push(N::Span(right_hand_side.start, right_hand_side.end, Box::new(tree_NodeVariableIdentifier(right_hand_side.node)))),
        NodeStatement::Bind { right_hand_side, .. } => Seq::<N>::empty().push(N::Span((*right_hand_side).start, (*right_hand_side).end, Box::new(tree_NodeFullExpression((*right_hand_side).node)))),
        NodeStatement::ReadFromBC { arguments, .. } => (match arguments { Some(v) => Seq::<N>::empty().push(tree_NodeBlockchainFetchArguments(v)), None => Seq::<N>::empty() }),
        NodeStatement::MapGet { keys, .. } => trees_WithMetaDataNodeMapAccess(keys),
        NodeStatement::MapGetExists { keys, .. } => trees_WithMetaDataNodeMapAccess(keys),
        NodeStatement::MapUpdate { keys, .. } => trees_WithMetaDataNodeMapAccess(keys),
        NodeStatement::MapUpdateDelete { keys, .. } => trees_WithMetaDataNodeMapAccess(keys),
        NodeStatement::Accept => Seq::<N>::empty(),
        NodeStatement::Send { identifier_name, .. } => Seq::<N>::empty().push(N::Span(identifier_name.start, identifier_name.end, Box::new(tree_NodeVariableIdentifier(identifier_name.node)))),
        NodeStatement::CreateEvnt { identifier_name, .. } => Seq::<N>::empty().push(N::Span(identifier_name.start, identifier_name.end, Box::new(tree_NodeVariableIdentifier(identifier_name.node)))),
        NodeStatement::Throw { error_variable, .. } => (match error_variable { Some(v) => Seq::<N>::empty().push(N::Span(v.start, v.end, Box::new(tree_NodeVariableIdentifier(v.node)))), None => Seq::<N>::empty() }),
        NodeStatement::MatchStmt { variable, clauses, .. } => Seq::<N>::empty().push(N::Span(variable.start, variable.end, Box::new(tree_NodeVariableIdentifier(variable.node)))) + trees_WithMetaDataNodePatternMatchClause(clauses),
        NodeStatement::CallProc { component_id, arguments, .. } => Seq::<N>::empty().push(N::Span(component_id.start, component_id.end, Box::new(tree_NodeComponentId(component_id.node)))) + trees_WithMetaDataNodeVariableIdentifier(arguments),
        NodeStatement::Iterate { identifier_name, component_id, .. } => Seq::<N>::empty().push(N::Span(identifier_name.start, identifier_name.end, Box::new(tree_NodeVariableIdentifier(identifier_name.node)))).push(N::Span(component_id.start, component_id.end, Box::new(tree_NodeComponentId(component_id.node)))),
    })
}
proof fn tree_is_NodeStatement(n: NodeStatement)
    ensures tree_NodeStatement(n) == N::Node(GN::NodeStatement(n), (match n {
        NodeStatement::Load { right_hand_side, .. } => Seq::<N>::empty().push(N::Span(right_hand_side.start, right_hand_side.end, Box::new(tree_NodeVariableIdentifier(right_hand_side.node)))),
        NodeStatement::RemoteFetch(a0) => Seq::<N>::empty().push(tree_NodeRemoteFetchStatement((*a0))),
        NodeStatement::Store { right_hand_side, .. } => Seq::<N>::empty().push(N::Span(right_hand_side.start, right_hand_side.end, Box::new(tree_NodeVariableIdentifier(right_hand_side.node)))),
        NodeStatement::Bind { right_hand_side, .. } => Seq::<N>::empty().push(N::Span((*right_hand_side).start, (*right_hand_side).end, Box::new(tree_NodeFullExpression((*right_hand_side).node)))),
        NodeStatement::ReadFromBC { arguments, .. } => (match arguments { Some(v) => Seq::<N>::empty().push(tree_NodeBlockchainFetchArguments(v)), None => Seq::<N>::empty() }),
        NodeStatement::MapGet { keys, .. } => trees_WithMetaDataNodeMapAccess(keys),
        NodeStatement::MapGetExists { keys, .. } => trees_WithMetaDataNodeMapAccess(keys),
        NodeStatement::MapUpdate { keys, .. } => trees_WithMetaDataNodeMapAccess(keys),
        NodeStatement::MapUpdateDelete { keys, .. } => trees_WithMetaDataNodeMapAccess(keys),
        NodeStatement::Accept => Seq::<N>::empty(),
        NodeStatement::Send { identifier_name, .. } => Seq::<N>::empty().push(N::Span(identifier_name.start, identifier_name.end, Box::new(tree_NodeVariableIdentifier(identifier_name.node)))),
        NodeStatement::CreateEvnt { identifier_name, .. } => Seq::<N>::empty().push(N::Span(identifier_name.start, identifier_name.end, Box::new(tree_NodeVariableIdentifier(identifier_name.node)))),
        NodeStatement::Throw { error_variable, .. } => (match error_variable { Some(v) => Seq::<N>::empty().push(N::Span(v.start, v.end, Box::new(tree_NodeVariableIdentifier(v.node)))), None => Seq::<N>::empty() }),
        NodeStatement::MatchStmt { variable, clauses, .. } => Seq::<N>::empty().push(N::Span(variable.start, variable.end, Box::new(tree_NodeVariableIdentifier(variable.node)))) + trees_WithMetaDataNodePatternMatchClause(clauses),
        NodeStatement::CallProc { component_id, arguments, .. } => Seq::<N>::empty().push(N::Span(component_id.start, component_id.end, Box::new(tree_NodeComponentId(component_id.node)))) + trees_WithMetaDataNodeVariableIdentifier(arguments),
        NodeStatement::Iterate { identifier_name, component_id, .. } => Seq::<N>::empty().push(N::Span(identifier_name.start, identifier_name.end, Box::new(tree_NodeVariableIdentifier(identifier_name.node)))).push(N::Span(component_id.start, component_id.end, Box::new(tree_NodeComponentId(component_id.node)))),
    }))
{ reveal_with_fuel(tree_NodeBlockchainFetchArguments, 1); reveal_with_fuel(tree_NodeComponentId, 1); reveal_with_fuel(tree_NodeFullExpression, 1); reveal_with_fuel(tree_NodeRemoteFetchStatement, 1); reveal_with_fuel(tree_NodeStatement, 1); reveal_with_fuel(tree_NodeVariableIdentifier, 1); reveal_with_fuel(trees_WithMetaDataNodeMapAccess, 1); reveal_with_fuel(trees_WithMetaDataNodePatternMatchClause, 1); reveal_with_fuel(trees_WithMetaDataNodeVariableIdentifier, 1); }
#[verifier::opaque]
spec fn tree_NodeRemoteFetchStatement(n: NodeRemoteFetchStatement) -> N decreases n {
    N::Node(GN::NodeRemoteFetchStatement(n), match n {
        NodeRemoteFetchStatement::ReadStateMutable(_, _, a2) => Seq::<N>::empty().push(N::Span(a2.start, a2.end, Box::new(tree_NodeVariableIdentifier(a2.node)))),
        NodeRemoteFetchStatement::ReadStateMutableSpecialId(_, _, _) => Seq::<N>::empty(),
        NodeRemoteFetchStatement::ReadStateMutableMapAccess(_, _, _, a3) => trees_WithMetaDataNodeMapAccess(a3),
        NodeRemoteFetchStatement::ReadStateMutableMapAccessExists(_, _, _, a3) => trees_WithMetaDataNodeMapAccess(a3),
        NodeRemoteFetchStatement::ReadStateMutableCastAddress(_, a1, a2) => Seq::<N>::empty().push(N::Span(a1.start, a1.end, Box::new(tree_NodeVariableIdentifier(a1.node)))).push(N::Span(a2.start, a2.end, Box::new(tree_NodeAddressType(a2.node)))),
    })
}
proof fn tree_is_NodeRemoteFetchStatement(n: NodeRemoteFetchStatement)
    ensures tree_NodeRemoteFetchStatement(n) == N::Node(GN::NodeRemoteFetchStatement(n), (match n {
        NodeRemoteFetchStatement::ReadStateMutable(_, _, a2) => Seq::<N>::empty().push(N::Span(a2.start, a2.end, Box::new(tree_NodeVariableIdentifier(a2.node)))),
        NodeRemoteFetchStatement::ReadStateMutableSpecialId(_, _, _) => Seq::<N>::empty(),
        NodeRemoteFetchStatement::ReadStateMutableMapAccess(_, _, _, a3) => trees_WithMetaDataNodeMapAccess(a3),
        NodeRemoteFetchStatement::ReadStateMutableMapAccessExists(_, _, _, a3) => trees_WithMetaDataNodeMapAccess(a3),
        NodeRemoteFetchStatement::ReadStateMutableCastAddress(_, a1, a2) => Seq::<N>::empty().push(N::Span(a1.start, a1.end, Box::new(tree_NodeVariableIdentifier(a1.node)))).push(N::Span(a2.start, a2.end, Box::new(tree_NodeAddressType(a2.node)))),
    }))
{ reveal_with_fuel(tree_NodeAddressType, 1); reveal_with_fuel(tree_NodeRemoteFetchStatement, 1); reveal_with_fuel(tree_NodeVariableIdentifier, 1); reveal_with_fuel(trees_WithMetaDataNodeMapAccess, 1); }
#[verifier::opaque]
spec fn tree_NodeComponentId(n: NodeComponentId) -> N decreases n {
    N::Node(GN::NodeComponentId(n), match n {
        NodeComponentId::WithTypeLikeName(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeNameIdentifier(a0.node)))),
        NodeComponentId::WithRegularId(_) => Seq::<N>::empty(),
    })
}
proof fn tree_is_NodeComponentId(n: NodeComponentId)
    ensures tree_NodeComponentId(n) == N::Node(GN::NodeComponentId(n), (match n {
        NodeComponentId::WithTypeLikeName(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeNameIdentifier(a0.node)))),
        NodeComponentId::WithRegularId(_) => Seq::<N>::empty(),
    }))
{ reveal_with_fuel(tree_NodeComponentId, 1); reveal_with_fuel(tree_NodeTypeNameIdentifier, 1); }
#[verifier::opaque]
spec fn tree_NodeComponentParameters(n: NodeComponentParameters) -> N decreases n { N::Node(GN::NodeComponentParameters(n), trees_WithMetaDataNodeParameterPair(n.parameters)) }
proof fn tree_is_NodeComponentParameters(n: NodeComponentParameters)
    ensures tree_NodeComponentParameters(n) == N::Node(GN::NodeComponentParameters(n), trees_WithMetaDataNodeParameterPair(n.parameters))
{ reveal_with_fuel(tree_NodeComponentParameters, 1); reveal_with_fuel(trees_WithMetaDataNodeParameterPair, 1); }
#[verifier::opaque]
spec fn tree_NodeParameterPair(n: NodeParameterPair) -> N decreases n { N::Node(GN::NodeParameterPair(n), Seq::<N>::empty().push(N::Span(n.identifier_with_type.start, n.identifier_with_type.end, Box::new(tree_NodeTypedIdentifier(n.identifier_with_type.node))))) }
proof fn tree_is_NodeParameterPair(n: NodeParameterPair)
    ensures tree_NodeParameterPair(n) == N::Node(GN::NodeParameterPair(n), Seq::<N>::empty().push(N::Span(n.identifier_with_type.start, n.identifier_with_type.end, Box::new(tree_NodeTypedIdentifier(n.identifier_with_type.node)))))
{ reveal_with_fuel(tree_NodeParameterPair, 1); reveal_with_fuel(tree_NodeTypedIdentifier, 1); }
#[verifier::opaque]
spec fn tree_NodeComponentBody(n: NodeComponentBody) -> N decreases n { N::Node(GN::NodeComponentBody(n), (match n.statement_block { Some(v) => Seq::<N>::empty().push(N::Span(v.start, v.end, Box::new(tree_NodeStatementBlock(v.node)))), None => Seq::<N>::empty() })) }
proof fn tree_is_NodeComponentBody(n: NodeComponentBody)
    ensures tree_NodeComponentBody(n) == N::Node(GN::NodeComponentBody(n), (match n.statement_block { Some(v) => Seq::<N>::empty().push(N::Span(v.start, v.end, Box::new(tree_NodeStatementBlock(v.node)))), None => Seq::<N>::empty() }))
{ reveal_with_fuel(tree_NodeComponentBody, 1); reveal_with_fuel(tree_NodeStatementBlock, 1); }
#[verifier::opaque]
spec fn tree_NodeStatementBlock(n: NodeStatementBlock) -> N decreases n { N::Node(GN::NodeStatementBlock(n), trees_NodeStatement(n.statements)) }
proof fn tree_is_NodeStatementBlock(n: NodeStatementBlock)
    ensures tree_NodeStatementBlock(n) == N::Node(GN::NodeStatementBlock(n), trees_NodeStatement(n.statements))
{ reveal_with_fuel(tree_NodeStatementBlock, 1); reveal_with_fuel(trees_NodeStatement, 1); }
#[verifier::opaque]
spec fn tree_NodeTypedIdentifier(n: NodeTypedIdentifier) -> N decreases n { N::Node(GN::NodeTypedIdentifier(n), Seq::<N>::empty().push(N::Span(n.annotation.start, n.annotation.end, Box::new(tree_NodeTypeAnnotation(n.annotation.node))))) }
proof fn tree_is_NodeTypedIdentifier(n: NodeTypedIdentifier)
    ensures tree_NodeTypedIdentifier(n) == N::Node(GN::NodeTypedIdentifier(n), Seq::<N>::empty().push(N::Span(n.annotation.start, n.annotation.end, Box::new(tree_NodeTypeAnnotation(n.annotation.node)))))
{ reveal_with_fuel(tree_NodeTypeAnnotation, 1); reveal_with_fuel(tree_NodeTypedIdentifier, 1); }
#[verifier::opaque]
spec fn tree_NodeTypeAnnotation(n: NodeTypeAnnotation) -> N decreases n { N::Node(GN::NodeTypeAnnotation(n), Seq::<N>::empty().push(N::Span(n.type_name.start, n.type_name.end, Box::new(tree_NodeScillaType(n.type_name.node))))) }
proof fn tree_is_NodeTypeAnnotation(n: NodeTypeAnnotation)
    ensures tree_NodeTypeAnnotation(n) == N::Node(GN::NodeTypeAnnotation(n), Seq::<N>::empty().push(N::Span(n.type_name.start, n.type_name.end, Box::new(tree_NodeScillaType(n.type_name.node)))))
{ reveal_with_fuel(tree_NodeScillaType, 1); reveal_with_fuel(tree_NodeTypeAnnotation, 1); }
#[verifier::opaque]
spec fn tree_NodeProgram(n: NodeProgram) -> N decreases n { N::Node(GN::NodeProgram(n), (match n.import_declarations { Some(v) => Seq::<N>::empty().push(N::Span(v.start, v.end, Box::new(tree_NodeImportDeclarations(v.node)))), None => Seq::<N>::empty() }) + (match n.library_definition { Some(v) => Seq::<N>::empty().push(N::Span(v.start, v.end, Box::new(tree_NodeLibraryDefinition(v.node)))), None => Seq::<N>::empty() }) + Seq::<N>::empty().push(N::Span(n.contract_definition.start, n.contract_definition.end, Box::new(tree_NodeContractDefinition(n.contract_definition.node))))) }
proof fn tree_is_NodeProgram(n: NodeProgram)
    ensures tree_NodeProgram(n) == N::Node(GN::NodeProgram(n), (match n.import_declarations { Some(v) => Seq::<N>::empty().push(N::Span(v.start, v.end, Box::new(tree_NodeImportDeclarations(v.node)))), None => Seq::<N>::empty() }) + (match n.library_definition { Some(v) => Seq::<N>::empty().push(N::Span(v.start, v.end, Box::new(tree_NodeLibraryDefinition(v.node)))), None => Seq::<N>::empty() }) + Seq::<N>::empty().push(N::Span(n.contract_definition.start, n.contract_definition.end, Box::new(tree_NodeContractDefinition(n.contract_definition.node)))))
{ reveal_with_fuel(tree_NodeContractDefinition, 1); reveal_with_fuel(tree_NodeImportDeclarations, 1); reveal_with_fuel(tree_NodeLibraryDefinition, 1); reveal_with_fuel(tree_NodeProgram, 1); }
#[verifier::opaque]
spec fn tree_NodeLibraryDefinition(n: NodeLibraryDefinition) -> N decreases n { N::Node(GN::NodeLibraryDefinition(n), trees_WithMetaDataNodeLibrarySingleDefinition(n.definitions)) }
proof fn tree_is_NodeLibraryDefinition(n: NodeLibraryDefinition)
    ensures tree_NodeLibraryDefinition(n) == N::Node(GN::NodeLibraryDefinition(n), trees_WithMetaDataNodeLibrarySingleDefinition(n.definitions))
{ reveal_with_fuel(tree_NodeLibraryDefinition, 1); reveal_with_fuel(trees_WithMetaDataNodeLibrarySingleDefinition, 1); }
#[verifier::opaque]
spec fn tree_NodeLibrarySingleDefinition(n: NodeLibrarySingleDefinition) -> N decreases n {
    N::Node(GN::NodeLibrarySingleDefinition(n), match n {
        NodeLibrarySingleDefinition::LetDefinition { expression, .. } => Seq::<N>::empty().push(N::Span(expression.start, expression.end, Box::new(tree_NodeFullExpression(expression.node)))),
        NodeLibrarySingleDefinition::TypeDefinition(a0, a1) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeNameIdentifier(a0.node)))) + (match a1 { Some(v) => trees_WithMetaDataNodeTypeAlternativeClause(v), None => Seq::<N>::empty() }),
    })
}
proof fn tree_is_NodeLibrarySingleDefinition(n: NodeLibrarySingleDefinition)
    ensures tree_NodeLibrarySingleDefinition(n) == N::Node(GN::NodeLibrarySingleDefinition(n), (match n {
        NodeLibrarySingleDefinition::LetDefinition { expression, .. } => Seq::<N>::empty().push(N::Span(expression.start, expression.end, Box::new(tree_NodeFullExpression(expression.node)))),
        NodeLibrarySingleDefinition::TypeDefinition(a0, a1) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeNameIdentifier(a0.node)))) + (match a1 { Some(v) => trees_WithMetaDataNodeTypeAlternativeClause(v), None => Seq::<N>::empty() }),
    }))
{ reveal_with_fuel(tree_NodeFullExpression, 1); reveal_with_fuel(tree_NodeLibrarySingleDefinition, 1); reveal_with_fuel(tree_NodeTypeNameIdentifier, 1); reveal_with_fuel(trees_WithMetaDataNodeTypeAlternativeClause, 1); }
#[verifier::opaque]
spec fn tree_NodeContractDefinition(n: NodeContractDefinition) -> N decreases n { N::Node(GN::NodeContractDefinition(n), Seq::<N>::empty().push(N::Span(n.parameters.start, n.parameters.end, Box::new(tree_NodeComponentParameters(n.parameters.node)))) + (match n.constraint { Some(v) => Seq::<N>::empty().push(N::Span(v.start, v.end, Box::new(tree_NodeWithConstraint(v.node)))), None => Seq::<N>::empty() }) + trees_WithMetaDataNodeContractField(n.fields) + trees_WithMetaDataNodeComponentDefinition(n.components)) }
proof fn tree_is_NodeContractDefinition(n: NodeContractDefinition)
    ensures tree_NodeContractDefinition(n) == N::Node(GN::NodeContractDefinition(n), Seq::<N>::empty().push(N::Span(n.parameters.start, n.parameters.end, Box::new(tree_NodeComponentParameters(n.parameters.node)))) + (match n.constraint { Some(v) => Seq::<N>::empty().push(N::Span(v.start, v.end, Box::new(tree_NodeWithConstraint(v.node)))), None => Seq::<N>::empty() }) + trees_WithMetaDataNodeContractField(n.fields) + trees_WithMetaDataNodeComponentDefinition(n.components))
{ reveal_with_fuel(tree_NodeComponentParameters, 1); reveal_with_fuel(tree_NodeContractDefinition, 1); reveal_with_fuel(tree_NodeWithConstraint, 1); reveal_with_fuel(trees_WithMetaDataNodeComponentDefinition, 1); reveal_with_fuel(trees_WithMetaDataNodeContractField, 1); }
#[verifier::opaque]
spec fn tree_NodeContractField(n: NodeContractField) -> N decreases n { N::Node(GN::NodeContractField(n), Seq::<N>::empty().push(N::Span(n.typed_identifier.start, n.typed_identifier.end, Box::new(tree_NodeTypedIdentifier(n.typed_identifier.node)))).push(N::Span(n.right_hand_side.start, n.right_hand_side.end, Box::new(tree_NodeFullExpression(n.right_hand_side.node))))) }
proof fn tree_is_NodeContractField(n: NodeContractField)
    ensures tree_NodeContractField(n) == N::Node(GN::NodeContractField(n), Seq::<N>::empty().push(N::Span(n.typed_identifier.start, n.typed_identifier.end, Box::new(tree_NodeTypedIdentifier(n.typed_identifier.node)))).push(N::Span(n.right_hand_side.start, n.right_hand_side.end, Box::new(tree_NodeFullExpression(n.right_hand_side.node)))))
{ reveal_with_fuel(tree_NodeContractField, 1); reveal_with_fuel(tree_NodeFullExpression, 1); reveal_with_fuel(tree_NodeTypedIdentifier, 1); }
#[verifier::opaque]
spec fn tree_NodeWithConstraint(n: NodeWithConstraint) -> N decreases n { N::Node(GN::NodeWithConstraint(n), Seq::<N>::empty().push(N::Span((*n.expression).start, (*n.expression).end, Box::new(tree_NodeFullExpression((*n.expression).node))))) }
proof fn tree_is_NodeWithConstraint(n: NodeWithConstraint)
    ensures tree_NodeWithConstraint(n) == N::Node(GN::NodeWithConstraint(n), Seq::<N>::empty().push(N::Span((*n.expression).start, (*n.expression).end, Box::new(tree_NodeFullExpression((*n.expression).node)))))
{ reveal_with_fuel(tree_NodeFullExpression, 1); reveal_with_fuel(tree_NodeWithConstraint, 1); }
#[verifier::opaque]
spec fn tree_NodeComponentDefinition(n: NodeComponentDefinition) -> N decreases n {
    N::Node(GN::NodeComponentDefinition(n), match n {
        NodeComponentDefinition::TransitionComponent(a0) => Seq::<N>::empty().push(N::Span((*a0).start, (*a0).end, Box::new(tree_NodeTransitionDefinition((*a0).node)))),
        NodeComponentDefinition::ProcedureComponent(a0) => Seq::<N>::empty().push(N::Span((*a0).start, (*a0).end, Box::new(tree_NodeProcedureDefinition((*a0).node)))),
    })
}
proof fn tree_is_NodeComponentDefinition(n: NodeComponentDefinition)
    ensures tree_NodeComponentDefinition(n) == N::Node(GN::NodeComponentDefinition(n), (match n {
        NodeComponentDefinition::TransitionComponent(a0) => Seq::<N>::empty().push(N::Span((*a0).start, (*a0).end, Box::new(tree_NodeTransitionDefinition((*a0).node)))),
        NodeComponentDefinition::ProcedureComponent(a0) => Seq::<N>::empty().push(N::Span((*a0).start, (*a0).end, Box::new(tree_NodeProcedureDefinition((*a0).node)))),
    }))
{ reveal_with_fuel(tree_NodeComponentDefinition, 1); reveal_with_fuel(tree_NodeProcedureDefinition, 1); reveal_with_fuel(tree_NodeTransitionDefinition, 1); }
#[verifier::opaque]
spec fn tree_NodeProcedureDefinition(n: NodeProcedureDefinition) -> N decreases n { N::Node(GN::NodeProcedureDefinition(n), Seq::<N>::empty().push(N::Span(n.name.start, n.name.end, Box::new(tree_NodeComponentId(n.name.node)))).push(N::Span(n.parameters.start, n.parameters.end, Box::new(tree_NodeComponentParameters(n.parameters.node)))).push(N::Span(n.body.start, n.body.end, Box::new(tree_NodeComponentBody(n.body.node))))) }
proof fn tree_is_NodeProcedureDefinition(n: NodeProcedureDefinition)
    ensures tree_NodeProcedureDefinition(n) == N::Node(GN::NodeProcedureDefinition(n), Seq::<N>::empty().push(N::Span(n.name.start, n.name.end, Box::new(tree_NodeComponentId(n.name.node)))).push(N::Span(n.parameters.start, n.parameters.end, Box::new(tree_NodeComponentParameters(n.parameters.node)))).push(N::Span(n.body.start, n.body.end, Box::new(tree_NodeComponentBody(n.body.node)))))
{ reveal_with_fuel(tree_NodeComponentBody, 1); reveal_with_fuel(tree_NodeComponentId, 1); reveal_with_fuel(tree_NodeComponentParameters, 1); reveal_with_fuel(tree_NodeProcedureDefinition, 1); }
#[verifier::opaque]
spec fn tree_NodeTransitionDefinition(n: NodeTransitionDefinition) -> N decreases n { N::Node(GN::NodeTransitionDefinition(n), Seq::<N>::empty().push(N::Span(n.name.start, n.name.end, Box::new(tree_NodeComponentId(n.name.node)))).push(N::Span(n.parameters.start, n.parameters.end, Box::new(tree_NodeComponentParameters(n.parameters.node)))).push(N::Span(n.body.start, n.body.end, Box::new(tree_NodeComponentBody(n.body.node))))) }
proof fn tree_is_NodeTransitionDefinition(n: NodeTransitionDefinition)
    ensures tree_NodeTransitionDefinition(n) == N::Node(GN::NodeTransitionDefinition(n), Seq::<N>::empty().push(N::Span(n.name.start, n.name.end, Box::new(tree_NodeComponentId(n.name.node)))).push(N::Span(n.parameters.start, n.parameters.end, Box::new(tree_NodeComponentParameters(n.parameters.node)))).push(N::Span(n.body.start, n.body.end, Box::new(tree_NodeComponentBody(n.body.node)))))
{ reveal_with_fuel(tree_NodeComponentBody, 1); reveal_with_fuel(tree_NodeComponentId, 1); reveal_with_fuel(tree_NodeComponentParameters, 1); reveal_with_fuel(tree_NodeTransitionDefinition, 1); }
#[verifier::opaque]
spec fn tree_NodeTypeAlternativeClause(n: NodeTypeAlternativeClause) -> N decreases n {
    N::Node(GN::NodeTypeAlternativeClause(n), match n {
        NodeTypeAlternativeClause::ClauseType(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeNameIdentifier(a0.node)))),
        NodeTypeAlternativeClause::ClauseTypeWithArgs(a0, a1) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeNameIdentifier(a0.node)))) + trees_WithMetaDataNodeTypeArgument(a1),
    })
}
proof fn tree_is_NodeTypeAlternativeClause(n: NodeTypeAlternativeClause)
    ensures tree_NodeTypeAlternativeClause(n) == N::Node(GN::NodeTypeAlternativeClause(n), (match n {
        NodeTypeAlternativeClause::ClauseType(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeNameIdentifier(a0.node)))),
        NodeTypeAlternativeClause::ClauseTypeWithArgs(a0, a1) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeNameIdentifier(a0.node)))) + trees_WithMetaDataNodeTypeArgument(a1),
    }))
{ reveal_with_fuel(tree_NodeTypeAlternativeClause, 1); reveal_with_fuel(tree_NodeTypeNameIdentifier, 1); reveal_with_fuel(trees_WithMetaDataNodeTypeArgument, 1); }
#[verifier::opaque]
spec fn tree_NodeTypeMapValueArguments(n: NodeTypeMapValueArguments) -> N decreases n {
    N::Node(GN::NodeTypeMapValueArguments(n), match n {
        NodeTypeMapValueArguments::EnclosedTypeMapValue(a0) => Seq::<N>::empty().push(N::Span((*a0).start, (*a0).end, Box::new(tree_NodeTypeMapValueAllowingTypeArguments((*a0).node)))),
        NodeTypeMapValueArguments::GenericMapValueArgument(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeMetaIdentifier(a0.node)))),
        NodeTypeMapValueArguments::MapKeyValueType(a0, a1) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeMapKey(a0.node)))).push(N::Span(a1.start, a1.end, Box::new(tree_NodeTypeMapValue(a1.node)))),
    })
}
proof fn tree_is_NodeTypeMapValueArguments(n: NodeTypeMapValueArguments)
    ensures tree_NodeTypeMapValueArguments(n) == N::Node(GN::NodeTypeMapValueArguments(n), (match n {
        NodeTypeMapValueArguments::EnclosedTypeMapValue(a0) => Seq::<N>::empty().push(N::Span((*a0).start, (*a0).end, Box::new(tree_NodeTypeMapValueAllowingTypeArguments((*a0).node)))),
        NodeTypeMapValueArguments::GenericMapValueArgument(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeMetaIdentifier(a0.node)))),
        NodeTypeMapValueArguments::MapKeyValueType(a0, a1) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeMapKey(a0.node)))).push(N::Span(a1.start, a1.end, Box::new(tree_NodeTypeMapValue(a1.node)))),
    }))
{ reveal_with_fuel(tree_NodeMetaIdentifier, 1); reveal_with_fuel(tree_NodeTypeMapKey, 1); reveal_with_fuel(tree_NodeTypeMapValue, 1); reveal_with_fuel(tree_NodeTypeMapValueAllowingTypeArguments, 1); reveal_with_fuel(tree_NodeTypeMapValueArguments, 1); }
#[verifier::opaque]
spec fn tree_NodeTypeMapValueAllowingTypeArguments(n: NodeTypeMapValueAllowingTypeArguments) -> N decreases n {
    N::Node(GN::NodeTypeMapValueAllowingTypeArguments(n), match n {
        NodeTypeMapValueAllowingTypeArguments::TypeMapValueNoArgs(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeMapValue(a0.node)))),
        NodeTypeMapValueAllowingTypeArguments::TypeMapValueWithArgs(a0, a1) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeMetaIdentifier(a0.node)))) + trees_WithMetaDataNodeTypeMapValueArguments(a1),
    })
}
proof fn tree_is_NodeTypeMapValueAllowingTypeArguments(n: NodeTypeMapValueAllowingTypeArguments)
    ensures tree_NodeTypeMapValueAllowingTypeArguments(n) == N::Node(GN::NodeTypeMapValueAllowingTypeArguments(n), (match n {
        NodeTypeMapValueAllowingTypeArguments::TypeMapValueNoArgs(a0) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeTypeMapValue(a0.node)))),
        NodeTypeMapValueAllowingTypeArguments::TypeMapValueWithArgs(a0, a1) => Seq::<N>::empty().push(N::Span(a0.start, a0.end, Box::new(tree_NodeMetaIdentifier(a0.node)))) + trees_WithMetaDataNodeTypeMapValueArguments(a1),
    }))
{ reveal_with_fuel(tree_NodeMetaIdentifier, 1); reveal_with_fuel(tree_NodeTypeMapValue, 1); reveal_with_fuel(tree_NodeTypeMapValueAllowingTypeArguments, 1); reveal_with_fuel(trees_WithMetaDataNodeTypeMapValueArguments, 1); }
trait VxTrees { spec fn trees(&self) -> Seq<N>; }
#[verifier::opaque]
spec fn trees_NodeStatement(v: Vec<NodeStatement>) -> Seq<N> decreases v { Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { tree_NodeStatement(v@[i]) } else { arbitrary() }) }
broadcast proof fn trees_are_NodeStatement(v: Vec<NodeStatement>)
    ensures (#[trigger] trees_NodeStatement(v)).len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] trees_NodeStatement(v)[i] == tree_NodeStatement(v@[i])
{ reveal_with_fuel(tree_NodeStatement, 1); reveal_with_fuel(trees_NodeStatement, 1); }
impl VxTrees for Vec<NodeStatement> { spec fn trees(&self) -> Seq<N> { trees_NodeStatement(*self) } }
#[verifier::opaque]
spec fn trees_WithMetaDataNodeAddressTypeField(v: Vec<WithMetaData<NodeAddressTypeField>>) -> Seq<N> decreases v { Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { N::Span(v@[i].start, v@[i].end, Box::new(tree_NodeAddressTypeField(v@[i].node))) } else { arbitrary() }) }
broadcast proof fn trees_are_WithMetaDataNodeAddressTypeField(v: Vec<WithMetaData<NodeAddressTypeField>>)
    ensures (#[trigger] trees_WithMetaDataNodeAddressTypeField(v)).len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] trees_WithMetaDataNodeAddressTypeField(v)[i] == N::Span(v@[i].start, v@[i].end, Box::new(tree_NodeAddressTypeField(v@[i].node)))
{ reveal_with_fuel(tree_NodeAddressTypeField, 1); reveal_with_fuel(trees_WithMetaDataNodeAddressTypeField, 1); }
impl VxTrees for Vec<WithMetaData<NodeAddressTypeField>> { spec fn trees(&self) -> Seq<N> { trees_WithMetaDataNodeAddressTypeField(*self) } }
#[verifier::opaque]
spec fn trees_WithMetaDataNodeArgumentPattern(v: Vec<WithMetaData<NodeArgumentPattern>>) -> Seq<N> decreases v { Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { N::Span(v@[i].start, v@[i].end, Box::new(tree_NodeArgumentPattern(v@[i].node))) } else { arbitrary() }) }
broadcast proof fn trees_are_WithMetaDataNodeArgumentPattern(v: Vec<WithMetaData<NodeArgumentPattern>>)
    ensures (#[trigger] trees_WithMetaDataNodeArgumentPattern(v)).len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] trees_WithMetaDataNodeArgumentPattern(v)[i] == N::Span(v@[i].start, v@[i].end, Box::new(tree_NodeArgumentPattern(v@[i].node)))
{ reveal_with_fuel(tree_NodeArgumentPattern, 1); reveal_with_fuel(trees_WithMetaDataNodeArgumentPattern, 1); }
impl VxTrees for Vec<WithMetaData<NodeArgumentPattern>> { spec fn trees(&self) -> Seq<N> { trees_WithMetaDataNodeArgumentPattern(*self) } }
#[verifier::opaque]
spec fn trees_WithMetaDataNodeComponentDefinition(v: Vec<WithMetaData<NodeComponentDefinition>>) -> Seq<N> decreases v { Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { N::Span(v@[i].start, v@[i].end, Box::new(tree_NodeComponentDefinition(v@[i].node))) } else { arbitrary() }) }
broadcast proof fn trees_are_WithMetaDataNodeComponentDefinition(v: Vec<WithMetaData<NodeComponentDefinition>>)
    ensures (#[trigger] trees_WithMetaDataNodeComponentDefinition(v)).len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] trees_WithMetaDataNodeComponentDefinition(v)[i] == N::Span(v@[i].start, v@[i].end, Box::new(tree_NodeComponentDefinition(v@[i].node)))
{ reveal_with_fuel(tree_NodeComponentDefinition, 1); reveal_with_fuel(trees_WithMetaDataNodeComponentDefinition, 1); }
impl VxTrees for Vec<WithMetaData<NodeComponentDefinition>> { spec fn trees(&self) -> Seq<N> { trees_WithMetaDataNodeComponentDefinition(*self) } }
#[verifier::opaque]
spec fn trees_WithMetaDataNodeContractField(v: Vec<WithMetaData<NodeContractField>>) -> Seq<N> decreases v { Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { N::Span(v@[i].start, v@[i].end, Box::new(tree_NodeContractField(v@[i].node))) } else { arbitrary() }) }
broadcast proof fn trees_are_WithMetaDataNodeContractField(v: Vec<WithMetaData<NodeContractField>>)
    ensures (#[trigger] trees_WithMetaDataNodeContractField(v)).len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] trees_WithMetaDataNodeContractField(v)[i] == N::Span(v@[i].start, v@[i].end, Box::new(tree_NodeContractField(v@[i].node)))
{ reveal_with_fuel(tree_NodeContractField, 1); reveal_with_fuel(trees_WithMetaDataNodeContractField, 1); }
impl VxTrees for Vec<WithMetaData<NodeContractField>> { spec fn trees(&self) -> Seq<N> { trees_WithMetaDataNodeContractField(*self) } }
#[verifier::opaque]
spec fn trees_WithMetaDataNodeImportedName(v: Vec<WithMetaData<NodeImportedName>>) -> Seq<N> decreases v { Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { N::Span(v@[i].start, v@[i].end, Box::new(tree_NodeImportedName(v@[i].node))) } else { arbitrary() }) }
broadcast proof fn trees_are_WithMetaDataNodeImportedName(v: Vec<WithMetaData<NodeImportedName>>)
    ensures (#[trigger] trees_WithMetaDataNodeImportedName(v)).len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] trees_WithMetaDataNodeImportedName(v)[i] == N::Span(v@[i].start, v@[i].end, Box::new(tree_NodeImportedName(v@[i].node)))
{ reveal_with_fuel(tree_NodeImportedName, 1); reveal_with_fuel(trees_WithMetaDataNodeImportedName, 1); }
impl VxTrees for Vec<WithMetaData<NodeImportedName>> { spec fn trees(&self) -> Seq<N> { trees_WithMetaDataNodeImportedName(*self) } }
#[verifier::opaque]
spec fn trees_WithMetaDataNodeLibrarySingleDefinition(v: Vec<WithMetaData<NodeLibrarySingleDefinition>>) -> Seq<N> decreases v { Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { N::Span(v@[i].start, v@[i].end, Box::new(tree_NodeLibrarySingleDefinition(v@[i].node))) } else { arbitrary() }) }
broadcast proof fn trees_are_WithMetaDataNodeLibrarySingleDefinition(v: Vec<WithMetaData<NodeLibrarySingleDefinition>>)
    ensures (#[trigger] trees_WithMetaDataNodeLibrarySingleDefinition(v)).len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] trees_WithMetaDataNodeLibrarySingleDefinition(v)[i] == N::Span(v@[i].start, v@[i].end, Box::new(tree_NodeLibrarySingleDefinition(v@[i].node)))
{ reveal_with_fuel(tree_NodeLibrarySingleDefinition, 1); reveal_with_fuel(trees_WithMetaDataNodeLibrarySingleDefinition, 1); }
impl VxTrees for Vec<WithMetaData<NodeLibrarySingleDefinition>> { spec fn trees(&self) -> Seq<N> { trees_WithMetaDataNodeLibrarySingleDefinition(*self) } }
#[verifier::opaque]
spec fn trees_WithMetaDataNodeMapAccess(v: Vec<WithMetaData<NodeMapAccess>>) -> Seq<N> decreases v { Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { N::Span(v@[i].start, v@[i].end, Box::new(tree_NodeMapAccess(v@[i].node))) } else { arbitrary() }) }
broadcast proof fn trees_are_WithMetaDataNodeMapAccess(v: Vec<WithMetaData<NodeMapAccess>>)
    ensures (#[trigger] trees_WithMetaDataNodeMapAccess(v)).len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] trees_WithMetaDataNodeMapAccess(v)[i] == N::Span(v@[i].start, v@[i].end, Box::new(tree_NodeMapAccess(v@[i].node)))
{ reveal_with_fuel(tree_NodeMapAccess, 1); reveal_with_fuel(trees_WithMetaDataNodeMapAccess, 1); }
impl VxTrees for Vec<WithMetaData<NodeMapAccess>> { spec fn trees(&self) -> Seq<N> { trees_WithMetaDataNodeMapAccess(*self) } }
#[verifier::opaque]
spec fn trees_WithMetaDataNodeMessageEntry(v: Vec<WithMetaData<NodeMessageEntry>>) -> Seq<N> decreases v { Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { N::Span(v@[i].start, v@[i].end, Box::new(tree_NodeMessageEntry(v@[i].node))) } else { arbitrary() }) }
broadcast proof fn trees_are_WithMetaDataNodeMessageEntry(v: Vec<WithMetaData<NodeMessageEntry>>)
    ensures (#[trigger] trees_WithMetaDataNodeMessageEntry(v)).len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] trees_WithMetaDataNodeMessageEntry(v)[i] == N::Span(v@[i].start, v@[i].end, Box::new(tree_NodeMessageEntry(v@[i].node)))
{ reveal_with_fuel(tree_NodeMessageEntry, 1); reveal_with_fuel(trees_WithMetaDataNodeMessageEntry, 1); }
impl VxTrees for Vec<WithMetaData<NodeMessageEntry>> { spec fn trees(&self) -> Seq<N> { trees_WithMetaDataNodeMessageEntry(*self) } }
#[verifier::opaque]
spec fn trees_WithMetaDataNodeParameterPair(v: Vec<WithMetaData<NodeParameterPair>>) -> Seq<N> decreases v { Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { N::Span(v@[i].start, v@[i].end, Box::new(tree_NodeParameterPair(v@[i].node))) } else { arbitrary() }) }
broadcast proof fn trees_are_WithMetaDataNodeParameterPair(v: Vec<WithMetaData<NodeParameterPair>>)
    ensures (#[trigger] trees_WithMetaDataNodeParameterPair(v)).len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] trees_WithMetaDataNodeParameterPair(v)[i] == N::Span(v@[i].start, v@[i].end, Box::new(tree_NodeParameterPair(v@[i].node)))
{ reveal_with_fuel(tree_NodeParameterPair, 1); reveal_with_fuel(trees_WithMetaDataNodeParameterPair, 1); }
impl VxTrees for Vec<WithMetaData<NodeParameterPair>> { spec fn trees(&self) -> Seq<N> { trees_WithMetaDataNodeParameterPair(*self) } }
#[verifier::opaque]
spec fn trees_WithMetaDataNodePatternMatchClause(v: Vec<WithMetaData<NodePatternMatchClause>>) -> Seq<N> decreases v { Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { N::Span(v@[i].start, v@[i].end, Box::new(tree_NodePatternMatchClause(v@[i].node))) } else { arbitrary() }) }
broadcast proof fn trees_are_WithMetaDataNodePatternMatchClause(v: Vec<WithMetaData<NodePatternMatchClause>>)
    ensures (#[trigger] trees_WithMetaDataNodePatternMatchClause(v)).len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] trees_WithMetaDataNodePatternMatchClause(v)[i] == N::Span(v@[i].start, v@[i].end, Box::new(tree_NodePatternMatchClause(v@[i].node)))
{ reveal_with_fuel(tree_NodePatternMatchClause, 1); reveal_with_fuel(trees_WithMetaDataNodePatternMatchClause, 1); }
impl VxTrees for Vec<WithMetaData<NodePatternMatchClause>> { spec fn trees(&self) -> Seq<N> { trees_WithMetaDataNodePatternMatchClause(*self) } }
#[verifier::opaque]
spec fn trees_WithMetaDataNodePatternMatchExpressionClause(v: Vec<WithMetaData<NodePatternMatchExpressionClause>>) -> Seq<N> decreases v { Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { N::Span(v@[i].start, v@[i].end, Box::new(tree_NodePatternMatchExpressionClause(v@[i].node))) } else { arbitrary() }) }
broadcast proof fn trees_are_WithMetaDataNodePatternMatchExpressionClause(v: Vec<WithMetaData<NodePatternMatchExpressionClause>>)
    ensures (#[trigger] trees_WithMetaDataNodePatternMatchExpressionClause(v)).len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] trees_WithMetaDataNodePatternMatchExpressionClause(v)[i] == N::Span(v@[i].start, v@[i].end, Box::new(tree_NodePatternMatchExpressionClause(v@[i].node)))
{ reveal_with_fuel(tree_NodePatternMatchExpressionClause, 1); reveal_with_fuel(trees_WithMetaDataNodePatternMatchExpressionClause, 1); }
impl VxTrees for Vec<WithMetaData<NodePatternMatchExpressionClause>> { spec fn trees(&self) -> Seq<N> { trees_WithMetaDataNodePatternMatchExpressionClause(*self) } }
#[verifier::opaque]
spec fn trees_WithMetaDataNodeTypeAlternativeClause(v: Vec<WithMetaData<NodeTypeAlternativeClause>>) -> Seq<N> decreases v { Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { N::Span(v@[i].start, v@[i].end, Box::new(tree_NodeTypeAlternativeClause(v@[i].node))) } else { arbitrary() }) }
broadcast proof fn trees_are_WithMetaDataNodeTypeAlternativeClause(v: Vec<WithMetaData<NodeTypeAlternativeClause>>)
    ensures (#[trigger] trees_WithMetaDataNodeTypeAlternativeClause(v)).len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] trees_WithMetaDataNodeTypeAlternativeClause(v)[i] == N::Span(v@[i].start, v@[i].end, Box::new(tree_NodeTypeAlternativeClause(v@[i].node)))
{ reveal_with_fuel(tree_NodeTypeAlternativeClause, 1); reveal_with_fuel(trees_WithMetaDataNodeTypeAlternativeClause, 1); }
impl VxTrees for Vec<WithMetaData<NodeTypeAlternativeClause>> { spec fn trees(&self) -> Seq<N> { trees_WithMetaDataNodeTypeAlternativeClause(*self) } }
#[verifier::opaque]
spec fn trees_WithMetaDataNodeTypeArgument(v: Vec<WithMetaData<NodeTypeArgument>>) -> Seq<N> decreases v { Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { N::Span(v@[i].start, v@[i].end, Box::new(tree_NodeTypeArgument(v@[i].node))) } else { arbitrary() }) }
broadcast proof fn trees_are_WithMetaDataNodeTypeArgument(v: Vec<WithMetaData<NodeTypeArgument>>)
    ensures (#[trigger] trees_WithMetaDataNodeTypeArgument(v)).len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] trees_WithMetaDataNodeTypeArgument(v)[i] == N::Span(v@[i].start, v@[i].end, Box::new(tree_NodeTypeArgument(v@[i].node)))
{ reveal_with_fuel(tree_NodeTypeArgument, 1); reveal_with_fuel(trees_WithMetaDataNodeTypeArgument, 1); }
impl VxTrees for Vec<WithMetaData<NodeTypeArgument>> { spec fn trees(&self) -> Seq<N> { trees_WithMetaDataNodeTypeArgument(*self) } }
#[verifier::opaque]
spec fn trees_WithMetaDataNodeTypeMapValueArguments(v: Vec<WithMetaData<NodeTypeMapValueArguments>>) -> Seq<N> decreases v { Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { N::Span(v@[i].start, v@[i].end, Box::new(tree_NodeTypeMapValueArguments(v@[i].node))) } else { arbitrary() }) }
broadcast proof fn trees_are_WithMetaDataNodeTypeMapValueArguments(v: Vec<WithMetaData<NodeTypeMapValueArguments>>)
    ensures (#[trigger] trees_WithMetaDataNodeTypeMapValueArguments(v)).len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] trees_WithMetaDataNodeTypeMapValueArguments(v)[i] == N::Span(v@[i].start, v@[i].end, Box::new(tree_NodeTypeMapValueArguments(v@[i].node)))
{ reveal_with_fuel(tree_NodeTypeMapValueArguments, 1); reveal_with_fuel(trees_WithMetaDataNodeTypeMapValueArguments, 1); }
impl VxTrees for Vec<WithMetaData<NodeTypeMapValueArguments>> { spec fn trees(&self) -> Seq<N> { trees_WithMetaDataNodeTypeMapValueArguments(*self) } }
#[verifier::opaque]
spec fn trees_WithMetaDataNodeVariableIdentifier(v: Vec<WithMetaData<NodeVariableIdentifier>>) -> Seq<N> decreases v { Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { N::Span(v@[i].start, v@[i].end, Box::new(tree_NodeVariableIdentifier(v@[i].node))) } else { arbitrary() }) }
broadcast proof fn trees_are_WithMetaDataNodeVariableIdentifier(v: Vec<WithMetaData<NodeVariableIdentifier>>)
    ensures (#[trigger] trees_WithMetaDataNodeVariableIdentifier(v)).len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] trees_WithMetaDataNodeVariableIdentifier(v)[i] == N::Span(v@[i].start, v@[i].end, Box::new(tree_NodeVariableIdentifier(v@[i].node)))
{ reveal_with_fuel(tree_NodeVariableIdentifier, 1); reveal_with_fuel(trees_WithMetaDataNodeVariableIdentifier, 1); }
impl VxTrees for Vec<WithMetaData<NodeVariableIdentifier>> { spec fn trees(&self) -> Seq<N> { trees_WithMetaDataNodeVariableIdentifier(*self) } }

// A derived Clone gives an equal value.
trait VxClone: Sized {
    fn vx_clone(&self) -> (r: Self) ensures r == *self;
}
impl<T> VxClone for T {
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: Self) { unimplemented!() }
}
// ---- a converter that answers as it likes: the visits see nothing of it but its answers ----
#[verifier::external_body]
struct VxEm { x: u8 }
impl VxEm {
    uninterp spec fn gs(&self) -> GS;
    #[verifier::external_body]
    fn push_source_position(&mut self, start: &SourcePosition, end: &SourcePosition)
        ensures final(self).gs() == said(old(self).gs(), Ev::Push(*start, *end))
    { unimplemented!() }
    #[verifier::external_body]
    fn pop_source_position(&mut self)
        ensures final(self).gs() == said(old(self).gs(), Ev::Pop)
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_byte_str(&mut self, mode: TreeTraversalMode, node: &NodeByteStr) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeByteStr(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_type_name_identifier(&mut self, mode: TreeTraversalMode, node: &NodeTypeNameIdentifier) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeTypeNameIdentifier(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_imported_name(&mut self, mode: TreeTraversalMode, node: &NodeImportedName) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeImportedName(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_import_declarations(&mut self, mode: TreeTraversalMode, node: &NodeImportDeclarations) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeImportDeclarations(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_meta_identifier(&mut self, mode: TreeTraversalMode, node: &NodeMetaIdentifier) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeMetaIdentifier(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_variable_identifier(&mut self, mode: TreeTraversalMode, node: &NodeVariableIdentifier) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeVariableIdentifier(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_builtin_arguments(&mut self, mode: TreeTraversalMode, node: &NodeBuiltinArguments) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeBuiltinArguments(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_type_map_key(&mut self, mode: TreeTraversalMode, node: &NodeTypeMapKey) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeTypeMapKey(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_type_map_value(&mut self, mode: TreeTraversalMode, node: &NodeTypeMapValue) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeTypeMapValue(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_type_argument(&mut self, mode: TreeTraversalMode, node: &NodeTypeArgument) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeTypeArgument(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_scilla_type(&mut self, mode: TreeTraversalMode, node: &NodeScillaType) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeScillaType(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_type_map_entry(&mut self, mode: TreeTraversalMode, node: &NodeTypeMapEntry) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeTypeMapEntry(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_address_type_field(&mut self, mode: TreeTraversalMode, node: &NodeAddressTypeField) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeAddressTypeField(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_address_type(&mut self, mode: TreeTraversalMode, node: &NodeAddressType) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeAddressType(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_full_expression(&mut self, mode: TreeTraversalMode, node: &NodeFullExpression) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeFullExpression(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_message_entry(&mut self, mode: TreeTraversalMode, node: &NodeMessageEntry) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeMessageEntry(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_pattern_match_expression_clause(&mut self, mode: TreeTraversalMode, node: &NodePatternMatchExpressionClause) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodePatternMatchExpressionClause(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_atomic_expression(&mut self, mode: TreeTraversalMode, node: &NodeAtomicExpression) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeAtomicExpression(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_contract_type_arguments(&mut self, mode: TreeTraversalMode, node: &NodeContractTypeArguments) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeContractTypeArguments(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_value_literal(&mut self, mode: TreeTraversalMode, node: &NodeValueLiteral) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeValueLiteral(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_map_access(&mut self, mode: TreeTraversalMode, node: &NodeMapAccess) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeMapAccess(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_pattern(&mut self, mode: TreeTraversalMode, node: &NodePattern) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodePattern(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_argument_pattern(&mut self, mode: TreeTraversalMode, node: &NodeArgumentPattern) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeArgumentPattern(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_pattern_match_clause(&mut self, mode: TreeTraversalMode, node: &NodePatternMatchClause) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodePatternMatchClause(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_blockchain_fetch_arguments(&mut self, mode: TreeTraversalMode, node: &NodeBlockchainFetchArguments) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeBlockchainFetchArguments(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_statement(&mut self, mode: TreeTraversalMode, node: &NodeStatement) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeStatement(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_remote_fetch_statement(&mut self, mode: TreeTraversalMode, node: &NodeRemoteFetchStatement) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeRemoteFetchStatement(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_component_id(&mut self, mode: TreeTraversalMode, node: &NodeComponentId) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeComponentId(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_component_parameters(&mut self, mode: TreeTraversalMode, node: &NodeComponentParameters) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeComponentParameters(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_parameter_pair(&mut self, mode: TreeTraversalMode, node: &NodeParameterPair) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeParameterPair(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_component_body(&mut self, mode: TreeTraversalMode, node: &NodeComponentBody) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeComponentBody(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_statement_block(&mut self, mode: TreeTraversalMode, node: &NodeStatementBlock) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeStatementBlock(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_typed_identifier(&mut self, mode: TreeTraversalMode, node: &NodeTypedIdentifier) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeTypedIdentifier(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_type_annotation(&mut self, mode: TreeTraversalMode, node: &NodeTypeAnnotation) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeTypeAnnotation(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_program(&mut self, mode: TreeTraversalMode, node: &NodeProgram) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeProgram(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_library_definition(&mut self, mode: TreeTraversalMode, node: &NodeLibraryDefinition) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeLibraryDefinition(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_library_single_definition(&mut self, mode: TreeTraversalMode, node: &NodeLibrarySingleDefinition) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeLibrarySingleDefinition(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_contract_definition(&mut self, mode: TreeTraversalMode, node: &NodeContractDefinition) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeContractDefinition(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_contract_field(&mut self, mode: TreeTraversalMode, node: &NodeContractField) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeContractField(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_with_constraint(&mut self, mode: TreeTraversalMode, node: &NodeWithConstraint) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeWithConstraint(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_component_definition(&mut self, mode: TreeTraversalMode, node: &NodeComponentDefinition) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeComponentDefinition(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_procedure_definition(&mut self, mode: TreeTraversalMode, node: &NodeProcedureDefinition) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeProcedureDefinition(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_transition_definition(&mut self, mode: TreeTraversalMode, node: &NodeTransitionDefinition) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeTransitionDefinition(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_type_alternative_clause(&mut self, mode: TreeTraversalMode, node: &NodeTypeAlternativeClause) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeTypeAlternativeClause(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_type_map_value_arguments(&mut self, mode: TreeTraversalMode, node: &NodeTypeMapValueArguments) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeTypeMapValueArguments(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
    #[verifier::external_body]
    fn emit_type_map_value_allowing_type_arguments(&mut self, mode: TreeTraversalMode, node: &NodeTypeMapValueAllowingTypeArguments) -> (r: Result<TraversalResult, String>)
        ensures final(self).gs() == said(old(self).gs(), Ev::Cb(GN::NodeTypeMapValueAllowingTypeArguments(*node), mode is Enter)), answers(r, mode is Enter, answer(old(self).gs()))
    { unimplemented!() }
}
// A leave call is answered with Continue or an error.
spec fn answers(r: Result<TraversalResult, String>, enter: bool, a: Ans) -> bool {
    match a {
        Ans::Fail(m) => r is Err && r->Err_0@ == m,
        Ans::Skip => r == Ok::<TraversalResult, String>(if enter { TraversalResult::SkipChildren } else { TraversalResult::Continue }),
        Ans::Continue => r == Ok::<TraversalResult, String>(TraversalResult::Continue),
    }
}
spec fn outcome(r: Result<TraversalResult, String>) -> Res {
    match r { Ok(_) => Res::Ok, Err(m) => Res::Fail(m@) }
}
spec fn res_of(r: Result<TraversalResult, String>, g: GS, p: (Res, GS)) -> bool {
    &&& p.1 == g
    &&& match r { Ok(x) => x is Continue && p.0 is Ok, Err(m) => p.0 == Res::Fail(m@) }
}
broadcast group vx_facts {
    vstd::std_specs::vec::axiom_spec_len,
    run_node, run_span, run_empty, run_none, run_push, run_add,
    trees_are_NodeStatement, trees_are_WithMetaDataNodeAddressTypeField, trees_are_WithMetaDataNodeArgumentPattern, trees_are_WithMetaDataNodeComponentDefinition, trees_are_WithMetaDataNodeContractField, trees_are_WithMetaDataNodeImportedName, trees_are_WithMetaDataNodeLibrarySingleDefinition, trees_are_WithMetaDataNodeMapAccess, trees_are_WithMetaDataNodeMessageEntry, trees_are_WithMetaDataNodeParameterPair, trees_are_WithMetaDataNodePatternMatchClause, trees_are_WithMetaDataNodePatternMatchExpressionClause, trees_are_WithMetaDataNodeTypeAlternativeClause, trees_are_WithMetaDataNodeTypeArgument, trees_are_WithMetaDataNodeTypeMapValueArguments, trees_are_WithMetaDataNodeVariableIdentifier,
}
==== loops ::visit
---- enter
let ghost __g$k = $1.gs();
---- for
run_list($it.trees(), $i as nat, __g$k) == (Res::Ok, $1.gs()),
---- body
proof { run_step($it.trees(), $i as nat, __g$k); }
==== fn NodeByteStr::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeByteStr(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeByteStr(*self); }
==== fn NodeTypeNameIdentifier::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeTypeNameIdentifier(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeTypeNameIdentifier(*self); }
==== fn WithMetaData<NodeTypeNameIdentifier>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeTypeNameIdentifier(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeImportedName::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeImportedName(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeImportedName(*self); }
==== fn WithMetaData<NodeImportedName>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeImportedName(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeImportDeclarations::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeImportDeclarations(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeImportDeclarations(*self); }
==== fn WithMetaData<NodeImportDeclarations>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeImportDeclarations(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeMetaIdentifier::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeMetaIdentifier(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeMetaIdentifier(*self); }
==== fn WithMetaData<NodeMetaIdentifier>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeMetaIdentifier(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeVariableIdentifier::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeVariableIdentifier(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeVariableIdentifier(*self); }
==== fn WithMetaData<NodeVariableIdentifier>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeVariableIdentifier(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeBuiltinArguments::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeBuiltinArguments(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeBuiltinArguments(*self); }
==== fn WithMetaData<NodeBuiltinArguments>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeBuiltinArguments(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeTypeMapKey::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeTypeMapKey(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeTypeMapKey(*self); }
==== fn WithMetaData<NodeTypeMapKey>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeTypeMapKey(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeTypeMapValue::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeTypeMapValue(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeTypeMapValue(*self); }
==== fn WithMetaData<NodeTypeMapValue>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeTypeMapValue(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeTypeArgument::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeTypeArgument(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeTypeArgument(*self); }
==== fn WithMetaData<NodeTypeArgument>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeTypeArgument(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeScillaType::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeScillaType(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeScillaType(*self); }
==== fn WithMetaData<NodeScillaType>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeScillaType(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeTypeMapEntry::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeTypeMapEntry(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeTypeMapEntry(*self); }
==== fn WithMetaData<NodeTypeMapEntry>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeTypeMapEntry(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeAddressTypeField::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeAddressTypeField(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeAddressTypeField(*self); }
==== fn WithMetaData<NodeAddressTypeField>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeAddressTypeField(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeAddressType::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeAddressType(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeAddressType(*self); }
==== fn WithMetaData<NodeAddressType>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeAddressType(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeFullExpression::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeFullExpression(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeFullExpression(*self); }
==== fn WithMetaData<NodeFullExpression>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeFullExpression(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeMessageEntry::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeMessageEntry(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeMessageEntry(*self); }
==== fn WithMetaData<NodeMessageEntry>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeMessageEntry(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodePatternMatchExpressionClause::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodePatternMatchExpressionClause(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodePatternMatchExpressionClause(*self); }
==== fn WithMetaData<NodePatternMatchExpressionClause>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodePatternMatchExpressionClause(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeAtomicExpression::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeAtomicExpression(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeAtomicExpression(*self); }
==== fn WithMetaData<NodeAtomicExpression>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeAtomicExpression(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeContractTypeArguments::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeContractTypeArguments(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeContractTypeArguments(*self); }
==== fn WithMetaData<NodeContractTypeArguments>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeContractTypeArguments(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeValueLiteral::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeValueLiteral(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeValueLiteral(*self); }
==== fn WithMetaData<NodeValueLiteral>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeValueLiteral(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeMapAccess::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeMapAccess(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeMapAccess(*self); }
==== fn WithMetaData<NodeMapAccess>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeMapAccess(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodePattern::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodePattern(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodePattern(*self); }
==== fn WithMetaData<NodePattern>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodePattern(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeArgumentPattern::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeArgumentPattern(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeArgumentPattern(*self); }
==== fn WithMetaData<NodeArgumentPattern>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeArgumentPattern(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodePatternMatchClause::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodePatternMatchClause(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodePatternMatchClause(*self); }
==== fn WithMetaData<NodePatternMatchClause>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodePatternMatchClause(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeBlockchainFetchArguments::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeBlockchainFetchArguments(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeBlockchainFetchArguments(*self); }
==== fn NodeStatement::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeStatement(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeStatement(*self); }
==== fn NodeRemoteFetchStatement::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeRemoteFetchStatement(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeRemoteFetchStatement(*self); }
==== fn NodeComponentId::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeComponentId(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeComponentId(*self); }
==== fn WithMetaData<NodeComponentId>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeComponentId(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeComponentParameters::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeComponentParameters(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeComponentParameters(*self); }
==== fn WithMetaData<NodeComponentParameters>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeComponentParameters(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeParameterPair::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeParameterPair(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeParameterPair(*self); }
==== fn WithMetaData<NodeParameterPair>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeParameterPair(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeComponentBody::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeComponentBody(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeComponentBody(*self); }
==== fn WithMetaData<NodeComponentBody>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeComponentBody(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeStatementBlock::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeStatementBlock(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeStatementBlock(*self); }
==== fn WithMetaData<NodeStatementBlock>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeStatementBlock(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeTypedIdentifier::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeTypedIdentifier(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeTypedIdentifier(*self); }
==== fn WithMetaData<NodeTypedIdentifier>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeTypedIdentifier(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeTypeAnnotation::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeTypeAnnotation(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeTypeAnnotation(*self); }
==== fn WithMetaData<NodeTypeAnnotation>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeTypeAnnotation(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeProgram::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeProgram(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeProgram(*self); }
==== fn NodeLibraryDefinition::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeLibraryDefinition(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeLibraryDefinition(*self); }
==== fn WithMetaData<NodeLibraryDefinition>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeLibraryDefinition(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeLibrarySingleDefinition::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeLibrarySingleDefinition(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeLibrarySingleDefinition(*self); }
==== fn WithMetaData<NodeLibrarySingleDefinition>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeLibrarySingleDefinition(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeContractDefinition::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeContractDefinition(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeContractDefinition(*self); }
==== fn WithMetaData<NodeContractDefinition>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeContractDefinition(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeContractField::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeContractField(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeContractField(*self); }
==== fn WithMetaData<NodeContractField>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeContractField(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeWithConstraint::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeWithConstraint(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeWithConstraint(*self); }
==== fn WithMetaData<NodeWithConstraint>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeWithConstraint(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeComponentDefinition::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeComponentDefinition(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeComponentDefinition(*self); }
==== fn WithMetaData<NodeComponentDefinition>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeComponentDefinition(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeProcedureDefinition::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeProcedureDefinition(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeProcedureDefinition(*self); }
==== fn WithMetaData<NodeProcedureDefinition>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeProcedureDefinition(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeTransitionDefinition::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeTransitionDefinition(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeTransitionDefinition(*self); }
==== fn WithMetaData<NodeTransitionDefinition>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeTransitionDefinition(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeTypeAlternativeClause::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeTypeAlternativeClause(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeTypeAlternativeClause(*self); }
==== fn WithMetaData<NodeTypeAlternativeClause>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeTypeAlternativeClause(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeTypeMapValueArguments::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeTypeMapValueArguments(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeTypeMapValueArguments(*self); }
==== fn WithMetaData<NodeTypeMapValueArguments>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeTypeMapValueArguments(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== fn NodeTypeMapValueAllowingTypeArguments::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(tree_NodeTypeMapValueAllowingTypeArguments(*self), old($1).gs())),
    decreases *self, 0nat,
---- entry
proof { tree_is_NodeTypeMapValueAllowingTypeArguments(*self); }
==== fn WithMetaData<NodeTypeMapValueAllowingTypeArguments>::visit
props C10 C11
    ensures res_of(vx_r, final($1).gs(), run(N::Span(self.start, self.end, Box::new(tree_NodeTypeMapValueAllowingTypeArguments(self.node))), old($1).gs())),
    decreases *self, 1nat,
==== add NodeTypeMapValueAllowingTypeArguments::visit
---- attr
#[verifier::allow_complex_invariants]
---- for:0
invariant_except_break
    run_list(__it0.trees(), __i0 as nat, __g0) == (Res::Ok, $1.gs()) && $m0 == Ok::<TraversalResult, String>(TraversalResult::Continue),
@@
ensures
    res_of($m0, $1.gs(), run_all(__it0.trees(), __g0)),
