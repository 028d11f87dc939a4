#!/usr/bin/env python3
"""Author's tool: writes contracts/gram.vx out of contracts/gram.doc and the node types of /repo
(their field lists as they were when the contracts were written; the committed gram.vx is what the
checks use)."""
import os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NODES = open(os.path.join(os.environ.get("REPO", "/repo"), "src/ast/nodes.rs")).read()
out = []
w = out.append

# ---------------------------------------------------------------- the documented grammar
class Alt: pass
nts = []          # (name, type, [Alt])
for line in open(os.path.join(H, "contracts/gram.doc")):
    line = line.rstrip()
    if not line or line.startswith("#"):
        continue
    if line.startswith("nt "):
        n, t = line[3:].split(" : ")
        nts.append((n.strip(), t.strip(), []))
        continue
    assert line.startswith("| "), line
    a = Alt()
    body = line[2:]
    pat, syms = re.split(r" : ", body, maxsplit=1) if " : %" not in body else body.split(" : ", 1)
    pat = pat.strip()
    a.cond = None
    if " if " in pat:
        pat, a.cond = pat.split(" if ", 1)
    a.pat = pat.strip()
    a.syms = []
    if syms.startswith("%imports"):
        a.imports = syms.split()[1:]
        x = syms[len("%imports"):].strip()
        m = re.match(r"(\S+) (.*)", x)
        a.imports = (m.group(1), m.group(2))
    else:
        a.imports = None
        i = 0
        s = syms
        while s:
            s = s.lstrip()
            m = re.match(r"<(\w+)([?*+]?) ([^>]*)>", s)
            if m and not (m.group(2) == "*" and False):
                a.syms.append(("nt", m.group(1), m.group(2), m.group(3).strip()))
                s = s[m.end():]
                continue
            m = re.match(r"(\w+)\(([^ ]*)\)(?= |$)", s)
            if m:
                a.syms.append(("tok", m.group(1), m.group(2)))
                s = s[m.end():]
                continue
            m = re.match(r"\w+", s)
            assert m, line
            a.syms.append(("tok", m.group(0), None))
            s = s[m.end():]
    nts[-1][2].append(a)
TY = {n: t for n, t, _ in nts}

# same-range dependencies: ranks
def alts(n):
    return next(a for m, t, a in nts if m == n)
deps = {}
def node(kind, n): return (kind, n)
for n, t, al in nts:
    d = set()
    for a in al:
        if a.imports:
            d.add(node("list", "ImportedName"))
            continue
        for i, s in enumerate(a.syms):
            rest = a.syms[:i] + a.syms[i + 1:]
            if s[0] == "nt" and all(r[0] == "nt" and r[2] in ("?", "*") for r in rest):
                d.add(node({"": "nt", "?": "opt", "*": "list", "+": "list"}[s[2]], s[1]))
    deps[node("nt", n)] = d
    deps[node("opt", n)] = {node("nt", n)}
    deps[node("list", n)] = {node("opt", n)}
rank = {}
def visit(x, path=()):
    assert x not in path, path + (x,)
    if x in rank: return rank[x]
    r = 0
    for y in deps[x]:
        r = max(r, visit(y, path + (x,)) + 1)
    rank[x] = r
    return r
for x in deps: visit(x)

def ofs(n):
    """how many tokens a value's own text starts after the nonterminal's"""
    ks = set()
    for a in alts(n):
        if a.pat == "=":
            k = 0
            while a.syms[k][0] == "tok": k += 1
            assert len(a.syms) == k + 1
            ks.add(k)
        else:
            ks.add(0)
    assert len(ks) == 1, n
    return ks.pop()

def tokcond(tok, pay, at):
    if pay is None:
        return "t[%s].tok == Token::<Seq<char>>::%s" % (at, tok)
    return "t[%s].tok == Token::<Seq<char>>::%s(%s)" % (at, tok, pay)

def chain(syms, sem):
    """the formula: t[lo..hi] is these symbols. `sem(sym, a, b)` gives the formula of a nonterminal"""
    # boundaries: variables around nonterminals, offsets within runs of tokens
    vs, conds, trig = [], [], []
    base, off = "lo", 0
    for i, s in enumerate(syms):
        last = i == len(syms) - 1
        if s[0] == "tok":
            conds.append(("tok", s, base, off))
            off += 1
            continue
        if off:
            v = "s%d" % i
            vs.append(v)
            conds.append(("eq", v, base, off))
            base, off = v, 0
        if last:
            e = "hi"
        else:
            e = "e%d" % i
            vs.append(e)
        null = s[0] == "nt" and s[2] in ("?", "*")
        conds.append(("rng", base, e, null))
        f = sem(s, base, e)
        m = "r_%s%s(%s, %s)" % (s[1], {"": "", "?": "_opt", "*": "_list", "+": "_list"}[s[2]], base, e)
        conds.append(("f", "%s && %s" % (m, f)))
        trig.append(m)
        base, off = e, 0
    at = lambda b, o: b if o == 0 else "%s + %d" % (b, o)
    if base != "hi" or off:
        conds.append(("end", base, off))
    # ranges first, so that everything after is inside [lo, hi]
    fs = []
    for c in conds:
        if c[0] == "eq": fs.append("%s == %s" % (c[1], at(c[2], c[3])))
        elif c[0] == "end": fs.append("hi == %s" % at(c[1], c[2]))
        elif c[0] == "rng": fs.append("%s %s %s" % (c[1], "<=" if c[3] else "<", c[2]))
    if vs:
        for v in vs: fs.append("lo <= %s <= hi" % v)
    for c in conds:
        if c[0] == "tok": fs.append(tokcond(c[1][1], c[1][2], at(c[2], c[3])))
    for c in conds:
        if c[0] == "f": fs.append(c[1])
    f = " && ".join(fs)
    if not vs: return "(" + f + ")"
    # every bound variable is an end of a nonterminal's range
    return "(exists|%s| #![trigger %s] %s)" % (", ".join("%s: int" % v for v in vs), ", ".join(trig), f)

def sem_sym(s, a, b):
    _, n, q, v = s
    if q == "": return "sem_%s(t, %s, %s, %s)" % (n, v, a, b)
    if q == "?": return "sem_%s_opt(t, %s, %s, %s)" % (n, v, a, b)
    return "sem_%s_list(t, %s, %s.len() as int, %s, %s)" % (n, seqof(v), seqof(v), a, b)
def seqof(v):
    return v if v.startswith("tail(") else ("%s@" % v if not v.endswith("@") else v)
def doc_sym(s, a, b):
    _, n, q, v = s
    return "doc_%s%s(t, %s, %s)" % (n, {"": "", "?": "_opt", "*": "_star", "+": "_plus"}[q], a, b)

w("==== prelude")
w("// Written by tools/gen_gram.py out of contracts/gram.doc.")
w("""// A token as the lexer yields it, with the text of a token that has one.
ghost struct PTok { start: SourcePosition, tok: Token<Seq<char>>, end: SourcePosition }
type Toks = Seq<PTok>;
spec fn le(p: SourcePosition, q: SourcePosition) -> bool { p.position <= q.position }
// Tokens lie one after the other (unit lex proves it of the lexer's).
spec fn ordered(t: Toks) -> bool {
    forall|i: int, j: int| 0 <= i < j < t.len() ==> le((#[trigger] t[i]).end, (#[trigger] t[j]).start)
}
// What LALRPOP gives for @L and @R between the tokens b - 1 and b.
spec fn is_left(t: Toks, b: int, p: SourcePosition) -> bool { 0 <= b < t.len() ==> p == t[b].start }
spec fn is_right(t: Toks, b: int, p: SourcePosition) -> bool { 0 < b <= t.len() ==> p == t[b - 1].end }
spec fn tail<T>(s: Seq<T>) -> Seq<T> { s.subrange(1, s.len() as int) }
broadcast proof fn lemma_tail<T>(a: Seq<T>, s: Seq<T>)
    requires a.len() == 1,
    ensures #[trigger] tail(a + s) == s,
{ assert(tail(a + s) =~= s); }
""")
for n, t, al in nts:
    for a in al:
        a.f = None
    fs = []
    for a in al:
        if a.imports:
            fs.append("{ let %s = v.node; r_imports(lo, hi) && sem_imports(t, %s, %s, lo, hi) }" % (a.pat, a.imports[0], a.imports[1]))
            continue
        f = chain(a.syms, sem_sym)
        if a.cond: f = "(%s) && %s" % (a.cond, f)
        if a.pat == "=":
            fs.append("(%s)" % f)
        else:
            node_e = "v.node" if t.startswith("WithMetaData") else "v"
            if re.fullmatch(r"[a-z]\w*", a.pat):
                # a binder
                fs.append("({ let %s = %s; %s })" % (a.pat, node_e, f))
            else:
                fs.append("(match %s { %s => %s, _ => false })" % (node_e, a.pat, f))
    b = "    0 <= lo < hi <= t.len() && (\n        %s\n    )" % "\n        || ".join(fs)
    w("#[verifier::opaque]\nspec fn sem_%s(t: Toks, v: %s, lo: int, hi: int) -> bool\n    decreases hi - lo, %dnat\n{\n%s\n}" % (n, t, rank[("nt", n)], b))
    w("broadcast proof fn i_sem_%s(t: Toks, v: %s, lo: int, hi: int)\n    requires\n%s,\n    ensures #[trigger] sem_%s(t, v, lo, hi),\n{ %s }" % (n, t, b, n, " ".join("reveal(%s);" % x for x in sorted({"sem_" + n} | set(re.findall(r"sem_[A-Z]\w*", b))) if not x.endswith(("_opt", "_list")))))
    w("spec fn sem_%s_opt(t: Toks, v: Option<%s>, lo: int, hi: int) -> bool\n    decreases hi - lo, %dnat\n{ match v { None => lo == hi, Some(x) => r_%s(lo, hi) && sem_%s(t, x, lo, hi) } }" % (n, t, rank[("opt", n)], n, n))
    w("""// the first n of them
spec fn sem_%s_list(t: Toks, v: Seq<%s>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, %dnat
{
    lo <= hi && if n <= 0 { lo == hi } else { exists|m: int| #[trigger] r_%s(m, hi) && lo <= m < hi && sem_%s_list(t, v, n - 1, lo, m) && sem_%s(t, v[n - 1], m, hi) }
}""" % (n, t, rank[("list", n)], n, n, n))
    for q in ("", "_opt", "_list"): w("spec fn r_%s%s(lo: int, hi: int) -> bool { true }" % (n, q))
w("""// The first n names of a run of import declarations.
spec fn r_imports(lo: int, hi: int) -> bool { true }
spec fn sem_imports(t: Toks, v: Seq<WithMetaData<NodeImportedName>>, n: int, lo: int, hi: int) -> bool
    decreases hi - lo, %dnat
{
    0 <= lo < hi <= t.len() && n >= 1 && (
        (t[lo].tok == Token::<Seq<char>>::Import && sem_ImportedName_list(t, v, n, lo + 1, hi))
        || (exists|m: int, k: int| #![trigger r_imports(lo, m), r_ImportedName(k, hi)]
            lo < m < hi && k == m + 1 && k < hi && r_imports(lo, m) && r_ImportedName(k, hi) && sem_imports(t, v, n - 1, lo, m) && t[m].tok == Token::<Seq<char>>::Import && sem_ImportedName(t, v[n - 1], k, hi))
    )
}
broadcast proof fn lemma_list_push(t: Toks, v: Seq<WithMetaData<NodeImportedName>>, x: WithMetaData<NodeImportedName>, n: int, lo: int, hi: int)
    requires n <= v.len(), #[trigger] sem_ImportedName_list(t, v, n, lo, hi),
    ensures sem_ImportedName_list(t, (#[trigger] v.push(x)), n, lo, hi),
    decreases n,
{
    if n > 0 {
        let m = choose|m: int| #[trigger] r_ImportedName(m, hi) && lo <= m < hi && sem_ImportedName_list(t, v, n - 1, lo, m) && sem_ImportedName(t, v[n - 1], m, hi);
        lemma_list_push(t, v, x, n - 1, lo, m);
        assert(v.push(x)[n - 1] == v[n - 1]);
    }
}
broadcast proof fn lemma_imports_push(t: Toks, v: Seq<WithMetaData<NodeImportedName>>, x: WithMetaData<NodeImportedName>, n: int, lo: int, hi: int)
    requires n <= v.len(), #[trigger] sem_imports(t, v, n, lo, hi),
    ensures sem_imports(t, (#[trigger] v.push(x)), n, lo, hi),
    decreases hi - lo,
{
    if t[lo].tok == Token::<Seq<char>>::Import && sem_ImportedName_list(t, v, n, lo + 1, hi) {
        lemma_list_push(t, v, x, n, lo + 1, hi);
    } else {
        let (m, k) = choose|m: int, k: int| #![trigger r_imports(lo, m), r_ImportedName(k, hi)]
            lo < m < hi && k == m + 1 && k < hi && r_imports(lo, m) && r_ImportedName(k, hi) && sem_imports(t, v, n - 1, lo, m) && t[m].tok == Token::<Seq<char>>::Import && sem_ImportedName(t, v[n - 1], k, hi);
        lemma_imports_push(t, v, x, n - 1, lo, m);
        assert(v.push(x)[n - 1] == v[n - 1]);
    }
}""" % (rank[("nt", "ImportDeclarations")] - 0))

# ---------------------------------------------------------------- positions
src = re.sub(r"//[^\n]*", "", NODES)
src = re.sub(r"#\[[^\]]*\]", "", src)
types = {}
def split_top(s, sep=","):
    r, d, c = [], 0, ""
    for ch in s:
        if ch in "<({[": d += 1
        if ch in ">)}]": d -= 1
        if ch == sep and d == 0:
            r.append(c); c = ""
        else: c += ch
    if c.strip(): r.append(c)
    return [x.strip() for x in r if x.strip()]
def block(s, i):
    d = 0
    for j in range(i, len(s)):
        if s[j] == "{": d += 1
        if s[j] == "}":
            d -= 1
            if d == 0: return s[i + 1:j]
for m in re.finditer(r"pub (struct|enum) (\w+)(<T>)? \{", src):
    b = block(src, m.end() - 1)
    if m.group(2) == "WithMetaData": continue
    if m.group(1) == "struct":
        fl = [tuple(x.strip() for x in re.sub(r"\bpub ", "", f).split(":", 1)) for f in split_top(b)]
        types[m.group(2)] = ("struct", fl)
    else:
        vs = []
        for v in split_top(b):
            mm = re.match(r"(\w+)\s*(\((.*)\)|\{(.*)\})?$", v, re.S)
            if mm.group(3) is not None: vs.append((mm.group(1), "(", split_top(mm.group(3))))
            elif mm.group(4) is not None: vs.append((mm.group(1), "{", [tuple(x.strip() for x in f.split(":", 1)) for f in split_top(mm.group(4))]))
            else: vs.append((mm.group(1), "", []))
        types[m.group(2)] = ("enum", vs)
norm = lambda t: re.sub(r"\s+|,(?=\s*>)", "", t)
used = set()
uid = [0]
def pred(e, ty):
    """every positioned node of e : ty lies in [a, b)"""
    ty = norm(ty)
    m = re.fullmatch(r"(\w+)<(.*)>", ty)
    uid[0] += 1
    k = uid[0]
    if m and m.group(1) == "WithMetaData":
        return "(exists|x: int, y: int| #[trigger] mk(x, y) && a <= x < y <= b && %s)" % pos(m.group(2), e, "x", "y")
    if m and m.group(1) == "Box": return pred("(*%s)" % e, m.group(2))
    if m and m.group(1) == "Option":
        p = pred("z%d" % k, m.group(2))
        return "(match %s { Some(z%d) => %s, None => true })" % (e, k, p)
    if m and m.group(1) == "Vec":
        return vec_pred("%s@" % e, m.group(2), k)
    if ty == "String": return None
    assert ty in types, ty
    return "(exists|x: int, y: int| #[trigger] mk(x, y) && a <= x <= y <= b && in_%s(t, %s, x, y))" % (ty, e)
def vec_pred(s, el, k):
    p = pred("%s[i%d]" % (s, k), el)
    r = "(forall|i%d: int| #![trigger %s[i%d]] 0 <= i%d < %s.len() ==> at(%s[i%d]) && %s)" % (k, s, k, k, s, s, k, p)
    if el.startswith("WithMetaData"):
        r += " && (forall|i: int, j: int| #![trigger %s[i], %s[j]] 0 <= i < j < %s.len() ==> le(%s[i].end, %s[j].start))" % (s, s, s, s, s)
    return r
def single(e, ty):
    """(condition, expression) of a field that is one positioned node"""
    ty = norm(ty)
    m = re.fullmatch(r"(\w+)<(.*)>", ty)
    if not m: return None
    if m.group(1) == "WithMetaData": return ("true", e)
    if m.group(1) == "Box": return single("(*%s)" % e, m.group(2))
    if m.group(1) == "Option":
        x = single("%s->0" % e, m.group(2))
        return x and ("%s is Some" % e, x[1])
    return None
def conj(fields, exempt=None):
    fs = []
    for e, ty in fields:
        if exempt and e == exempt[0]:
            fs.append("(%s || %s)" % (exempt[1], pred(e, ty)))
            continue
        p = pred(e, ty)
        if p: fs.append(p)
    ss = [(e, single(e, ty)) for e, ty in fields]
    ss = [s for s in ss if s[1]]
    for i in range(len(ss)):
        for j in range(i + 1, len(ss)):
            (e1, (c1, x)), (e2, (c2, y)) = ss[i], ss[j]
            c = [z for z in (c1, c2) if z != "true"]
            if exempt: c += ["!(%s)" % exempt[1]] if exempt[0] in (e1, e2) else []
            f = "(le(%s.end, %s.start) || le(%s.end, %s.start))" % (x, y, y, x)
            fs.append("(%s ==> %s)" % (" && ".join(c), f) if c else f)
    return " && ".join(fs) or "true"
w("// ---- positions (C13) ----")
w("""// a marker of a range, for the solver's quantifiers
spec fn mk(a: int, b: int) -> bool { true }
spec fn at<T>(x: T) -> bool { true }
// [s, e) is the text of the tokens a .. b - 1.
spec fn ext(t: Toks, s: SourcePosition, e: SourcePosition, a: int, b: int) -> bool { 0 <= a < b <= t.len() && s == t[a].start && e == t[b - 1].end }""")
def pos(ty, e, a, b):
    """e : WithMetaData<ty> spans the tokens a .. b - 1"""
    if ty == "String": return "ext(t, %s.start, %s.end, %s, %s) && %s == %s + 1" % (e, e, a, b, b, a)
    return "ext(t, %s.start, %s.end, %s, %s) && in_%s(t, %s.node, %s, %s)" % (e, e, a, b, ty, e, a, b)
for n, (k, x) in types.items():
    if k == "struct":
        ex = ("v.type_name", "v.type_name.node@.len() == 0") if n == "NodeAddressType" else None
        body = conj([("v." + f, ty) for f, ty in x], ex)
    else:
        arms = []
        for v, sh, fl in x:
            if sh == "(":
                names = ["f%d" % i for i in range(len(fl))]
                arms.append("%s::%s(%s) => %s," % (n, v, ", ".join(names), conj(list(zip(names, fl)))))
            elif sh == "{":
                arms.append("%s::%s { %s } => %s," % (n, v, ", ".join("%s: f_%s" % (f, f) for f, _ in fl), conj([("f_" + f, ty) for f, ty in fl])))
            else:
                arms.append("%s::%s => true," % (n, v))
        body = "match v {\n    " + "\n    ".join(arms) + "\n}"
    w("#[verifier::opaque]\nspec fn in_%s(t: Toks, v: %s, a: int, b: int) -> bool\n    decreases v\n{ %s }" % (n, n, body))
    w("broadcast proof fn i_in_%s(t: Toks, v: %s, a: int, b: int)\n    requires (%s),\n    ensures #[trigger] in_%s(t, v, a, b),\n{ %s }" % (n, n, body, n, " ".join("reveal(%s);" % x for x in sorted({"in_" + n} | set(re.findall(r"in_[A-Z]\w*", body))))))
# what is asked of the values of a nonterminal
w("// ---- where the value of a nonterminal lies ----")
for n, t, al in nts:
    o = ofs(n)
    lo = "lo" if o == 0 else "lo + %d" % o
    t = norm(t)
    m = re.fullmatch(r"(\w+)<(.*)>", t)
    if m and m.group(1) == "WithMetaData": f = pos(m.group(2), "v", lo, "hi")
    elif m and m.group(1) == "Vec":
        uid[0] += 1
        f = "{ let a = %s; let b = hi; %s }" % (lo, vec_pred("v@", m.group(2), uid[0]))
    else: f = "in_%s(t, v, %s, hi)" % (t, lo)
    f = "mk(%s, hi) && %s" % (lo, f)
    w("spec fn span_%s(t: Toks, v: %s, lo: int, hi: int) -> bool { %s }" % (n, t, f))
    w("spec fn span_%s_opt(t: Toks, v: Option<%s>, lo: int, hi: int) -> bool { match v { Some(x) => span_%s(t, x, lo, hi), None => lo == hi } }" % (n, t, n))
    if not (m and m.group(1) == "Vec"):
        uid[0] += 1
        w("spec fn span_%s_list(t: Toks, v: Seq<%s>, lo: int, hi: int) -> bool { let a = lo; let b = hi; %s }" % (n, t, vec_pred("v", t, uid[0])))
    else:
        w("spec fn span_%s_list(t: Toks, v: Seq<%s>, lo: int, hi: int) -> bool { arbitrary() }" % (n, t))

# ---------------------------------------------------------------- derivability (C17)
open(os.path.join(H, "contracts/gram.vx"), "w").write("\n".join(out) + "\n")
out.clear()
w("==== prelude")
w("// Written by tools/gen_gram.py out of contracts/gram.doc.")
w("""ghost struct PTok { tok: Token<Seq<char>> }
type Toks = Seq<PTok>;""")
w("// ---- the documented token sequences (C17) ----")
w("// r_X, r_X_plus: markers of a range, for the solver's quantifiers")
def expand(syms):
    """? and * as alternatives"""
    r = [[]]
    for s in syms:
        if s[0] == "nt" and s[2] in ("?", "*"):
            r = [x + y for x in r for y in ([], [("nt", s[1], "" if s[2] == "?" else "+")])]
        elif s[0] == "nt":
            r = [x + [("nt", s[1], s[2])] for x in r]
        else:
            r = [x + [("tok", s[1])] for x in r]
    return r
def lchain(syms):
    vs, rng, toks, subs, marks = [], [], [], [], []
    cur, off = "lo", 0
    at = lambda b, o: b if o == 0 else "%s + %d" % (b, o)
    for i, s in enumerate(syms):
        if s[0] == "tok":
            toks.append("t[%s].tok is %s" % (at(cur, off), s[1]))
            off += 1
            continue
        if off:
            v = "s%d" % i
            rng.append("%s == %s" % (v, at(cur, off)))
            vs.append(v)
            cur, off = v, 0
        e = "hi"
        if i + 1 < len(syms):
            e = "e%d" % i
            vs.append(e)
        x = s[1] + ("_plus" if s[2] else "")
        rng.append("%s < %s" % (cur, e))
        marks.append("r_%s(%s, %s)" % (x, cur, e))
        subs.append("doc_%s(t, %s, %s)" % (x, cur, e))
        cur = e
    if cur != "hi" or off: rng.append("hi == " + at(cur, off))
    rng += ["lo <= %s <= hi" % v for v in vs]
    f = " && ".join(rng + toks + marks + subs)
    if not vs: return "(%s)" % f
    return "(exists|%s| #![trigger %s] %s)" % (", ".join(v + ": int" for v in vs), ", ".join(marks), f)
for n, t, al in nts:
    fs = []
    for a in al:
        if a.imports:
            ss = [[("tok", "Import"), ("nt", "ImportedName", "+")], [("nt", "ImportDeclarations", ""), ("tok", "Import"), ("nt", "ImportedName", "")]]
        else:
            ss = expand(a.syms)
        for x in ss:
            f = lchain(x)
            if f not in fs: fs.append(f)
    w("spec fn r_%s(lo: int, hi: int) -> bool { true }" % n)
    w("spec fn r_%s_plus(lo: int, hi: int) -> bool { true }" % n)
    w("spec fn doc_%s(t: Toks, lo: int, hi: int) -> bool\n    decreases hi - lo, %dnat\n{\n    0 <= lo < hi <= t.len() && (\n        %s\n    )\n}" % (n, rank[("nt", n)], "\n        || ".join(fs)))
    w("spec fn doc_%s_plus(t: Toks, lo: int, hi: int) -> bool\n    decreases hi - lo, %dnat\n{ lo < hi && ((r_%s(lo, hi) && doc_%s(t, lo, hi)) || exists|m: int| #![trigger r_%s_plus(lo, m), r_%s(m, hi)] lo < m < hi && r_%s_plus(lo, m) && r_%s(m, hi) && doc_%s_plus(t, lo, m) && doc_%s(t, m, hi)) }" % (n, rank[("nt", n)] + 1, n, n, n, n, n, n, n, n))
open(os.path.join(H, "contracts/lang.vx"), "w").write("\n".join(out) + "\n")
print(len(nts), "nonterminals")
