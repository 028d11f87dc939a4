#!/usr/bin/env python3
"""Runs the checks' machinery on changed copies of /repo.

run.py mut|ref|gram [NAME...] [--no-harness] [--ms N]

mut   mutants.py: bugs. Every one has to be found, by an obligation or by an input.
ref   refactorings.py: behaviour kept. None may fail an obligation ("FAIL"); the harness has to be quiet.
gram  grammar.py: both kinds, in parser.lalrpop.
The copies live in a scratch directory that is removed at the end.
"""
import json, os, re, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(H))
EM="src/simplified_representation/emitter.rs"; TY="src/type.rs"; CO="src/contract.rs"; LX="src/parser/lexer.rs"; VI="src/ast/visitor.rs"; FI="src/field.rs"; TR="src/transition.rs"; PR="src/simplified_representation/primitives.rs"; NO="src/ast/nodes.rs"; ER="src/error.rs"; GR="src/parser/parser.lalrpop"
UNITS={EM:["emit"],TY:["emit","disp"],CO:["api"],LX:["lex"],VI:["visit","emit"],FI:["emit","disp"],TR:["emit"],PR:["emit"],NO:["text","emit","visit"],GR:["lang","gram"],ER:["api"]}
PROPS=json.load(open(V+"/props.json"))
VX=V+"/tools/vx/target/release/vx"
sh=lambda c: subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT).stdout.decode(errors="replace")

def verify(u, d):
    r=subprocess.run([VX,u,d+"/r",V+"/contracts",d+"/%s.rs"%u,d+"/%s.json"%u],stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
    if r.returncode: return "undecided (%s)"%r.stdout.decode()[-150:].strip()
    j=json.load(open(d+"/%s.json"%u))
    probs=j["problems"]+["no contract "+f["key"] for f in j["fns"] if not f["contracted"]]
    o=sh("cd %s; timeout 400 verus %s.rs --rlimit 60"%(d,u))
    v=re.findall(r"verification results:: (.*)",o)
    errs=[l for l in re.findall(r"^error.*",o,re.M) if "aborting" not in l]
    if v and v[0].endswith(" 0 errors") and not probs: return "clean"
    if probs or not v or any("E0" in x or "rlimit" in x.lower() for x in errs): return "undecided %s %s"%([p[:90] for p in probs[:2]],[e[:110] for e in errs[:2]])
    return "FAIL %s"%[e[:110] for e in errs[:2]]

def harness(d, props, ms):
    sh("rm -rf %s/h; mkdir -p %s/h; cp -r %s/harness/src %s/harness/Cargo.* %s/h/; sed -i 's#\"/repo\"#\"%s/r\"#' %s/h/Cargo.toml; rm -rf %s/tgt/debug/.fingerprint/scilla-parser-*"%(d,d,V,V,d,d,d,d))
    o=sh("cd %s/h; CARGO_TARGET_DIR=%s/tgt cargo build --offline -q 2>&1 | grep -E '^error' -A6"%(d,d))
    if o.strip(): return "DOES NOT BUILD "+o[:500]
    out=[]
    for p in props:
        o=sh("%s/tgt/debug/harness check %s --seed 1 --ms %d %s --repo %s/r --dir %s/scr --replay %s/rep.json 2>/dev/null"%(d,p,ms,os.environ.get("REAL",""),d,d,d))
        t=re.findall(r'"ms": (\d+)',o)
        out.append(p+(" FOUND" if "FAIL" in o else " quiet")+" %s ms"%(t[0] if t else "?"))
    return ", ".join(out)

def main():
    kind=sys.argv[1]; names=[a for a in sys.argv[2:] if not a.startswith("-") and not a.isdigit()]
    ms=int(sys.argv[sys.argv.index("--ms")+1]) if "--ms" in sys.argv else 60000
    ns=dict(globals(), M={}, R={})
    exec(open(os.path.join(H,{"mut":"mutants.py","ref":"refactorings.py","gram":"grammar.py"}[kind])).read(),ns)
    cases=[]
    if kind=="mut": cases=[(n,e,PROPS[p]["units"],[p]) for n,(p,e) in ns["M"].items()]
    if kind=="ref": cases=[(n,e,sorted(set(u for f,_,_ in e for u in UNITS.get(f,[]))),["C02","C03","C08","C10","C12","C15"]) for n,e in ns["R"].items()]
    if kind=="gram": cases=[(n,[(GR,a,b) for a,b in e],UNITS[GR],["C12","C13","C17"]) for n,e in list(ns["R"].items())+list(ns["M"].items())]
    d=tempfile.mkdtemp(prefix="vsuite-")
    try:
        for n,edits,units,props in cases:
            if names and not any(re.fullmatch(x,n) for x in names): continue
            sh("rm -rf %s/r; mkdir %s/r; git -C /repo archive HEAD | tar x -C %s/r; cp /repo/Cargo.lock %s/r/"%(d,d,d,d))
            ok=True
            for f,a,b in edits:
                p=d+"/r/"+f
                if a is None:
                    open(p,"w").write(b); continue
                s=open(p).read()
                if a not in s: print(n,"NO MATCH in",f); ok=False; break
                open(p,"w").write(s.replace(a,b,1) if kind!="ref" else s.replace(a,b))
            if not ok: continue
            o=sh("cd %s/r; CARGO_TARGET_DIR=%s/ctgt cargo check --offline -q 2>&1 | grep -E '^error' -A6"%(d,d))
            if o.strip(): print(n,"DOES NOT BUILD",o[:600]); continue
            out=["%s %s"%(u,verify(u,d)) for u in units]
            if "--no-harness" not in sys.argv: out.append(harness(d,props,ms))
            print("%-16s %s"%(n," | ".join(out)),flush=True)
    finally:
        shutil.rmtree(d)
main()
