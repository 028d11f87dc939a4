#!/usr/bin/env python3
"""Writes seeded/<id>/ from tools/seeds.d/*.py and confirms each in a scratch copy (seeds.py [ID ...])."""
import glob, json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = {}
for p in sorted(glob.glob(os.path.join(H, "tools/seeds.d/*.py"))):
    exec(open(p).read(), {"S": S})
S.pop("_REC", None)
DEMO = '''#!/bin/bash
# builds main.rs beside this file against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf -- "$d"' EXIT
# the settings /opt/vp/build.sh builds with, so that what it built can be used
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 RUSTC_WRAPPER= CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_DEV_OPT_LEVEL=1
unset CARGO_TARGET_DIR RUSTFLAGS
lib=$(timeout 200 cargo build --offline -q --lib --message-format=json | grep -o '"[^"]*libscilla_parser[^"]*\\.rlib"' | tail -1 | tr -d '"')
[ -n "$lib" ] || { echo "the library does not build"; exit 3; }
rustc --edition 2021 -C overflow-checks=on -C debug-assertions=on "$here/main.rs" -o "$d/demo" --extern scilla_parser="$lib" -L dependency="$(dirname "$lib")/deps" || exit 3
cd "$d" && timeout 60 ./demo
'''
os.environ.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", RUSTC_WRAPPER="",
                  CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_PROFILE_DEV_OPT_LEVEL="1")
def sh(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def main():
    ids = sys.argv[1:] or sorted(S)
    w = os.environ.get("SEEDREPO", "/tmp/seedrepo")
    subprocess.run(["rm", "-rf", w]); subprocess.run(["cp", "-a", "/repo", w])
    base = json.load(open("/opt/vp/BASELINE.json"))
    try:
        for i in ids:
            s = S[i]
            d = os.path.join(H, "seeded", i)
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "main.rs"), "w").write(s["main"].lstrip())
            open(os.path.join(d, "demo.sh"), "w").write(DEMO)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            sh("git checkout -q -- .", w)
            ok = sh("bash %s/demo.sh" % d, w)
            if ok.returncode != 0:
                print(i, "DEMO FAILS UNPATCHED", ok.stdout.decode()[-800:]); continue
            bad = False
            for f, old, new in s["edits"]:
                p = os.path.join(w, f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(i, "EDIT", f, "matches", t.count(old)); bad = True; break
                open(p, "w").write(t.replace(old, new))
            if bad:
                continue
            open(os.path.join(d, "patch.diff"), "wb").write(sh("git diff --no-color", w).stdout)
            # original lines only
            t = sh("cargo test --offline 2>&1 | grep -E '^test |^error|test result|FAILED'", w)
            out = t.stdout.decode()
            fails = [l for l in out.split("\n") if "... FAILED" in l or l.startswith("error")]
            okc = out.count("... ok")
            r = sh("bash %s/demo.sh" % d, w)
            print(i, s["property"], "tests ok=%d" % okc, "fails=%s" % fails[:3], "demo=%d" % r.returncode, r.stdout.decode().strip()[-200:].replace("\n", " | "), "" if (not fails and r.returncode) else "  <<<< BAD", flush=True)
    finally:
        subprocess.run(["rm", "-rf", w])
main()
