#!/usr/bin/env python3
"""For each unit: every function under contract gets one more postcondition that cannot be proved.
Each must fail, and fail as a postcondition: one that is discharged has a contract or a body from
which anything follows; one that runs into the resource limit would hide a change that breaks it.
vacuity.py [-r RLIMIT] UNIT...   exit 1 if something was discharged."""
import json, os, re, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def instrument(text, fns):
    lines = text.split("\n")
    where = {}
    for k, f in enumerate(fns):
        if not f["contracted"]:
            continue
        a, b = f["first"] - 1, f["last"]
        body = next((i for i in range(a, b) if lines[i].strip() == "{" or (lines[i].rstrip().endswith("{") and i > a and not lines[i].startswith("    "))), None)
        if body is None:
            where[k] = None
            continue
        ens = next((i for i in range(a, body) if re.match(r"\s*ensures\b", lines[i])), None)
        if ens is not None:
            lines[ens] = re.sub(r"ensures", "ensures vx_never(%d)," % k, lines[ens], count=1)
        else:
            dec = next((i for i in range(a, body) if re.match(r"\s*decreases\b", lines[i])), body)
            lines[dec] = "    ensures vx_never(%d),\n" % k + lines[dec]
        where[k] = f["key"]
    t = "\n".join(lines)
    i = t.index("verus!")
    i = t.index("{", i) + 1
    return t[:i] + " uninterp spec fn vx_never(k: int) -> bool; " + t[i:], where


def main():
    args = sys.argv[1:]
    rl = "20"
    if args[:1] == ["-r"]:
        rl, args = args[1], args[2:]
    work = os.path.join(HERE, "build", "vacuity")
    if args[:1] == ["-d"]:
        work, args = args[1], args[2:]
    bad = 0
    for u in args:
        os.makedirs(work, exist_ok=True)
        rs, js = os.path.join(work, u + ".rs"), os.path.join(work, u + ".json")
        subprocess.run([os.path.join(HERE, "tools/vx/target/release/vx"), u, REPO, os.path.join(HERE, "contracts"), rs, js], check=True)
        fns = json.load(open(js))["fns"]
        text, where = instrument(open(rs).read(), fns)
        open(rs, "w").write(text)
        p = subprocess.run(["verus", u + ".rs", "--error-format=json", "--multiple-errors", "0", "--rlimit", rl], cwd=work, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        failed, limit, other = set(), set(), []
        for l in p.stderr.decode().split("\n"):
            if not l.startswith("{"):
                continue
            d = json.loads(l)
            if d.get("level") != "error" or d["message"].startswith("aborting"):
                continue
            lns = [s["line_start"] for s in d["spans"]]
            ks = [int(x) for s in d["spans"] for t in s["text"] for x in re.findall(r"vx_never\((\d+)\)", t["text"])]
            hit = [k for k, f in enumerate(fns) if any(f["first"] <= n <= f["last"] + 2 for n in lns)]
            if ks and "postcondition" in d["message"]:
                failed.update(ks)
            elif "limit" in d["message"] and hit:
                limit.add(hit[0])
            else:
                other.append((d["message"], fns[hit[0]]["key"] if hit else "?"))
        want = {k for k, v in where.items() if v}
        # `requires false`: the caller's obligation is that it is never called
        text = open(js[:-5] + ".rs").read().split("\n")
        never = {k for k in want if any(re.match(r"\s*requires false\b", l) for l in text[fns[k]["first"] - 1:fns[k]["last"]])}
        odd = sorted(where[k] for k in want - failed - limit - never)
        print("%s: %d contracts, %d fail as they must, %d never called, %d at the resource limit, %d not refuted" % (u, len(want), len(failed & want), len(never), len(limit), len(odd)))
        for k in sorted(limit):
            print("   resource limit: " + fns[k]["key"])
        for k in odd:
            print("   NOT REFUTED: " + k)
        for m in other[:5]:
            print("   other: %s in %s" % m)
        print("  ", re.findall(r"verification results.*", p.stdout.decode()))
        bad |= bool(odd) or bool(other) and not failed
    sys.exit(1 if bad else 0)


main()
