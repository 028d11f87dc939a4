#!/usr/bin/env python3
"""Decides one property: check.py ID [quick|thorough].

1. extracts the functions the property depends on from /repo's working tree (tools/vx), joins them
   with the contracts in contracts/, and has Verus discharge every obligation;
2. runs the bounded end-to-end part (harness/) against the real crate, which also looks for a
   concrete failing input when an obligation fails;
3. writes evidence/ID.json.
Exit 0, or exit 1 with a VIOLATION line.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
# property -> (units of contracts, the obligations besides that are tagged with the property)
PROPS = json.load(open(os.path.join(HERE, "props.json")))
VX = os.path.join(HERE, "tools/vx/target/release/vx")


def run(cmd, timeout, cwd=None, env=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, start_new_session=True)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "", "timeout"
    except OSError as x:
        return 127, "", str(x)


def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode())
            h.update(open(p, "rb").read())
    for f in ("Cargo.toml", "build.rs"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    return h.hexdigest()


def sources():
    """The repository's source files, without comments and layout."""
    out = {}
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        for f in files:
            p = os.path.join(root, f)
            t = open(p, errors="replace").read()
            t = re.sub(r"(?m)^\s*//.*$|\s//[^\"\n]*$", "", t)
            out[os.path.relpath(p, REPO)] = hashlib.sha256(re.sub(r"\s+", " ", t).strip().encode()).hexdigest()[:16]
    return out


def changed():
    """Files other than those the bounded part has been run on at length. Only budgets depend on this."""
    p = os.path.join(HERE, "examined.json")
    old = json.load(open(p)) if os.path.exists(p) else {}
    new = sources()
    return sorted(f for f in set(old) | set(new) if old.get(f) != new.get(f))


# ---------------------------------------------------------------- the verifier

class Unit:
    def __init__(self, name):
        self.name = name
        self.limits = []      # why the verifier could not be asked, or its answer means nothing
        self.slow = []        # functions for which it ran out of resources (the others stand)
        self.failed = []      # failed obligations: dict(fn, file, line, kind, props, message)
        self.obligations = 0
        self.discharged = 0
        self.smt_ms = 0
        self.wall = 0.0
        self.fns = []
        self.trusted = []
        self.cmd = ""
        self.raw = ""


def trusted_scan(text):
    out = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        if "external_body" in l or "external_fn_specification" in l or "assume_specification" in l or "external_type_specification" in l:
            for k in range(i, min(i + 6, len(lines))):
                m = re.search(r"\b(?:fn|struct|enum|type)\s+(\w+)", lines[k]) or re.search(r"assume_specification.*?\[\s*(.*?)\s*\]", lines[k])
                if m:
                    out.append(("axiom " if "proof fn" in lines[k] else "assumed contract: ") + m.group(1))
                    break
        elif re.search(r"\b(assume|admit)\s*\(", l) and not l.strip().startswith("//"):
            out.append("assumption: " + l.strip()[:120])
    return sorted(set(out))


def kind_of(msg):
    m = msg.lower()
    if "overflow" in m or "underflow" in m or "division by zero" in m or "precondition" in m or "panic" in m or "unreachable" in m or "bounds" in m:
        return "safety"
    if "decreases" in m or "termination" in m:
        return "termination"
    if "resource limit" in m or "rlimit" in m:
        return "rlimit"
    return "semantic"


def parse_errors(stderr, main):
    """The error messages of the verifier, with every line of the generated file they point at."""
    out = []
    for l in stderr.split("\n"):
        if not l.startswith("{"):
            continue
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("level") != "error" or not d.get("message"):
            continue
        if d["message"].startswith("aborting due to"):
            continue
        spans = [(s["line_start"], bool(s.get("is_primary"))) for s in d.get("spans", []) if s["file_name"].endswith(main)]
        out.append((d["message"], spans, d.get("rendered") or "", d.get("code")))
    return out


def verify(unit, work, rlimit):
    u = Unit(unit)
    t0 = time.time()
    os.makedirs(work, exist_ok=True)
    rs, js = os.path.join(work, unit + ".rs"), os.path.join(work, unit + ".json")
    for p in (rs, js):
        if os.path.exists(p):
            os.remove(p)
    rc, o, e = run([VX, unit, REPO, os.path.join(HERE, "contracts"), rs, js], 120)
    if not os.path.exists(js) or not os.path.exists(rs):
        u.limits.append("extraction: " + (e.strip() or o.strip())[-400:])
        u.wall = time.time() - t0
        return u
    info = json.load(open(js))
    u.fns = info["fns"]
    for p in info["problems"]:
        u.limits.append(p)
    for f in u.fns:
        if not f["contracted"]:
            u.limits.append("no contract for %s (%s)" % (f["key"], f["file"]))
    text = open(rs).read()
    lines = text.split("\n")
    u.trusted = trusted_scan(text)
    cmd = ["verus", unit + ".rs", "--multiple-errors", "2", "--output-json", "--error-format=json", "--time-expanded", "--rlimit", str(rlimit)]
    u.cmd = " ".join(cmd)
    rc, o, e = run(cmd, 500, cwd=work)
    u.raw = e
    res = None
    try:
        res = json.loads(o[o.index("{"):])
    except ValueError:
        u.limits.append("the verifier gives no answer (exit %d): %s" % (rc, e.strip()[-300:]))
    errs = parse_errors(e, unit + ".rs")
    if res is not None:
        v = res.get("verification-results", {})
        if v.get("encountered-vir-error") or "verified" not in v:
            m = errs[0][0] if errs else e.strip()[-300:]
            u.limits.append("the verifier rejects the extracted text: " + m[:300])
        else:
            u.discharged = v["verified"]
            u.obligations = v["verified"] + v["errors"]
            try:
                u.smt_ms = res["times-ms"]["smt"]["total"]
            except (KeyError, TypeError):
                pass
            for msg, spans, rendered, code in errs:
                if code:
                    u.limits.append("compile error in the extracted text: " + msg[:200])
                    continue
                # the function: the one the error lies in (a failed postcondition also points at the
                # contract, which lies in the same function; a failed precondition at the callee's)
                where = sorted(spans, key=lambda s: not s[1])
                k = kind_of(msg)
                hits = [[f for f in u.fns if f["first"] <= ln <= f["last"]] for ln, _ in where]
                hits = [h[0] for h in hits if h]
                fn = hits[0] if hits else None
                # a clause of a contract may name the properties it is there for
                tags = sorted(set(x for ln, _ in spans if 0 < ln <= len(lines) for m in [re.search(r"//@((?: C\d\d)+)\s*$", lines[ln - 1])] if m for x in m.group(1).split()))
                if k == "rlimit":
                    u.slow.append("resource limit in " + (fn["key"] if fn else "?"))
                    continue
                u.failed.append({
                    "fn": fn["key"] if fn else "(lemma)",
                    "file": fn["file"] if fn else "contracts",
                    "line": fn["src_line"] if fn else 0,
                    "kind": k, "message": msg, "rendered": rendered[:1500],
                    "props": tags or ((["C04"] if k in ("safety", "termination") else fn["props"]) if fn else []),
                })
            if v["errors"] and not u.failed and not u.limits and not u.slow:
                u.limits.append("errors without a location")
            if u.obligations == 0:
                u.limits.append("no obligations were generated")
    u.wall = time.time() - t0
    return u


# ---------------------------------------------------------------- the bounded part

def build_tools(log):
    rc, o, e = run(["cargo", "build", "--offline", "--release", "--quiet"], 600, cwd=os.path.join(HERE, "tools/vx"))
    if rc:
        log.append("vx does not build: " + e[-300:])
    return rc == 0


def build_harness(state):
    d = os.path.join(HERE, "harness")
    stamp = os.path.join(d, "target", "repo.sha256")
    h = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != h:
        # mtimes are not to be trusted: make cargo forget that it built the crate
        for f in glob.glob(os.path.join(d, "target/debug/.fingerprint/scilla-parser-*")):
            shutil.rmtree(f, ignore_errors=True)
    env = {"CARGO_NET_OFFLINE": "true"}
    rc, o, e = run(["cargo", "build", "--offline", "--quiet"], 600, cwd=d, env=env)
    if rc:
        state["error"] = "the harness does not build: " + e[-600:]
        return
    os.makedirs(os.path.dirname(stamp), exist_ok=True)
    open(stamp, "w").write(h)
    state["bin"] = os.path.join(d, "target/debug/harness")


def bounded(binary, prop, seed, ms, work, real):
    replay = os.path.join(work, "failing-input.json")
    if os.path.exists(replay):
        os.remove(replay)
    scratch = os.path.join(work, "scratch")
    rc, o, e = run([binary, "check", prop, "--seed", str(seed), "--ms", str(ms), "--repo", REPO, "--replay", replay, "--dir", scratch] + (["--real"] if real else []), ms / 1000 + 150)
    shutil.rmtree(scratch, ignore_errors=True)
    stats = {}
    why = None
    for l in o.split("\n"):
        if l.startswith("{"):
            try:
                stats = json.loads(l)
            except ValueError:
                pass
        if l.startswith("FAIL "):
            why = l[5:]
    if why is not None and os.path.exists(replay):
        return "fail", stats, why, replay
    if rc == 0:
        return "ok", stats, None, None
    return "error", stats, "the harness ended with %d: %s" % (rc, e[-200:]), None


# ---------------------------------------------------------------- main

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    conf = PROPS[prop]
    work = os.path.join(HERE, "build", prop)
    os.makedirs(work, exist_ok=True)
    notes = []

    hstate = {}
    th = threading.Thread(target=build_harness, args=(hstate,))
    th.start()
    units = []
    if build_tools(notes):
        slots = [None] * len(conf["units"])

        def go(i, name):
            u = verify(name, work, 60 if tier == "quick" else 240)
            slots[i] = u
        ts = [threading.Thread(target=go, args=(i, n)) for i, n in enumerate(conf["units"])]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        units = slots
    th.join()

    direct = [f for u in units for f in u.failed if prop in f["props"] and not u.limits]
    indirect = [f for u in units for f in u.failed if not (prop in f["props"] and not u.limits)]
    limits = ["%s: %s" % (u.name, l) for u in units for l in u.limits + u.slow] + notes
    if not units and conf["units"]:
        limits.append("the extractor did not run")

    # bounded part: longer when an obligation is open, or the code is not that which it was run on at length
    clean = not direct and not indirect and not limits
    new = changed()
    if tier == "quick":
        ms = (60000 if new else conf.get("ms", 15000)) if clean else (120000 if limits else 60000)
    else:
        ms = 240000 if clean else 400000
    real = any(f.startswith("src/parser/") and f.endswith(".rs") or f in ("src/contract.rs", "src/error.rs") for f in new)
    hres, stats, why, replay = "error", {}, hstate.get("error", ""), None
    if "bin" in hstate:
        hres, stats, why, replay = bounded(hstate["bin"], prop, seed, ms, work, real)
    if hres == "error":
        notes.append(why or "the bounded part did not run")

    verdict = 0
    line = None
    if hres == "fail":
        verdict = 1
        out = os.path.join(work, "violation.json")
        d = json.load(open(replay))
        d["failed_obligations"] = direct + indirect
        d["limits"] = limits
        d["replay"] = "%s replay %s %s" % (os.path.join(HERE, "harness/target/debug/harness"), prop, out)
        text = json.dumps(d, indent=1, ensure_ascii=False)
        # keep the raw bytes where `harness replay` finds them
        text = re.sub(r'"input_hex": \[\s*([^\]]*?)\s*\]', lambda m: '"input_hex": [' + re.sub(r"\s+", " ", m.group(1)) + "]", text)
        open(out, "w").write(text)
        print("failing input: " + str(why)[:600])
        line = "VIOLATION property=%s replay=%s" % (prop, out)
    elif direct:
        verdict = 1
        out = os.path.join(work, "violation.json")
        json.dump({"property": prop, "failed_obligations": direct, "indirect": indirect, "verifier": [u.cmd for u in units],
                   "output": "\n".join(f["rendered"] for f in direct)[:20000]}, open(out, "w"), indent=1)
        for f in direct[:8]:
            print("failed obligation: %s in %s (%s:%s)" % (f["message"], f["fn"], f["file"], f["line"]))
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, out)

    for l in limits[:10]:
        print("UNDECIDED by the verifier: " + l)
    for f in indirect[:5]:
        print("open obligation (not this property's): %s in %s" % (f["message"], f["fn"]))
    for l in notes:
        print("note: " + l)
    for k in open(os.path.join(HERE, "KNOWN_FINDINGS")).read().split("\n"):
        if k.startswith("property=%s " % prop):
            print("KNOWN-FINDING: " + k)

    # thorough: no contract is such that anything follows from it
    vac = {}
    if tier != "quick" and clean:
        rc, o, e = run([sys.executable, os.path.join(HERE, "tools/vacuity.py"), "-d", os.path.join(work, "vacuity")] + conf["units"], 800)
        vac = {"exit": rc, "output": o.strip().split("\n")}
        if rc:
            print("note: vacuity check: " + o.strip()[-600:])

    contracted = [f for u in units for f in u.fns if f["contracted"]]
    mine = [f for f in contracted if prop in f["props"]]
    cov = {
        "obligations": sum(u.obligations for u in units),
        "discharged": sum(u.discharged for u in units),
        "checker_cmd": " ; ".join(u.cmd for u in units) or "none",
        "trusted_base": sorted(set(t for u in units for t in u.trusted)) + conf.get("trusted", []),
        "functions_under_contract": sorted(set(f["key"] for f in contracted)),
        "functions_tagged_with_this_property": sorted(set(f["key"] for f in mine)),
        "back_end": "Verus 0.2026.09.13 with Z3",
        "solver_ms": {u.name: u.smt_ms for u in units},
        "verifier_wall_s": {u.name: round(u.wall, 1) for u in units},
        "failed_obligations": [{k: f[k] for k in ("fn", "message", "kind", "props")} for f in direct + indirect],
        "undecided": limits,
        "vacuity_check": vac or "thorough tier only",
        "bounded_part": {
            "what": conf["bounded"], "counted_as_proved": False, "result": hres, "budget_ms": ms, "files_new_to_it": new, **stats,
        },
        "evaluations": int(stats.get("inputs", 0)),
    }
    level = conf["level"]
    if level != "proof":
        cov["explanation"] = conf.get("note", "")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": conf["assumptions"], "wall_s": round(time.time() - t0, 1), "violations": verdict}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, ensure_ascii=False)
    if line:
        print(line)
    else:
        print("%s: %d of %d obligations discharged, %s inputs in the bounded part, no violation" % (prop, cov["discharged"], cov["obligations"], stats.get("inputs", 0)))
    sys.exit(verdict)


if __name__ == "__main__":
    if sys.argv[1] == "--examined":
        json.dump(sources(), open(os.path.join(HERE, "examined.json"), "w"), indent=1, sort_keys=True)
    else:
        main()
