#!/usr/bin/env python3
"""Writes props.json (what check.py needs per property) and MANIFEST.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STACK = "the nesting of the text fits the thread's stack (both the generated parser's drop code and the traversal recurse)"
LALR = "LALRPOP's generated LR automaton runs the grammar's actions in the order of a derivation of the token sequence (bounded part: compared with an independent recursive-descent parser)"
STD = "String, Vec, Option, Box and the formatting machinery of std behave as their contracts in contracts/common.vx say (machine integers are not treated as mathematical: overflow is an obligation)"
EXTRACT = "the extractor (tools/vx) keeps the meaning of the text it rewrites: format!/write!/matches!/vec! are expanded, `?` and for loops over vectors become matches and indexed loops, closures over Option are expanded, the converter is the concrete SrEmitter"
P = {}
def prop(id, units, level, tech, note, bounded, assumptions, ms=15000):
    P[id] = dict(units=units, level=level, technique=tech, level_note=note, bounded=bounded, assumptions=assumptions, ms=ms)

EM = "Verus contracts on the functions of src/simplified_representation, src/type.rs, src/field.rs, src/transition.rs, the visit functions (with the concrete emitter) and the Display impls they use, extracted from /repo on every run"
ENDNOTE = " The step from text to tree (LALRPOP's automaton) is not proved; the bounded part compares parsing end to end with an independent lexer, parser and interface reference on random, mutated and sample programs."
prop("C05", ["emit", "api"], "proof", "contract-based deductive verification (Verus)",
     "Proved for every syntax tree: SrEmitter::emit answers Ok exactly for trees whose interface types have a representation, with the contract name and the deployment parameters of the tree (gc_cd)." + ENDNOTE,
     "name and deployment parameters of parsed programs against the reference", [LALR, STD, EXTRACT, STACK])
prop("C06", ["emit", "api"], "proof", "contract-based deductive verification (Verus)",
     "Proved for every syntax tree: the fields of the emitted contract are exactly those of the tree, in order, with the types their declarations denote." + ENDNOTE,
     "fields of parsed programs against the reference", [LALR, STD, EXTRACT, STACK])
prop("C07", ["emit", "api"], "proof", "contract-based deductive verification (Verus)",
     "Proved for every syntax tree: the transitions of the emitted contract are exactly the tree's transition components, each with its own parameters." + ENDNOTE,
     "transitions of parsed programs against the reference", [LALR, STD, EXTRACT, STACK])
prop("C08", ["emit", "api"], "proof", "contract-based deductive verification (Verus)",
     "Proved for every type in a syntax tree: the reported type is the denoted one (conv), and types without a representation give an error." + ENDNOTE,
     "types at interface positions of parsed programs against the reference", [LALR, STD, EXTRACT, STACK])
prop("C16", ["emit", "api"], "proof", "contract-based deductive verification (Verus)",
     "Proved: two trees with the same interface give equal contracts (lemma_frame over the contract of SrEmitter::emit), so nothing else in the tree matters; emit has no other input." + ENDNOTE,
     "pairs of programs with the same interface, and the same text twice", [LALR, STD, EXTRACT, STACK])
NA = {}
if __name__ == "__main__":
    from mkmanifest_extra import extra
    extra(prop, NA, dict(STACK=STACK, LALR=LALR, STD=STD, EXTRACT=EXTRACT, ENDNOTE=ENDNOTE, EM=EM))
    json.dump(P, open(os.path.join(H, "props.json"), "w"), indent=1, sort_keys=True)
    ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "bash setup.sh",
         "hooks": {"guard": "none", "enable": "no hooks: the checks use /repo's public API and its source text", "source_commits": []},
         "checks": [], "not_applicable": []}
    for i in ids:
        if i in P:
            m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                                "technique": P[i]["technique"], "level": P[i]["level"], "level_note": P[i]["level_note"]})
        else:
            m["not_applicable"].append({"property": i, "reason": NA.get(i, "no contracts yet: work in progress")})
    json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
