#!/usr/bin/env python3-vt
"""writes MANIFEST.json from vc/props.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vc.props import PROPS, OPTS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
def note(i):
    b = sorted(n for n, o in OPTS.items() if n.startswith(i.lower() + "_") and o.get("bounded"))
    t = "all obligations of all contracts discharged on the unchanged tree"
    return t + (", except the bounded stand-ins (never counted as proved): " + ", ".join(b) if b else "")


checks = []
for i in ids:
    if i not in PROPS:
        continue
    checks.append(dict(
        property=i, quick_cmd="python3-vt /verif/check.py %s --tier quick" % i,
        thorough_cmd="python3-vt /verif/check.py %s --tier thorough" % i,
        technique="contract-based deductive verification: verification conditions from the LLVM IR of /repo's sources, "
                  "discharged by z3/cvc5 (inductive loop invariants, no unrolling); counterexamples replayed on the real code",
        level=PROPS[i].get("level", "proof"), level_note=PROPS[i].get("note") or note(i)))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "contracts for this property are not built yet")) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
