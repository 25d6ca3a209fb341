"""writes MANIFEST.json from specs/targets.py and properties.jsonl"""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from specs import targets as T

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T.PROPS:
        P = T.PROPS[i]
        checks.append(dict(property=i, quick_cmd=f"python3-vt check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3-vt check.py {i}",
                           technique="contract-based deductive verification: pre/postconditions, heap and loop invariants on the functions of /repo's salabim.py (re-read on every run), obligations discharged by z3/cvc5; bounded oracle on the real code for replayable counterexamples",
                           level="proof", level_note=P.get("note") or T.DEFAULT_NOTE))
    else:
        na.append(dict(property=i, reason=T.NOT_APPLICABLE[i]))
json.dump(dict(version=1, setup_cmd="python3-vt setup.py", checks=checks, not_applicable=na,
               notes="No hooks in /repo. Evidence: evidence/<id>.json. See DESIGN.md."), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
