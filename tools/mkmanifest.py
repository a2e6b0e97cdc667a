#!/usr/bin/env python3
"""writes MANIFEST.json from the plan"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))}
TECH = "TLA+ specification checked with TLC; its behaviours, with the answers it requires, replayed into the library"
NOTE = ("Every call of every explored behaviour of the specification (random sessions drawn by the specification's own "
        "generators%s) is performed on the library built with ASan and UBSan, twice with different memory content, and its "
        "complete answer (all members, bytes consumed, change of the parser state) must be the one the specification gives%s. "
        "Bounded by the sessions explored; trusts TLC, the comparison and the harness.")
checks = []
for pid in sorted(plan.PLAN):
    p = plan.PLAN[pid]
    enum = [r for r in p.get("runs", {}) if r[:2] in ("e_", "l_")]
    more = [x for x, on in (("units of the sample streams", p.get("media")), ("calls found by a coverage-guided search", p.get("search"))) if on]
    also = ""
    if pid in plan.LAWS:
        also += "; TLC also checks the specification's laws " + ", ".join(sorted(plan.LAWS[pid]))
    if p.get("threads"):
        also += "; sessions run side by side on threads under ThreadSanitizer"
    if p.get("pure"):
        also += "; the Java versions of the bit operators are compared with their TLA+ definitions"
    checks.append({"property": pid,
                   "quick_cmd": "python3 tools/check.py %s --tier quick" % pid,
                   "thorough_cmd": "python3 tools/check.py %s --tier thorough" % pid,
                   "technique": p.get("technique", TECH),
                   "level": "model_checking",
                   "level_note": p.get("note", NOTE % (((", the families " + ", ".join(enum)) if enum else "") + ((", " + " and ".join(more)) if more else ""), also))})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": i, "reason": plan.NOT_APPLICABLE[i]} for i in sorted(plan.NOT_APPLICABLE)],
     "notes": "No hooks: the harness uses the public headers of /repo only. Specification in spec/, driver in tools/, harness in harness/."}
assert sorted([c["property"] for c in checks] + list(plan.NOT_APPLICABLE)) == sorted(props), "properties and claims differ"
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
