#!/usr/bin/env python3
# Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []; NA = []
TECH = "symbolic execution of the LLVM IR of the real code, decided by Z3"
def prop(id, title, statement, over, text, why, files, mech, note="", technique=TECH, na=None):
    P.append((id, title, statement, over, text, why, files, mech, note, technique))
    if na: NA.append((id, na))
exec(open(V + "/tools/property_list.py").read())
SRC = "source/fern/"
with open(V + "/properties.jsonl", "w") as f:
    for id, title, st, over, text, why, files, mech, note, tech in P:
        assert len(title) <= 80, (id, len(title))
        for x in files: assert os.path.exists("/repo/" + SRC + x), (id, x)
        f.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": [SRC + x for x in files], "mechanism": [{"name": n, "where": SRC + w} for n, w in mech]}}) + "\n")
na = dict(NA)
checks = []
for id, title, st, over, text, why, files, mech, note, tech in P:
    if id in na: continue
    assert glob.glob(V + "/harness/" + id + "_*.cpp"), "no harness " + id
    checks.append({"property": id, "quick_cmd": "python3 run.py %s quick" % id, "thorough_cmd": "python3 run.py %s thorough" % id, "technique": tech, "level": "model_checking",
        "level_note": "Exhaustive over all values within the bounds listed in the evidence and DESIGN.md; trusts the executor (cross-checked by native replay of sample paths), Z3, clang's lowering." + (" " + note if note else "")})
m = {"version": 1, "setup_cmd": "make -C engine -j8", "checks": checks, "not_applicable": [{"property": a, "reason": b} for a, b in na.items()],
     "notes": "All checks share engine/ (symbolic executor for LLVM bitcode), run.py (driver) and harness/ (specifications)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(checks), "checks,", len(na), "not applicable")
