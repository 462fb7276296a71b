#!/usr/bin/env python3
# Regenerates MANIFEST.json from properties.jsonl and the contracts present.
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = json.load(open(V + "/tools/not_applicable.json")) if os.path.exists(V + "/tools/not_applicable.json") else {}
checks = []; na = []
for p in props:
    f = "%s/contracts/%s.py" % (V, p["id"])
    if not os.path.exists(f) or p["id"] in NA:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "not yet under contract (work in progress)")}); continue
    s = open(f).read()
    lvl = re.search(r'^LEVEL\s*=\s*"(\w+)"', s, re.M).group(1)
    note = re.search(r'^LEVEL_NOTE\s*=\s*"((?:[^"\\]|\\.)*)"', s, re.M)
    note = note.group(1) if note else ""
    tech = re.search(r'^TECHNIQUE\s*=\s*"((?:[^"\\]|\\.)*)"', s, re.M)
    tech = tech.group(1) if tech else "contract-based deductive verification: VCs from the LLVM IR of the real functions (pre/postconditions, loop invariants), discharged by z3/cvc5"
    c = {"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
         "technique": tech, "level": lvl, "level_note": note or "Every obligation generated from the current source must be discharged for all inputs; see evidence for trusted parts. A native bounded search of the same property finds concrete failing inputs; it is not counted as proof."}
    checks.append(c)
m = {"version": 1, "setup_cmd": "python3 engine/build.py all", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
