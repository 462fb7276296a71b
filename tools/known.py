"""Record a repaired defect: tools/known.py fixed <property> <commit> <what>   or   open <property> <id> <match> <what>"""
import json, sys, os
F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(F)); a = sys.argv[1:]
if a[0] == "fixed": k.append({"property": a[1], "id": a[2], "status": "fixed", "what": "fixed: property=%s %s %s" % (a[1], a[2], a[3])})
else: k.append({"property": a[1], "id": a[2], "match": a[3], "what": a[4], "status": "open"})
json.dump(k, open(F, "w"), indent=1); open(F, "a").write("\n")
