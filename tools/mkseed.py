"""mkseed.py: write /verif/seeded/<id>/ from a description file (python): ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ source with main)"""
import sys, os, json, subprocess, difflib
SH = '''#!/bin/bash
D=$(mktemp -d); trap '[ -n "$D" ] && find "$D" -mindepth 1 -delete && rmdir "$D"' EXIT
H=$(cd "$(dirname "$0")" && pwd)
INC="-I_build/src/pdfmm -Isrc -I3rdparty $(find _build/src -name pdfmm_config.h -printf '-I%h ')"
g++ -std=gnu++17 -O1 -w -fno-access-control -DPDFMM_SHARED -DNDEBUG -DHAS_UNCAUGHT_EXCEPTIONS=1 $INC -I/usr/include/freetype2 -I/usr/include/libxml2 "$H/demo.cpp" -o "$D/demo" -L_build/target -lpdfmm -Wl,-rpath,"$PWD/_build/target" -lcrypto || exit 99
cd "$D" && timeout 60 ./demo
'''
for spec in sys.argv[1:]:
    ns = {}; exec(open(spec).read(), ns)
    for s in ns["SEEDS"]:
        d = "/verif/seeded/" + s["id"]; os.makedirs(d, exist_ok=True); diff = ""
        by = {}
        for f, old, new in s["edits"]:
            t = by.get(f) or open("/repo/" + f).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            by[f] = t.replace(old, new)
        for f, t in by.items():
            o = open("/repo/" + f).read()
            diff += "diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(o.splitlines(True), t.splitlines(True), "a/" + f, "b/" + f))
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(SH); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.cpp", "w").write(s["demo"])
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print(s["id"], subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"], capture_output=True, text=True).stderr or "ok")
