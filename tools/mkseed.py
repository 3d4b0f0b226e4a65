"""mkseed.py ID PROPERTY FILE < JSON {old,new,needs,breaks}: makes patch.diff and meta.json from an edit."""
import sys, json, os, subprocess, tempfile, shutil, difflib
def mk(id, prop, edits, needs, breaks):
    d = os.environ.get("SEEDED", "/verif/seeded") + "/" + id; os.makedirs(d, exist_ok=True)
    out = ""
    byf = {}
    for f, a, b in edits: byf.setdefault(f, []).append((a, b))
    for f, l in byf.items():
        s = open("/repo/" + f).read(); t = s
        for a, b in l:
            assert t.count(a) == 1, (id, f, t.count(a), a)
            t = t.replace(a, b)
        out += "".join(difflib.unified_diff(s.splitlines(True), t.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(out)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if not os.path.exists(d + "/demo.sh") and os.path.exists(d + "/demo.c"):
        open(d + "/demo.sh", "w").write(CDEMO)
CDEMO = '''#!/bin/bash
# builds demo.c against the library in /repo/_build and runs it on scratch files
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -w -I/repo/_build/include -I/repo/include -o "$T/demo" "$D/demo.c" -L/repo/_build/libparted/.libs -lparted -Wl,-rpath,/repo/_build/libparted/.libs || exit 99
"$T/demo" "$T"
'''
