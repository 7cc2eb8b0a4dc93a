"""tools/mkseed.py ID property 'file' <<< JSON {old,new,needs,breaks,demo}: writes seeded/ID from an edit."""
import json, os, subprocess, sys, difflib
i, prop = sys.argv[1:3]
d = json.load(sys.stdin) if len(sys.argv) < 4 else eval(open(sys.argv[3]).read())
S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", i)
os.makedirs(S, exist_ok=True)
patch = ""
files = {}
for f, old, new in d["edits"]:
    s = files.get(f) or open(os.path.join("/repo", f)).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    files[f] = s.replace(old, new)
for f, t in files.items():
    o = open(os.path.join("/repo", f)).read()
    patch += "".join(difflib.unified_diff(o.splitlines(1), t.splitlines(1), "a/" + f, "b/" + f))
open(S + "/patch.diff", "w").write(patch)
open(S + "/demo.sh", "w").write('#!/bin/bash\n. /opt/vp/env.sh\nexec "$PY" "$(dirname "$0")/demo.py"\n')
open(S + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\nimport numpy as np\nimport raster_tools as rts\nfrom raster_tools import *\n" + d["demo"])
json.dump(dict(property=prop, needs=d["needs"], what_it_breaks=d["breaks"]), open(S + "/meta.json", "w"), indent=1)
