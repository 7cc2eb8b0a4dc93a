#!/usr/bin/env python3
"""Shows the events of the violations last written: tools/showfail.py C16 [keys...]"""
import glob, json, sys
for f in sorted(glob.glob(f"out/{sys.argv[1]}-quick-*.json")):
    d = json.load(open(f))
    e = d["event"]
    ks = sys.argv[2:] or e.keys()
    print(f, d["clauses"])
    for k in ks:
        if k in e:
            print("  ", k, json.dumps(e[k])[:700])
