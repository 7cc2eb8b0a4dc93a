"""Writes /verif/known_findings.json; the fixed list is taken from the fix: commits of /repo."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [("reclassify no longer replaces None", ["C03", "C06"]), ("to_polygons no longer zeroes", ["C03"]), ("batch ", ["C25"]),
        ("set_null_value(nan)", ["C02"]), ("where takes the null cells", ["C06"]), ("focal with ignore_null", ["C11"]),
        ("focal statistics and correlation work", ["C11", "C12"]), ("focal min, max and sum use the same", ["C11"]),
        ("focal min and max do not repeat", ["C11"]), ("focal sum no longer", ["C11"]),
        ("statistics of masked 8-bit", ["C14", "C15"]), ("cost distance accepts", ["C20"]), ("astype honors", ["C02"]),
        ("ufuncs with two outputs", ["C01"]), ("burn_mask keeps", ["C02"]), ("astype accepts", ["C02"]),
        ("reclassify maps float", ["C06"]), ("remap_range handles", ["C06"]), ("mosaic sums", ["C07"]),
        ("the intersection of grids", ["C05", "C07"])]
EXTRA = json.load(open(os.path.join(ROOT, "tools", "fixmap.json"))) if os.path.exists(os.path.join(ROOT, "tools", "fixmap.json")) else []
PROP += [(a, b) for a, b in EXTRA]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
fixed = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    s = s[4:].strip()
    ps = [p for pre, p in PROP if s.startswith(pre)]
    if not ps:
        print("no property for", s)
        continue
    for p in ps[0]:
        fixed.append(f"fixed: property={p} {h} {s}")
f = os.path.join(ROOT, "known_findings.json")
old = json.load(open(f)) if os.path.exists(f) else dict(findings=[])
json.dump(dict(findings=old["findings"], fixed=fixed), open(f, "w"), indent=1)
print(len(fixed), "fixed,", len(old["findings"]), "findings")
