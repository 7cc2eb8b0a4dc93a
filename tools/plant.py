"""Confirms planted bugs: tools/plant.py [--tests] ID...   (works in a scratch copy of /repo)

For each: the patch applies, the demo passes without and fails with it.  With --tests, all
the patches are applied together and the repository's tests are compared with the baseline.
"""
import json, os, shutil, subprocess, sys, tempfile
S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
args = sys.argv[1:]
tests = "--tests" in args
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(S))
W = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
R = os.path.join(W, "repo")
subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
subprocess.run(["cp", "-a", "/repo/raster_tools/.", R + "/raster_tools/"], check=True)
env = dict(os.environ, PYTHONPATH=R)


def demo(i):
    d = os.path.join(W, "demo-" + i)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(S, i), d)
    for f in os.listdir(d):
        if f.endswith((".diff", ".patch")) or f == "meta.json":
            os.remove(os.path.join(d, f))
    p = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=R, env=env, capture_output=True, text=True, timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-500:]


try:
    good = []
    for i in ids:
        pf = os.path.join(S, i, "patch.diff")
        a = demo(i)
        r = subprocess.run(["git", "apply", pf], cwd=R, capture_output=True, text=True)
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stderr[:300])
            continue
        b = demo(i)
        subprocess.run(["git", "apply", "-R", pf], cwd=R, check=True)
        ok = a[0] == 0 and b[0] != 0
        print(i, "ok" if ok else f"BAD without={a} with={b}", "" if not ok else b[1].strip().splitlines()[-1][:150])
        if ok:
            good.append(i)
    if tests:
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        for i in good:
            r = subprocess.run(["git", "apply", os.path.join(S, i, "patch.diff")], cwd=R, capture_output=True, text=True)
            if r.returncode:
                print("conflict", i)
        subprocess.run("find . -name '*.idx' -delete", shell=True, cwd=R)
        p = subprocess.run(". /opt/vp/env.sh; $PY -m pytest -q -p no:cacheprovider -n 8 --dist worksteal --timeout=300 "
                           "--continue-on-collection-errors --disable-warnings --basetemp=%s/tmp -o junit_family=xunit2 --junitxml=%s/j.xml | tail -40; "
                           "/usr/bin/python3 /opt/vp/results.py %s/out.json junit:%s/j.xml" % (W, W, W, W), shell=True, cwd=R, env=env, capture_output=True, text=True, executable="/bin/bash")
        print(p.stdout[-600:])
        out = json.load(open(W + "/out.json"))
        passed = set(out.get("passed", []))
        if base is not None:
            print("baseline tests not passing:", sorted(base - passed)[:15])
finally:
    shutil.rmtree(W, ignore_errors=True)
