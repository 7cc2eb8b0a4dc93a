"""Common driver of the checks.

A check module (checks/<id>.py) provides

  TRACE      name of the trace specification validating its events
  MODELS     list of (module, cfg, dict) of design models for TLC
  IMPORTS    raster_tools submodules to import before forking
  PLAN(tier) dict: cases (number of generated cases), seconds (cap)
  generate(rng, k, tier) -> case   (JSON value; k is the number of the case)
  execute(case) -> events          (list of JSON records; drives the real code)
  MODELCASES (optional) function (scratch, tier, seed) -> list of cases produced by TLC
             from the specification (behaviours to replay in the real code)

Every worker executes its share of the cases, writes the events to one trace
and has TLC validate it.  The verdict lists the failing events.
"""
import argparse, importlib, json, multiprocessing as mp, os, random, shutil, signal, sys, tempfile, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
from . import tlc  # noqa: E402


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


CRASHES = (signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)
CALL_LIMIT = int(os.environ.get("VT_CALL_LIMIT", "120"))


def call(f, *a, **k):
    """Runs a call into the library: (result, "") or (None, exception name)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CALL_LIMIT)
    try:
        return f(*a, **k), ""
    except Timeout:
        return None, "Timeout"
    except MemoryError:
        raise
    except Exception as e:  # noqa: BLE001
        if os.environ.get("VT_TRACEBACK"):
            traceback.print_exc()
        return None, type(e).__name__ + ": " + str(e)[:300]
    finally:
        signal.alarm(0)


def setup_library(imports):
    import warnings
    warnings.filterwarnings("ignore")
    sys.path.insert(0, REPO)
    import dask
    dask.config.set(scheduler="synchronous")
    import numpy as np
    np.seterr(all="ignore")
    import raster_tools
    where = os.path.realpath(raster_tools.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"raster_tools imported from {where}")
    for m in imports:
        importlib.import_module("raster_tools." + m)
    import logging
    logging.disable(logging.CRITICAL)


def _worker(parts, cases, wid, scratch, deadline, q):
    try:
        os.chdir(scratch)
        tmp = os.path.join(scratch, f"w{wid}")
        os.makedirs(tmp, exist_ok=True)
        os.environ["TMPDIR"] = tmp
        tempfile.tempdir = tmp
        res = dict(cases=0, events=0, skipped=0, fails=[], acts={}, samples=[], tlc={})
        owner = [[] for _ in parts]
        files = [open(os.path.join(scratch, f"trace{wid}-{k}.ndjson"), "w") for k in range(len(parts))]
        for pi, case in cases:
            if time.time() > deadline:
                res["skipped"] += 1
                continue
            cur = os.path.join(scratch, f"running{wid}.json")
            with open(cur + ".new", "w") as fh:
                json.dump([pi, case], fh)
            os.replace(cur + ".new", cur)
            evs = parts[pi].execute(case)
            res["cases"] += 1
            for ev in evs:
                files[pi].write(json.dumps(ev) + "\n")
                owner[pi].append((case, ev))
            if len(res["samples"]) < 2:
                res["samples"].append(case)
        for pi, part in enumerate(parts):
            files[pi].close()
            nev = len(owner[pi])
            res["events"] += nev
            if not nev:
                continue
            vp = os.path.join(scratch, f"verdict{wid}-{pi}.json")
            cfg = "SPECIFICATION Spec\n" + getattr(part, "TRACECFG", "")
            p = tlc.start(part.TRACE, cfg + "\n", scratch, env={"VT_TRACE": files[pi].name, "VT_VERDICT": vp},
                          heap="2500m", name=part.TRACE)
            v, st = tlc.verdict(p, vp, timeout=max(60, deadline + 600 - time.time()))
            if v["checked"] != nev:
                raise tlc.TLCError(f"trace of {nev} events, {v['checked']} checked")
            for a, n in v["acts"].items():
                res["acts"][a] = res["acts"].get(a, 0) + n
            for fl in v["fails"]:
                case, ev = owner[pi][fl["at"] - 1]
                res["fails"].append(dict(case=case, event=ev, clauses=sorted(fl["clauses"]), part=pi))
            for k in ("states", "transitions"):
                res["tlc"][k] = res["tlc"].get(k, 0) + st.get(k, 0)
        q.put((wid, res, None))
    except BaseException:  # noqa: BLE001
        q.put((wid, None, traceback.format_exc()))


def load_known(pid):
    """Known findings: list of dicts {property, match, what}."""
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid]


def shorten(x, n=1500):
    s = json.dumps(x)
    return s if len(s) <= n else s[:n] + "..."


def run_check(pid, tier, replay=None, only=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("checks." + pid)
    scratch = tempfile.mkdtemp(prefix=f"vt-{pid}-", dir="/tmp")
    try:
        return _run(mod, pid, tier, seed, scratch, t0, replay)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run(mod, pid, tier, seed, scratch, t0, replay):
    parts = getattr(mod, "PARTS", [mod])
    plans = [p.PLAN(tier) for p in parts]
    models = []
    seen = set()
    for part in parts:
        for name, cfg, kw in part.MODELS:
            kw = dict(kw)
            if replay or (name, cfg) in seen or (kw.pop("tier", "quick") == "thorough" and tier != "thorough"):
                continue
            seen.add((name, cfg))
            env = kw.pop("env", {})
            models.append((name + ("" if cfg == name + ".cfg" else f" ({cfg})"),
                           tlc.start(name, cfg, scratch, workers=kw.pop("workers", 2), env=env, **kw)))
    modelprocs = [None if replay or not hasattr(p, "MODELSTART") else p.MODELSTART(scratch, tier, seed) for p in parts]
    setup_library(sorted({m for p in parts for m in p.IMPORTS}))
    if replay:
        rp = json.load(open(replay))
        cases = [(rp.get("part", 0), rp["case"])]
        nmodel = 0
    else:
        cases = []
        for k, p in enumerate(parts):
            if hasattr(p, "FIXED"):
                cases += [(k, c) for c in p.FIXED(tier)]
        nfixed = len(cases)
        for k, p in enumerate(parts):
            if modelprocs[k] is not None:
                cases += [(k, c) for c in p.MODELCASES(modelprocs[k], tier)]
        nmodel = len(cases) - nfixed
        for pi, p in enumerate(parts):
            for k in range(plans[pi]["cases"]):
                rng = random.Random(f"{pid}/{seed}/{pi}/{k}")
                cases.append((pi, p.generate(rng, k, tier)))
    workers = min(plans[0].get("workers", 7), max(1, len(cases)))
    # cases that compile the same code go to the same worker
    groups = {}
    for n, (pi, c) in enumerate(cases):
        f = getattr(parts[pi], "SHARD", None)
        groups.setdefault((pi, f(c)) if f and f(c) is not None else n, []).append((pi, c))
    shares = [[] for _ in range(workers)]
    for g in sorted(groups.values(), key=len, reverse=True):
        min(shares, key=len).extend(g)
    deadline = time.time() + max(p["seconds"] for p in plans)
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    procs = []
    for w in range(workers):
        p = ctx.Process(target=_worker, args=(parts, shares[w], w, scratch, deadline, q))
        p.start()
        procs.append(p)
    results = {}
    errors = []
    while len(results) + len(errors) < workers:
        try:
            wid, res, err = q.get(timeout=5)
        except Exception:  # noqa: BLE001
            dead = [i for i, p in enumerate(procs) if not p.is_alive() and i not in results]
            if dead and q.empty():
                for i in dead:
                    cur = os.path.join(scratch, f"running{i}.json")
                    if -procs[i].exitcode in CRASHES and os.path.exists(cur):
                        # the code under test crashed the process
                        pi, case = json.load(open(cur))
                        ev = dict(op="crash", exc=signal.Signals(-procs[i].exitcode).name)
                        results[i] = dict(cases=1, events=1, skipped=0, acts={}, samples=[], tlc={},
                                          fails=[dict(case=case, event=ev, clauses=["crashed"], part=pi)])
                    else:
                        errors.append(f"worker {i} died with exit code {procs[i].exitcode}")
                if errors:
                    break
            continue
        if err:
            errors.append(err)
        else:
            results[wid] = res
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.kill()
    states = transitions = 0
    modelrep = []
    for name, p in models:
        ok, text, st = tlc.finish(p, timeout=800)
        modelrep.append(dict(module=name, ok=ok, **st))
        states += st.get("states", 0)
        transitions += st.get("transitions", 0)
        if not ok:
            errors.append(f"design model {name} failed:\n" + text[-3000:])
    if errors:
        for e in errors[:1]:
            print(e[-3500:], file=sys.stderr)
        print(f"MACHINERY-ERROR property={pid}")
        return 2
    fails = [f for r in results.values() for f in r["fails"]]
    known = load_known(pid)
    hit = {}
    viol = []
    for f in fails:
        kf = None
        for j, k in enumerate(known):
            if hasattr(mod, "is_known") and mod.is_known(k, f):
                kf = j
                break
        if kf is None:
            viol.append(f)
        else:
            hit.setdefault(kf, f)
    for j, k in enumerate(known):
        if not replay:
            print(f"KNOWN-FINDING: property={pid} {k['what']}" + ("" if j in hit else " (not met in this run)"))
    acts = {}
    for r in results.values():
        for a, n in r["acts"].items():
            acts[a] = acts.get(a, 0) + n
    nev = sum(r["events"] for r in results.values())
    ncase = sum(r["cases"] for r in results.values())
    skipped = sum(r["skipped"] for r in results.values())
    out = os.path.join(ROOT, "out")
    paths = []
    if viol:
        os.makedirs(out, exist_ok=True)
        seen = {}
        for f in viol:
            key = (f["event"].get("op", ""), tuple(f["clauses"]))
            seen.setdefault(key, []).append(f)
        for n, (key, fs) in enumerate(sorted(seen.items())):
            f = min(fs, key=lambda z: len(json.dumps(z["case"])))
            path = os.path.join(out, f"{pid}-{tier}-{n}.json")
            with open(path, "w") as fh:
                json.dump(dict(property=pid, part=f["part"], case=f["case"], event=f["event"], clauses=f["clauses"],
                               trace_spec=parts[f["part"]].TRACE, how=f"/verif/run.sh {pid} --replay {path}"), fh, indent=1)
            paths.append(path)
            if n < 8:
                print(f"  {len(fs)}x op={key[0]} clauses={','.join(key[1])} event={shorten(f['event'], 700)}")
        print(f"VIOLATION property={pid} replay={paths[0]}")
    wall = time.time() - t0
    print(f"{pid} {tier}: {ncase} cases, {nev} events validated, {len(viol)} violating, "
          f"models {[(m['module'], m.get('states')) for m in modelrep]}, skipped {skipped}, {wall:.1f}s; {acts}")
    if not replay:
        man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
        lev = [c["level"] for c in man["checks"] if c["property"] == pid] or ["model_checking"]
        ev = dict(property=pid, tier=tier, seed=seed, level=lev[0],
                  coverage=dict(states=states, transitions=transitions, design_models=modelrep,
                                trace_specs=sorted({p.TRACE for p in parts}),
                                traces_validated_against_impl=ncase, events_validated=nev, cases_from_model=nmodel,
                                cases_skipped_for_time=skipped, actions=acts,
                                samples=[json.loads(json.dumps(s)) if len(json.dumps(s)) < 3000 else shorten(s, 1000)
                                         for r in results.values() for s in r["samples"][:1]][:3]),
                  wall_s=round(wall, 2),
                  assumptions=getattr(mod, "ASSUMPTIONS", []),
                  violations=len(viol))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    return 1 if viol else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    sys.exit(run_check(a.property, a.tier, a.replay))
