"""Cost distance."""
import math

import numpy as np

from vt.enc import NONE, NPDT, enc_arr, enc_null, fixed_arr, grid, proj
from vt.func import rasters
from vt.harness import call
from vt.session import chunks3, real

TRACE = "CostTrace"
IMPORTS = ["distance", "distance.cost_distance"]
MODELS = [("MC_CostDistance", "MC_CostDistance.cfg", dict(workers=3)),
          ("MC_CostDistance", "MC_CostDistance_deep.cfg", dict(workers=3, tier="thorough")),
          ("MC_CostDistance", "MC_CostDistance_elev.cfg", dict(workers=3, tier="thorough"))]
GR = [[0.0, 0.0, 1.0, 1.0, None], [0.0, 40.0, 2.0, 2.0, "EPSG:5070"], [100.0, 50.0, 1.0, 3.0, "EPSG:3857"],
      [-8.0, 16.0, 0.5, 0.25, "EPSG:5070"], [0.0, 10.0, 4.0, 2.5, "EPSG:5070"]]
ERRORS = ["connectivity", "multiband", "elevation-bands", "elevation-shape", "source-shape", "source-float",
          "source-unmasked", "duplicates", "outside", "negative", "index-shape"]


def PLAN(tier):
    return dict(cases=320 if tier == "quick" else 14000, seconds=60 if tier == "quick" else 700)


def SHARD(c):
    if c["op"] == "error":
        return "f8-"
    return c["cdt"] + "-" + (c["edt"] or "")


def gen_cost(rng, dt, n):
    pool = [1, 2, 3, 12, 5, 0] if rng.random() < 0.6 else [0, 1, 1, 1]
    if dt[0] == "f":
        pool = pool + [0.5, 1.5]
    k = rng.randint(1, 4)
    vals = [rng.choice(pool) for _ in range(k)]
    d = [rng.choice(vals) for _ in range(n)]
    p = rng.choice([0, 0.1, 0.3, 0.45])
    bad = {"f": [-1, -0.5, "nan", "inf", -9999], "i": [-1, -7]}.get(dt[0], [])
    if bad:
        d = [rng.choice(bad) if rng.random() < p else v for v in d]
    return d


def generate(rng, k, tier):
    if k % 20 == 19:
        return dict(op="error", err=ERRORS[(k // 20) % len(ERRORS)])
    big = k % 40 == 7
    op = "numpy" if k % 4 == 1 else "raster"
    h, w = (rng.randint(11, 15), rng.randint(12, 15)) if big else (rng.randint(2, 6), rng.randint(2, 7))
    if op == "numpy" and rng.random() < 0.3:
        h, w = rng.choice([(1, w), (h, 1)])
    n = h * w
    masked = op == "raster" and rng.random() < 0.5
    dt = rng.choice(["u1", "i2", "i4", "f4", "f8"]) if masked else rng.choice(["u1", "f8", "f8"] + (["i4", "f4", "f8"] if k % 3 == 0 or tier != "quick" else []))
    d = gen_cost(rng, dt, n)
    nv = None
    if masked:
        nv = rng.choice({"u": [255, 0, 3], "i": [-99, 0, -1], "f": [-1, "nan", 0, -999999]}[dt[0]])
        p = rng.choice([0, 0.1, 0.3])
        d = [nv if rng.random() < p else v for v in d]
    g = rng.choice(GR)
    # what the core is compiled for
    cdt = "f8" if masked else dt
    c = dict(op=op, cdt=cdt, edt="", conn=rng.choice([4, 8, 8]), h=h, w=w, part=rng.choice(["all"] * 5 + ["one"]),
             r=dict(dt=dt, nv=nv, nb=1, h=h, w=w, d=d, m=None, g=g, c=chunks3(rng, 1, h, w), load=int(rng.random() < 0.3)))
    ns = n if rng.random() < 0.05 else rng.choice([0, 1, 1, 2, 2, 3, 5]) if not big else rng.choice([2, 150])
    cells = rng.sample(range(n), min(ns, n))
    bar = [v in ("nan", "inf") or v == nv or (not isinstance(v, str) and v < 0) for v in d]
    if op == "numpy":
        # a source on a barrier is only defined for rasters
        cells = [i for i in cells if not bar[i]]
    form = rng.choice(["raster", "raster", "index"]) if op == "raster" else "array"
    sdt = rng.choice(["u1", "i2", "i4", "i8"])
    snv = rng.choice([0, 255, 3] if sdt[0] == "u" else [0, -1, -9999, 3])
    vals = [v for v in ([0, 1, 2, 7, 200] if sdt[0] == "u" else [-5, 1, 2, 7, 30000, 0]) if v != snv]
    s = [snv] * n
    for i in cells:
        s[i] = rng.choice(vals)
    if form == "index" and not cells:
        form = "raster"
    c.update(form=form, snv=snv, sdt=sdt, s=s, cells=cells, sc=chunks3(rng, 1, h, w),
             iform=rng.choice(["list", "array", "tuples"]))
    if rng.random() < 0.5 and not big and (tier != "quick" or cdt in ("f8", "u1")):
        em = rng.random() < 0.5 and op == "raster"
        edt = rng.choice(["i2", "u1", "f4", "f8"] if em else ["i2", "f8"] if tier == "quick" else ["u1", "i2", "f4", "f8"])
        base = rng.choice([0, 100, -9999 if edt[0] != "u" else 7])
        env = {"u": 255, "i": -99, "f": rng.choice(["nan", -1])}[edt[0]] if em else None
        ep = [0, 1, 2, 5, 8] + ([0.5] if edt[0] == "f" else [])
        e = [base + rng.choice(ep) for _ in range(n)]
        if em:
            e = [env if rng.random() < 0.15 else v for v in e]
        elif edt[0] == "f" and rng.random() < 0.4:
            e = [rng.choice(["nan", "inf"]) if rng.random() < 0.1 else v for v in e]
        if op == "numpy":
            c["env"] = -77
            if rng.random() < 0.5 and edt != "u1":
                e = [-77 if rng.random() < 0.15 else v for v in e]
        c["edt"] = "f8" if em else edt
        c["e"] = dict(dt=edt, nv=env, nb=1, h=h, w=w, d=e, m=None, g=g, c=chunks3(rng, 1, h, w), load=0)
    if op == "numpy":
        c["scale"] = rng.choice([1.0, 2, [1.0, 1.0], [0.5, 1.25], [3, 2]])
    return c


def quarters(v):
    q = float(v) * 4
    assert q == int(q)
    return int(q)


def problem(case, cost, cmask, s, ry, rx, elev=None, emask=None):
    c = [NONE if m or not math.isfinite(v) or v < 0 else int(round(v * 2)) for v, m in zip(cost, cmask)]
    e = []
    if elev is not None:
        ok = [math.isfinite(v) and not m for v, m in zip(elev, emask)]
        base = min([v for v, o in zip(elev, ok) if o], default=0)
        e = [quarters(v - base) if o else NONE for v, o in zip(elev, ok)]
    return dict(h=case["h"], w=case["w"], conn=case["conn"], c=c, ry=quarters(ry), rx=quarters(rx), e=e, s=s)


def flat(r):
    return [float(v) for v in np.asarray(r.to_numpy()).ravel()], np.asarray(r.mask.compute()).ravel().tolist()


def execute(case):
    from raster_tools import distance as D
    from raster_tools.distance.cost_distance import cost_distance_analysis_numpy
    if case["op"] == "error":
        return error(case["err"])
    sol = dict(cd=[], tr=[], al=[], m=[])
    ev = dict(op=case["op"], exc="", nv=0, snv=0, agree=1, out={}, g=[], sol=sol)
    h, w = case["h"], case["w"]
    if case["op"] == "numpy":
        cost = np.array([real(v) for v in case["r"]["d"]], dtype=NPDT[case["r"]["dt"]]).reshape(h, w)
        src = np.array(case["s"]).reshape(h, w)
        kw = {}
        elev = None
        if "e" in case:
            elev = np.array([real(v) for v in case["e"]["d"]], dtype=NPDT[case["e"]["dt"]]).reshape(h, w)
            kw = dict(elevation=elev, elevation_null_value=case["env"])
        if case["scale"] != 1.0:
            kw["scaling"] = case["scale"]
        if case["conn"] != 8:
            kw["connectivity"] = case["conn"]
        res, exc = call(cost_distance_analysis_numpy, cost, src, case["snv"], **kw)
        ry, rx = case["scale"] if isinstance(case["scale"], list) else (case["scale"],) * 2
        s = [NONE if v == case["snv"] else v for v in case["s"]]
        ev["p"] = problem(case, cost.astype("f8").ravel().tolist(), [False] * (h * w), s, ry, rx,
                          None if elev is None else elev.astype("f8").ravel().tolist(),
                          None if elev is None else (elev == case["env"]).ravel().tolist())
        ev["exc"] = exc
        if not exc:
            cd, tr, al = res
            m = tr == -2
            ev["agree"] = int((np.isinf(cd) == m).all() and ((al == case["snv"]) == m).all())
            ev["sol"] = dict(cd=fixed_arr(np.where(m, 0, cd), 16384), tr=enc_arr(tr + 1), al=enc_arr(al), m=enc_arr(m))
        return [ev]
    r = rasters([case["r"]])[0]
    e = None
    if "e" in case:
        e = rasters([case["e"]])[0]
    s = [NONE if v == case["snv"] else v for v in case["s"]]
    if case["form"] == "raster":
        src = rasters([dict(case["r"], dt=case["sdt"], nv=case["snv"], d=case["s"], c=case["sc"])])[0]
        ev["snv"] = case["snv"]
    else:
        idx = [[i // w, i % w] for i in case["cells"]]
        src = {"list": idx, "array": np.array(idx), "tuples": tuple(map(tuple, idx))}[case["iform"]]
        s = [NONE] * (h * w)
        for k, i in enumerate(case["cells"]):
            s[i] = k
        ev["snv"] = -1
    ev["p"] = problem(case, *flat(r), s, case["r"]["g"][3], case["r"]["g"][2], *(flat(e) if e is not None else (None, None)))
    ev["g"] = grid(r)
    ev["nv"] = enc_null(r.null_value) if r.null_value is not None else -999999
    a = [r, src] + ([e] if e is not None else [])
    kw = {} if case["conn"] == 8 else dict(connectivity=case["conn"])

    def run():
        if case["part"] == "one":
            return [f(*a, **kw) for f in (D.cda_cost_distance, D.cda_traceback, D.cda_allocation)]
        return D.cost_distance_analysis(*a, **kw)
    res, exc = call(run)
    if not exc:
        outs, exc = call(lambda: [proj(x) for x in res])
    if not exc:
        cd, tr, al = outs
        m = cd["m"]
        v = np.asarray(res[0].to_numpy(), dtype="f8").ravel()
        ev["sol"] = dict(cd=fixed_arr(np.where(np.array(m, dtype=bool), 0, v), 16384), tr=tr["d"], al=al["d"], m=m)
        ev["out"] = dict(cd=cd, tr=tr, al=al)
    ev["exc"] = exc
    return [ev]


def error(err):
    from raster_tools import distance as D
    from raster_tools.raster import data_to_raster

    def mk(nb=1, h=3, w=4, dt="f8", nv=None, v=1):
        d = np.full((nb, h, w), v, dtype=dt)
        d[:, 0, 0] = 0
        return data_to_raster(d, x=np.arange(w) + 0.5, y=5.5 - np.arange(h), nv=nv)
    src = mk(dt="i4", nv=1)
    c, s, kw, want = mk(), src, {}, "ValueError"
    if err == "connectivity":
        kw = dict(connectivity=6)
    elif err == "multiband":
        c = mk(nb=2)
    elif err == "elevation-bands":
        kw = dict(elevation=mk(nb=2))
    elif err == "elevation-shape":
        kw = dict(elevation=mk(h=4))
    elif err == "source-shape":
        s = mk(dt="i4", nv=1, w=5)
    elif err == "source-float":
        s, want = mk(nv=1), "TypeError"
    elif err == "source-unmasked":
        s = mk(dt="i4")
    else:
        s = {"duplicates": [[0, 1], [1, 1], [0, 1]], "outside": [[0, 1], [3, 0]], "negative": [[-1, 0]],
             "index-shape": [[0, 1, 2]]}[err]
    _, exc = call(D.cost_distance_analysis, c, s, **kw)
    return [dict(op="error", err=err, want=want, exc=exc.split(":")[0])]
