"""Proximity, allocation and direction."""
import math

import numpy as np

from vt.enc import NONE, OTHER, enc, enc_arr, fixed, proj
from vt.func import rasters
from vt.harness import call
from vt.session import raster_spec, real

TRACE = "ProximityTrace"
IMPORTS = ["distance", "distance.proximity"]
MODELS = [("MC_Proximity", "MC_Proximity.cfg", dict(workers=2)),
          ("MC_Proximity", "MC_Proximity_deep.cfg", dict(workers=3, tier="thorough")),
          ("MC_Proximity", "MC_Proximity_metrics.cfg", dict(workers=2, tier="thorough"))]
NAMES = {"euclidean": [None, "euclidean"], "taxi": ["taxi", "taxicab", "manhatten", "city_block"],
         "chebyshev": ["chebyshev", "chessboard"], "circle": ["haversine", "great_circle"]}
COMBOS = {"euclidean": [("i4", 0, 0, 0), ("u1", 1, 1, 0), ("f8", 0, 1, 0)], "taxi": [("u1", 0, 1, 1), ("f4", 1, 0, 0)],
          "chebyshev": [("i4", 0, 1, 0), ("f8", 1, 0, 0)], "circle": [("i4", 0, 1, 0), ("f8", 1, 0, 0)]}
ERRORS = ["metric", "zero-max", "negative-max", "nan-target", "inf-target", "nested-targets", "latitude", "longitude"]


def is_known(k, f):
    return f["clauses"] == k["match"]["clauses"]


def FIXED(tier):
    # the known finding
    return [dict(op="prox", met="euclidean", name="euclidean", mx=None, tv=None, double=1, how="all", tform="list",
                 r=dict(dt="f8", nv=None, nb=1, h=3, w=4, d=[0, 0, 0, 1, 0, 0, 1, 0, 1, 1, 0, 1], m=None,
                        g=[0.0, 10.0, 1.0, 2.0, None], c=None, load=0))]


def PLAN(tier):
    return dict(cases=360 if tier == "quick" else 12000, seconds=60 if tier == "quick" else 700)


def SHARD(c):
    if c["op"] == "error":
        return None
    r = c["r"]
    return r["dt"] + str(int(r["nv"] is not None)) + c["met"] + str(c["double"])


def generate(rng, k, tier):
    if k % 24 == 23:
        return dict(op="error", err=ERRORS[(k // 24) % len(ERRORS)])
    met = ["euclidean", "euclidean", "taxi", "chebyshev", "circle"][k % 5]
    h, w = rng.randint(2, 7), rng.randint(2, 8)
    if tier != "quick" and rng.random() < 0.2:
        h, w = rng.randint(6, 13), rng.randint(6, 13)
    # every combination of types compiles code of its own
    dt, masked, double, tint = rng.choice(COMBOS[met]) if tier == "quick" else \
        (rng.choice(["u1", "i1", "i2", "u2", "i4", "i8", "f2", "f4", "f8"]), rng.random() < 0.4, int(rng.random() < 0.5),
         rng.random() < 0.5)
    res = rng.choice([(1.0, 1.0), (2.0, 2.0), (1.0, 2.0), (3.0, 1.0), (0.5, 0.75)])
    g = [rng.choice([0.0, -6.0, 100.0]), rng.choice([10.0, 40.0]), res[0], res[1], rng.choice([None, "EPSG:5070"])]
    if met == "circle":
        g = [rng.choice([-100.0, 10.0, 170.0]), rng.choice([10.0, 50.0, 80.0]), 0.5, 0.25, "EPSG:4326"]
    chunks = rng.random() < 0.6
    nb = 2 if k % 9 == 0 else 1
    n = nb * h * w
    r = raster_spec(rng, dt=dt, shape=(nb, h, w), masked=masked, g=g, pool=[0, 0, 7], chunks=chunks, explicit=0.3)
    # at most two targets where several could hide one another
    few = met == "circle" or (met == "euclidean" and chunks)
    vals = [1, 2, 3, 250] if dt[0] == "u" else [1, 2, -3, 90] + ([2.5] if dt[0] == "f" else [])
    if dt == "u1" and rng.random() < 0.1:
        vals.append(255)
    tv = None if rng.random() < 0.5 else rng.sample(vals + [0, 1.5, 55], rng.randint(1, 3))
    if tv is not None:
        tv = [int(v) for v in tv] if tint else [float(v) for v in tv]
    if few and tv and 0 in tv:
        tv.remove(0)
        tv = tv or [1 if tint else 1.0]
    d = [real(r["nv"]) if masked and rng.random() < 0.15 else 0 if tv is None or rng.random() < 0.8 else 77 for _ in range(n)]
    if dt[0] == "f":
        d = [rng.choice(["nan", "inf", "-inf"]) if rng.random() < 0.05 else v for v in d]
    d = ["nan" if isinstance(v, float) and v != v else v for v in d]
    for b in range(nb):
        nt = rng.randint(0, 2) if few else rng.choice([0, 1, 2, 3, 5, h * w // 2])
        for i in rng.sample(range(h * w), min(nt, h * w)):
            d[b * h * w + i] = rng.choice(vals)
    if few and masked and r["m"] is not None:
        r["m"] = None
    if few and masked:
        # a null value of no other cell can become a target
        pass
    r["d"] = d
    if r["m"] is not None:
        r["m"] = [int(rng.random() < 0.2 or v == "nan") for v in d]
    mx = rng.choice([None, None, 1.0, 2.0, 2.5, 3.0, 5.0, 0.5])
    if met == "circle":
        mx = rng.choice([None, None, 30000, 60000.0, 100000])
    return dict(op="prox", r=r, met=met, name=rng.choice(NAMES[met]), mx=mx, tv=tv, double=double,
                how=rng.choice(["each", "all", "default"]),
                tform=rng.choice(["list", "array", "tuple"] + (["scalar"] if tv and len(tv) == 1 else [])))


def table(case):
    g, h, w = case["r"]["g"], case["r"]["h"], case["r"]["w"]
    lat = [math.radians(g[1] - g[3] * (i + 0.5)) for i in range(h)]
    out = []
    for a in lat:
        row = []
        for b in lat:
            line = []
            for c in range(w):
                dl = math.radians(g[2] * c)
                # angle between the unit vectors
                va = (math.cos(a), 0.0, math.sin(a))
                vb = (math.cos(b) * math.cos(dl), math.cos(b) * math.sin(dl), math.sin(b))
                cr = (va[1] * vb[2] - va[2] * vb[1], va[2] * vb[0] - va[0] * vb[2], va[0] * vb[1] - va[1] * vb[0])
                dot = sum(p * q for p, q in zip(va, vb))
                line.append(round(6371009.0 * math.atan2(math.hypot(*cr), dot)))
            row.append(line)
        out.append(row)
    return out


def square(v):
    q = float(v) ** 2 * 16
    if not math.isfinite(q) or q > 1e8:
        return OTHER
    return round(q) if abs(q - round(q)) < 0.02 else OTHER


def execute(case):
    from raster_tools import distance as D
    if case["op"] == "error":
        return error(case["err"])
    s = case["r"]
    r = rasters([s])[0]
    pr = proj(r)
    circle = case["met"] == "circle"
    tab = table(case) if circle else []
    mx = case["mx"]
    if circle and mx is not None and any(abs(mx - d) <= 4 for a in tab for b in a for d in b):
        mx = None
    kw = {}
    if case["name"] != "euclidean" or case["how"] != "default":
        kw["distance_metric"] = case["name"]
    if mx is not None:
        kw["max_distance"] = mx
    tv = case["tv"]
    if tv is not None:
        kw["target_values"] = {"list": list(tv), "array": np.array(tv), "tuple": tuple(tv), "scalar": tv[0]}[case["tform"]]
    if case["double"]:
        kw["double_precision"] = True
    elif case["how"] == "each":
        kw["double_precision"] = False

    def run():
        if case["how"] == "all":
            return D.proximity_analysis(r, **kw)
        return D.pa_proximity(r, **kw), D.pa_direction(r, **kw), D.pa_allocation(r, **kw)
    res, exc = call(run)
    ry, rx = s["g"][3], s["g"][2]
    diag = math.inf if circle else {"euclidean": math.hypot, "taxi": lambda a, b: a + b,
                                    "chebyshev": max}[case["met"]](ry * (s["h"] - 1), rx * (s["w"] - 1))
    ev = dict(op="prox", exc=exc, r=pr, met=case["met"], ry=int(ry * 4), rx=int(rx * 4),
              mx=NONE if mx is None else int(mx) if circle else int(mx * mx * 16), tab=tab,
              tv=[] if tv is None else [enc(v) for v in tv], fdt="f8" if case["double"] else "f4",
              block=int(mx is None or mx >= diag or r.data.numblocks[1:] == (1, 1)), prox={}, dir={}, alloc={})
    if not exc:
        outs, exc = call(lambda: [proj(o) for o in res])
        ev["exc"] = exc
    if not exc:
        prox, dr, al = outs
        m = [np.array(o["m"], dtype=bool) for o in outs]
        v = np.asarray(res[0].to_numpy(), dtype="f8").ravel()
        prox["q"] = [0 if k else fixed(x, 1) if circle else square(x) for k, x in zip(m[0], v)]
        v = np.where(m[1], 0, np.asarray(res[1].to_numpy(), dtype="f8").ravel())
        dr["deg"] = [fixed(x, 16) if x <= 0 or x >= 0.0625 else 1 for x in v]
        dr["s"] = [fixed(math.sin(math.radians(x)), 4096) for x in v]
        dr["c"] = [fixed(math.cos(math.radians(x)), 4096) for x in v]
        for o in outs:
            o["fill"] = o["d"]
        del prox["d"], dr["d"]
        ev.update(prox=prox, dir=dr, alloc=al)
    return [ev]


def error(err):
    from raster_tools import distance as D
    from raster_tools.raster import data_to_raster

    def mk(x0=0, y0=5):
        d = np.zeros((1, 3, 4))
        d[0, 1, 1] = 1
        return data_to_raster(d, x=x0 + np.arange(4) + 0.5, y=y0 + 0.5 - np.arange(3))
    r, kw = mk(), {}
    if err == "metric":
        kw = dict(distance_metric="manhattan distance")
    elif err == "zero-max":
        kw = dict(max_distance=0)
    elif err == "negative-max":
        kw = dict(max_distance=-1)
    elif err == "nan-target":
        kw = dict(target_values=[1, math.nan])
    elif err == "inf-target":
        kw = dict(target_values=[math.inf])
    elif err == "nested-targets":
        kw = dict(target_values=[[1, 2], [3, 4]])
    elif err == "latitude":
        r, kw = mk(y0=91), dict(distance_metric="haversine")
    elif err == "longitude":
        r, kw = mk(x0=-190), dict(distance_metric="great_circle")
    evs = []
    for f in (D.pa_proximity, D.pa_direction, D.pa_allocation, D.proximity_analysis):
        _, exc = call(f, r, **kw)
        evs.append(dict(op="error", err=err, want="ValueError", exc=exc.split(":")[0]))
    return evs
