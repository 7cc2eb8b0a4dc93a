"""Neighbourhood operations: cases for Neighbour.tla."""
import numpy as np

from vt.enc import DUMMY, NPDT, enc_arr, enc_null, fixed, fixed_arr, proj
from vt.func import rasters, result
from vt.harness import call
from vt.session import GRIDS, raster_spec

SCALE = {"var": 64, "std": 64, "mean": 256, "median": 256, "asm": 4096, "entropy": 4096}
POOL = {"b1": [0, 1], "u1": [0, 1, 2, 3, 5, 7, 10, 100, 200, 254], "i1": [-100, -7, -2, -1, 0, 1, 2, 3, 5, 10, 100],
        "f2": [-7, -2, -1, 0, 1, 2, 3, 5, 10, 100]}
WIDE = [-100, -7, -2, -1, 0, 1, 2, 3, 4, 5, 6, 9, 10, 60, 100]


def pool(dt):
    return POOL.get(dt) or ([v for v in WIDE if v >= 0] if dt[0] == "u" else WIDE)


def projs(s):
    def f(r):
        o = proj(r)
        d, m = np.asarray(r.to_numpy()), np.asarray(r.mask.compute())
        o["fill"] = enc_arr(np.where(m, d, 0 if d.dtype.kind != "b" else False))
        with np.errstate(all="ignore"):
            o["d"] = [fixed(v, s) if not k else 0 for v, k in zip(d.ravel().tolist(), m.ravel().tolist())]
        return o
    return f


ALL = ["u1", "u2", "u4", "u8", "i1", "i2", "i4", "i8", "f2", "f4", "f8"]


def ras(rng, dts, shape=None, **k):
    dt = rng.choice(dts)
    p = pool(dt)
    if rng.random() < 0.4 and len(p) > 3:
        p = rng.sample(p, 3)      # repeated values: modes, distinct counts
    return raster_spec(rng, dt=dt, shape=shape, pool=p, nan_ok=False, explicit=0.0, g=rng.choice(GRIDS),
                       load=k.pop("load", None), **k)


def window(rng, h, w):
    k = rng.random()
    if k < 0.5:
        return ["rect", rng.randint(1, 5), rng.randint(1, 5)]
    if k < 0.75:
        return ["circle", rng.randint(1, 4)]
    a = rng.randint(1, 3)
    return ["annulus", a, rng.randint(a + 1, 4)]


def winargs(w):
    return {"rect": lambda: (w[1], w[2]), "circle": lambda: (w[1], None),
            "annulus": lambda: ((w[1], w[2]), None)}[w[0]]()


def gen_focal(rng):
    r = ras(rng, ALL, (rng.choice([1, 1, 2]), rng.randint(1, 7), rng.randint(1, 7)))
    return dict(op="focal", r=r, stat=rng.choice(["min", "max", "sum", "mean", "median", "mode", "var", "std", "unique",
                                                  "asm", "entropy"]),
                win=window(rng, r["h"], r["w"]), ign=int(rng.random() < 0.3))


def gen_corr(rng):
    r = ras(rng, [d for d in ALL], (rng.choice([1, 1, 2]), rng.randint(2, 7), rng.randint(2, 7)))
    kh, kw = rng.randint(1, 4), rng.randint(1, 4)
    f = rng.random() < 0.4
    k = [rng.choice([-2, -1, 0, 1, 2, 3]) for _ in range(kh * kw)]
    if f:
        k = [v / 2 for v in k]
    return dict(op=rng.choice(["correlate", "convolve"]), r=r, k=k, kh=kh, kw=kw, kf=int(f),
                mode=rng.choice(["constant", "constant", "reflect", "nearest", "wrap"]),
                cval=rng.choice([0, 0, 1, 4]))


def gen_morph(rng):
    r = ras(rng, [d for d in ALL if d != "f2"], (rng.choice([1, 1, 2, 3]), rng.randint(1, 7), rng.randint(1, 7)))
    while True:
        fh, fw = rng.randint(1, 5), rng.randint(1, 5)
        if fh * fw > 1:
            break
    return dict(op=rng.choice(["dilate", "erode"]), r=r, fh=fh, fw=fw, one=int(fh == fw and rng.random() < 0.5))


def gen_agg(rng):
    while True:
        ky, kx = rng.randint(1, 4), rng.randint(1, 4)
        if ky * kx > 1:
            break
    stat = rng.choice(["min", "max", "sum", "mean", "median", "mode", "var", "std", "unique", "asm", "entropy", "prod"])
    # compiling is what takes the time
    dts = ["u1", "i2", "i8", "f4", "f8"] if stat in JIT else [d for d in ALL if d != "f2"]
    r = ras(rng, dts, (rng.choice([1, 1, 2]), rng.randint(ky, 9), rng.randint(kx, 9)))
    return dict(op="aggregate", r=r, ky=ky, kx=kx, stat=stat)


def gen_local(rng):
    if rng.random() < 0.04:
        # as many bands as a byte counts
        r = ras(rng, ["i2", "f8"], (rng.choice([256, 257]), 1, 1))
        r["d"] = rng.sample(range(len(r["d"])), len(r["d"]))
        r["m"], r["nv"] = None, rng.choice([None, -1])
        return dict(op="local", r=r, stat=rng.choice(["unique", "unique", "maxband", "minband", "max"]))
    r = ras(rng, [d for d in ALL if d != "f2"], (rng.randint(1, 6), rng.randint(1, 4), rng.randint(1, 4)))
    return dict(op="local", r=r,
                stat=rng.choice(["min", "max", "sum", "mean", "median", "mode", "var", "std", "unique", "asm",
                                 "entropy", "prod", "minband", "maxband"]))


def gen_reduce(rng):
    r = ras(rng, ALL + ["b1"], (rng.randint(1, 3), rng.randint(1, 4), rng.randint(1, 4)))
    return dict(op="reduce", r=r, how=rng.choice(["method", "np"]),
                stat=rng.choice(["min", "max", "sum", "mean", "var", "std", "prod", "all", "any"]))


JIT = {"mode", "unique", "asm", "entropy", "minband", "maxband"}


def SHARD(c):
    if c["op"] == "focal":
        return c["stat"]
    if c["op"] in ("aggregate", "local") and c["stat"] in JIT:
        return c["stat"] + c["r"]["dt"] + str(c["r"]["nv"] is None)
    return None if c["op"] != "reduce" else c["stat"]


GEN = dict(focal=gen_focal, corr=gen_corr, morph=gen_morph, agg=gen_agg, local=gen_local, reduce=gen_reduce)


def execute(case):
    from raster_tools import focal as F
    from raster_tools import general as G
    op = case["op"]
    r = rasters([case["r"]])[0]
    ev = dict(op=op, stat=case.get("stat", ""), r=proj(r))
    s = SCALE.get(ev["stat"], 1)
    evs = []
    if op == "focal":
        a, b = winargs(case["win"])
        wout, wexc = call(F.get_focal_window, a, b)
        evs.append(dict(op="window", stat="", win=case["win"], exc=wexc,
                        out=dict(h=0, w=0, k=[]) if wexc else
                        dict(h=wout.shape[0], w=wout.shape[1], k=[int(v) for v in wout.ravel()])))
        out, exc = result(F.focal, r, ev["stat"], a, b, ignore_null=bool(case["ign"]), pr=projs(s))
        ev.update(win=case["win"], ign=case["ign"])
    elif op in ("correlate", "convolve"):
        kd = 2 if case["kf"] else 1
        s = kd
        k = np.array(case["k"], dtype=float if case["kf"] else int).reshape(case["kh"], case["kw"])
        ev.update(win=dict(h=case["kh"], w=case["kw"], k=[int(round(v * kd)) for v in case["k"]]), kf=case["kf"], kd=kd,
                  mode=case["mode"], cval=case["cval"])
        ev["nvk"] = 1
        out, exc = result(getattr(F, op), r, k, mode=case["mode"], cval=case["cval"], pr=projs(s))
    elif op in ("dilate", "erode"):
        ev.update(fh=case["fh"], fw=case["fw"])
        out, exc = result(getattr(G, op), r, case["fh"] if case["one"] else (case["fh"], case["fw"]))
    elif op == "aggregate":
        f = {}

        def run():
            f["r"] = G.aggregate(r, (case["ky"], case["kx"]), ev["stat"])
            return f["r"]
        out, exc = result(run, pr=projs(s))
        ev.update(ky=case["ky"], kx=case["kx"], xs=fixed_arr(r.x, 64 * 12), ys=fixed_arr(r.y, 64 * 12), crs=1, xo=[], yo=[])
        if not exc:
            o = f["r"]
            ev.update(xo=fixed_arr(o.x, 64 * 12), yo=fixed_arr(o.y, 64 * 12), crs=int(o.crs == r.crs))
    elif op == "local":
        out, exc = result(G.local_stats, r, ev["stat"], pr=projs(s))
    elif op == "reduce":
        def run():
            v = getattr(r, ev["stat"])() if case["how"] == "method" else getattr(np, ev["stat"])(r)
            return v.compute() if hasattr(v, "compute") else v
        q = np.asarray(r.to_numpy())[~np.asarray(r.mask.compute())]
        v, exc = call(run)
        if q.size == 0 and ev["stat"] in ("min", "max"):
            exc = ""     # whatever happens without valid cells
            v = 0
        evs.append(dict(ev, s=s, v=0 if exc else fixed(v, s), exc=exc))
        return evs
    if exc:
        out = dict(DUMMY, fill=[])
    evs.append(dict(ev, s=s, exc=exc, out=out))
    return evs


def make(kinds, quick, thorough):
    def PLAN(tier):
        return dict(cases=quick if tier == "quick" else thorough, seconds=70 if tier == "quick" else 700)

    def generate(rng, k, tier):
        return GEN[kinds[k % len(kinds)]](rng)
    return PLAN, generate
