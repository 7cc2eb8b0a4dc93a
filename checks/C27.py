"""Surface measures."""
import numpy as np

from checks._neigh import winargs  # noqa: F401
from vt.enc import DUMMY, enc_arr, fixed, proj
from vt.func import rasters, result
from vt.session import raster_spec

TRACE = "SurfaceTrace"
IMPORTS = ["surface"]
MODELS = [("MC_Surface", "MC_Surface.cfg", dict(workers=2)),
          ("MC_Surface", "MC_Surface_deep.cfg", dict(workers=4, tier="thorough"))]
OPS = ["slope", "aspect", "curvature", "hillshade", "northing", "easting", "surface_area_3d", "tpi"]


def PLAN(tier):
    return dict(cases=260 if tier == "quick" else 9000, seconds=70 if tier == "quick" else 700)


def SHARD(c):
    return c["op"] + ("t" if c["op"] == "tpi" else c["r"]["dt"])


def generate(rng, k, tier):
    op = OPS[k % len(OPS)]
    asp = int(op in ("northing", "easting") and rng.random() < 0.3)
    pool = [0, 1, 2, 3, 5, 9, 14, 20]
    dt = rng.choice(["u1", "i2", "i4", "f4", "f8", "f8"] + (["f2"] if k % 3 == 0 else []))
    if asp:
        pool = [0, 15, 30, 45, 90, 120, 180, 225, 270, 315, 345]
        dt = rng.choice(["f4", "f8", "i4"])
    elif rng.random() < 0.3:
        pool = rng.sample(pool, 3)
    res = rng.choice([(1, 1), (2, 2), (3, 4), (2, 1)])
    if op == "surface_area_3d":
        res = (res[0], res[0])
    r = raster_spec(rng, dt=dt, shape=(rng.choice([1, 1, 2]), rng.randint(2, 7), rng.randint(2, 7)), nan_ok=False,
                    explicit=0.0, g=[rng.choice([0.0, 12.0]), 24.0, float(res[0]), float(res[1]), "EPSG:5070"],
                    pool=pool)
    c = dict(op=op, r=r, rx=res[0], ry=res[1], asp=asp, az=rng.choice([21, 0, 3, 6, 10, 15, 18]),
             alt=rng.choice([3, 1, 2, 4, 6]), default=int(rng.random() < 0.3), deg=int(rng.random() < 0.5))
    if c["default"]:
        c.update(az=21, alt=3)
    if op == "tpi":
        a = rng.randint(0, 2)
        c["win"] = ["circle", rng.randint(1, 3)] if a == 0 else ["annulus", a, rng.randint(a + 1, 4)]
    return c


def execute(case):
    from raster_tools import surface as S
    op = case["op"]
    r = rasters([case["r"]])[0]
    ev = dict(op=op, r=proj(r), rx=case["rx"], ry=case["ry"], asp=case["asp"], az=case["az"], alt=case["alt"],
              win=case.get("win", ["circle", 1]))

    def pr(o):
        p = proj(o)
        d = np.asarray(o.to_numpy(), dtype="f8").ravel()
        m = np.asarray(o.mask.compute()).ravel()
        p["fill"] = enc_arr(np.where(m, np.asarray(o.to_numpy()).ravel(), 0))
        d = np.where(m, 0, d)
        sc = 1
        if op == "slope":
            sc = 256
            if case["deg"]:
                bad = (d < 0) | (d >= 90)
                d = np.where(bad, -99, np.tan(np.radians(d)))
        elif op == "aspect":
            sc = 16
        elif op in ("curvature", "surface_area_3d"):
            sc = 64
        elif op in ("northing", "easting"):
            sc = 4096
        p["v"] = [fixed(v, sc) for v in d.tolist()]
        with np.errstate(all="ignore"):
            p["s"] = [fixed(v, 4096) for v in np.sin(np.radians(d)).tolist()] if op == "aspect" else []
            p["c"] = [fixed(v, 4096) for v in np.cos(np.radians(d)).tolist()] if op == "aspect" else []
        del p["d"]
        return p
    if op == "slope":
        out, exc = result(S.slope, r, *([] if case["deg"] else [False]), pr=pr)
    elif op == "hillshade":
        out, exc = result(S.hillshade, r, *([] if case["default"] else [case["az"] * 15, case["alt"] * 15]), pr=pr)
    elif op in ("northing", "easting"):
        out, exc = result(getattr(S, op), r, *([True] if case["asp"] else []), pr=pr)
    elif op == "tpi":
        w = case["win"]
        out, exc = result(S.tpi, r, *((0, w[1]) if w[0] == "circle" else (w[1], w[2])), pr=pr)
    else:
        out, exc = result(getattr(S, op), r, pr=pr)
    if exc:
        out = dict(DUMMY, fill=[], v=[], s=[], c=[])
    return [dict(ev, exc=exc, out=out)]
