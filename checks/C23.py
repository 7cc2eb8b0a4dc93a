"""Regions and polygons."""
import numpy as np

from vt.enc import DUMMY, NPDT, enc, fixed, proj
from vt.func import rasters, result
from vt.harness import call
from vt.session import raster_spec, real

TRACE = "RegionsTrace"
IMPORTS = ["general"]
MODELS = [("MC_Regions", "MC_Regions.cfg", dict(workers=2)),
          ("MC_Regions", "MC_Regions_values.cfg", dict(workers=2, tier="thorough")),
          ("MC_Regions", "MC_Regions_deep.cfg", dict(workers=3, tier="thorough"))]
GR = [[0.0, 0.0, 1.0, 1.0, None], [0.0, 40.0, 2.0, 2.0, "EPSG:5070"], [100.0, 50.0, 1.0, 2.0, "EPSG:3857"]]
ERRORS = ["regions-5", "regions-text", "regions-values", "polygons-5"]


def PLAN(tier):
    return dict(cases=300 if tier == "quick" else 9000, seconds=60 if tier == "quick" else 700)


def generate(rng, k, tier):
    if k % 30 == 29:
        return dict(op="error", err=ERRORS[(k // 30) % len(ERRORS)])
    op = "regions" if k % 5 < 3 else "polygons"
    dt = rng.choice(["u1", "i2", "i4", "i8", "u2", "u4", "u8", "i1", "f4", "f8", "b1"] + (["f2"] if op == "regions" else []))
    pool = {"b": [0, 1], "u": [0, 1, 2, 9], "i": [0, 1, 2, -5], "f": [0, 1, 2.5, -1]}[dt[0]]
    pool = rng.sample(pool, rng.randint(2, len(pool)))
    if op == "regions" and dt[0] == "f" and rng.random() < 0.2:
        pool.append(rng.choice(["nan", "inf"]))
    big = rng.random() < 0.25
    shape = (rng.choice([1, 1, 2]), rng.randint(2, 9 if big else 5), rng.randint(2, 9 if big else 6))
    r = raster_spec(rng, dt=dt, shape=shape, nan_ok=False, pool=pool, g=rng.choice(GR),
                    explicit=0.3 if op == "polygons" and dt in ["u1", "i1", "u2", "i2", "i4", "f4"] else 0.0)
    if rng.random() < 0.3:
        # long thin regions
        r["d"] = [v if v == r["nv"] or rng.random() < 0.5 else pool[0] for v in r["d"]]
        r["m"] = r["m"] if dt[0] != "f" else None
        if r["nv"] == "nan":
            r["m"] = None
    c = dict(op=op, r=r, conn=rng.choice([4, 8]), default=int(rng.random() < 0.3), vec=int(rng.random() < 0.3))
    if c["default"]:
        c["conn"] = 4
    if op == "regions" and rng.random() < 0.5:
        vals = [v for v in pool if not isinstance(v, str)] + [77]
        c["uv"] = [rng.choice(vals) for _ in range(rng.randint(1, 4))]
        c["uform"] = rng.choice(["list", "array", "tuple"])
    return c


def execute(case):
    from raster_tools import general
    if case["op"] == "error":
        return error(case["err"])
    r = rasters([case["r"]])[0]
    ev = dict(op=case["op"], r=proj(r), conn=case["conn"])
    kw = {} if case["default"] else dict(neighbors=case["conn"])
    if case["op"] == "regions":
        uv = case.get("uv")
        if uv is not None:
            kw["unique_values"] = {"list": list(uv), "array": np.array(uv), "tuple": tuple(uv)}[case["uform"]]
        out, exc = result(general.regions, r, **kw)
        return [dict(ev, exc=exc, out=out, has=int(uv is not None), uv=[enc(v) for v in uv or []])]
    rows, cols, crs = [], [], 0

    def run():
        f = r.to_vector(as_polygons=True, **kw) if case["vec"] else r.to_polygons(**kw)
        return f.compute()
    g, exc = call(run)
    if not exc:
        import shapely
        x0, y0, rx, ry, c = case["r"]["g"]
        xs, ys = np.meshgrid(x0 + rx * (np.arange(ev["r"]["w"]) + 0.5), y0 - ry * (np.arange(ev["r"]["h"]) + 0.5))
        cols = list(g.columns)
        crs = int(g.crs == r.crs)
        for v, b, geom in zip(g["value"], g["band"], g.geometry):
            inside = shapely.contains_xy(geom, xs.ravel(), ys.ravel())
            rows.append(dict(v=enc(v), band=int(b), cells=[int(i) + 1 for i in np.flatnonzero(inside)],
                             area=fixed(geom.area / (rx * ry), 64)))
    return [dict(ev, exc=exc, rows=rows, cols=cols, crs=crs)]


def error(err):
    from raster_tools import general
    from raster_tools.raster import data_to_raster
    r = data_to_raster(np.eye(3)[None], x=np.arange(3) + 0.5, y=2.5 - np.arange(3))
    want = "ValueError"
    if err == "regions-5":
        _, exc = call(general.regions, r, 5)
    elif err == "regions-text":
        _, exc = call(general.regions, r, "4")
        want = "TypeError"
    elif err == "regions-values":
        _, exc = call(general.regions, r, 4, 1)
        want = "TypeError"
    else:
        _, exc = call(r.to_polygons, 5)
    return [dict(op="error", err=err, want=want, exc=exc.split(":")[0])]
