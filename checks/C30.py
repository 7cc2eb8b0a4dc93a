"""Length of lines within a radius, split in two ways."""
import math

import numpy as np

from vt.enc import dtc, enc, enc_crs
from vt.func import rasters
from vt.harness import call
from vt.session import chunks3, raster_spec

TRACE = "LineTrace"
IMPORTS = ["line_stats", "vector"]
MODELS = [("MC_LineStats", "MC_LineStats.cfg", dict(workers=2)), ("MC_LineStats", "MC_LineStats_deep.cfg", dict(workers=4, tier="thorough"))]
ERRORS = ["radius-type", "radius-zero", "radius-negative", "no-crs", "points", "polygons", "field", "field-type", "field-text"]
EMPTY = dict(v=[], m=[], dt="", nb=0, g=[], crs=0)


def PLAN(tier):
    return dict(cases=130 if tier == "quick" else 4000, seconds=60 if tier == "quick" else 700)


def split(rng, n):
    """How features and cells are split."""
    return dict(form=rng.choice(["gdf", "dask"]), parts=rng.randint(1, 3), verts=rng.choice([None, None, 2, 3]), batch=rng.choice([None, None, 1, 2, 3]))


def generate(rng, k, tier):
    if k % 20 == 19:
        return dict(err=ERRORS[(k // 20) % len(ERRORS)])
    h, w = rng.randint(1, 7), rng.randint(1, 7)
    rx, ry = rng.choice([(1, 1), (1, 1), (2, 1), (1, 3), (0.5, 0.5), (10, 10)])
    g = [rng.choice([0, 100, -50]), rng.choice([0, 40, 1000]), rx, ry, "EPSG:5070"]
    r = raster_spec(rng, dt=rng.choice(["i4", "f8", "u1", "f4"]), shape=(rng.choice([1, 1, 2]), h, w), g=g, nan_ok=False)
    x0, x1, y0, y1 = g[0], g[0] + w * rx, g[1] - h * ry, g[1]
    step = rng.choice([0.5, 0.25, 1, 0.3])
    s = max(rx, ry)
    cx, cy = rng.uniform(x0, x1), rng.uniform(y0, y1)
    far = rng.choice([0.2, 1, 3])

    def pt():
        if rng.random() < 0.6:
            return [x0 + step * rx * rng.randint(-3, int(w / step) + 3), y1 - step * ry * rng.randint(-3, int(h / step) + 3)]
        return [round(cx + rng.uniform(-1, 1) * far * s * 2, 2), round(cy + rng.uniform(-1, 1) * far * s * 2, 2)]
    feats = []
    for _ in range(rng.choice([1, 1, 2, 3, 5, 8])):
        t = rng.choice(["line", "line", "line", "long", "multi", "ring", "same", "empty"])
        if t == "same" and feats:
            feats.append(feats[-1])
        elif t == "empty":
            feats.append(["line", []])
        elif t == "multi":
            feats.append(["multi", [[pt() for _ in range(rng.randint(2, 3))] for _ in range(rng.randint(2, 3))]])
        elif t == "ring":
            feats.append(["ring", [pt() for _ in range(3)]])
        else:
            feats.append(["line", [pt() for _ in range(rng.randint(5, 9) if t == "long" else rng.randint(2, 4))]])
    # lines that run along themselves have no clear length
    feats = [f for f in feats if not f[1] or simple(shape(f))]
    if not any(f[1] for f in feats):
        feats.append(["line", [[x0, y0], [x1, y1]]])
    n = len(feats)
    return dict(r=r, feats=feats, radius=rng.choice([0.3, 0.5, 1, 1, 1.5, 2.25, 4, 11]) * s, weight=rng.choice([None, None, "f8", "i4", "bool", "f4"]),
                w=[rng.choice([-3, -1, 0, 1, 1, 2, 5]) for _ in range(n)], crs=rng.choice([None, None, None, "EPSG:4326"]),
                a=split(rng, n), b=split(rng, n), chunks=chunks3(rng, r["nb"], h, w), method=0)


def shape(f):
    from shapely.geometry import LinearRing, LineString, MultiLineString
    return {"line": LineString, "multi": MultiLineString, "ring": LinearRing}[f[0]](f[1])


def simple(s):
    from shapely.ops import unary_union
    return abs(unary_union(s).length - s.length) < 1e-6


def bounds(f, r, radius):
    """Bounds on the lengths of a feature within the circle of each cell."""
    from shapely.geometry import Point
    s = shape(f)
    lo, hi = [], []
    for y in r.y:
        for x in r.x:
            p = Point(float(x), float(y))
            if s.is_empty or not s.is_valid or s.distance(p) > radius:
                lo.append(0)
                hi.append(0)
                continue
            # pieces of multi lines count one by one
            parts = getattr(s, "geoms", [s])
            lo.append(math.floor(1000 * sum(q.intersection(p.buffer(radius * math.cos(math.pi / 16) * 0.999, 32)).length for q in parts)))
            hi.append(math.ceil(1000 * sum(q.intersection(p.buffer(radius * 1.002, 32)).length for q in parts)))
    return lo, hi


def vector(case, sp, weight):
    import dask_geopandas as dgpd
    import geopandas as gpd

    from raster_tools import Vector
    d = {"n": list(range(len(case["feats"])))}
    if weight:
        d["wt"] = np.array(weight, dtype=case["weight"])
    g = gpd.GeoDataFrame(d, geometry=[shape(f) for f in case["feats"]], crs="EPSG:5070")
    if sp["form"] == "dask":
        g = dgpd.from_geopandas(g, npartitions=sp["parts"])
    v = Vector(g)
    return v.to_crs(case["crs"]) if case["crs"] else v


def out(r):
    d = np.asarray(r.data.compute() if hasattr(r.data, "compute") else r.data)
    m = np.asarray(r.mask.compute() if hasattr(r.mask, "compute") else r.mask)
    return dict(v=[int(round(1000 * float(q))) if np.isfinite(q) else 999999999 for q in d.ravel()], m=[int(q) for q in m.ravel()], dt=dtc(d.dtype), nb=int(d.shape[0]),
                g=grid(r), crs=enc_crs(r.crs))


def grid(r):
    return [enc(round(float(v) * 64)) for v in (r.x[0], r.x[-1], r.y[0], r.y[-1])] + [len(r.x), len(r.y)]


def execute(case):
    import raster_tools.line_stats as ls
    if "err" in case:
        return error(case["err"])
    r = rasters([case["r"]])[0]
    weight = None
    w = [1] * len(case["feats"])
    if case["weight"]:
        w = [int(bool(q)) if case["weight"] == "bool" else q for q in case["w"]]
        weight = w
    lh = [bounds(f, r, case["radius"]) for f in case["feats"]]
    n = len(r.x) * len(r.y)
    ev = dict(op="length", lo=[q[0] for q in lh], hi=[q[1] for q in lh], w=w, zero=[0] * n, g=grid(r), crs=enc_crs(r.crs), exc="", a=EMPTY, b=EMPTY, same=1)
    keep = np.array(r.data)

    def run(sp, like):
        old = ls.__dict__.get("VERTS_PER_GEOM_CUTOFF"), ls.__dict__.get("GEOM_BATCH_SIZE")
        try:
            if sp["verts"] and old[0] is not None:
                ls.VERTS_PER_GEOM_CUTOFF = sp["verts"]
            if sp["batch"] and old[1] is not None:
                ls.GEOM_BATCH_SIZE = sp["batch"]
            v = vector(case, sp, weight)
            return out(ls.length(v, like, case["radius"], "wt" if weight else None))
        finally:
            if old[0] is not None:
                ls.VERTS_PER_GEOM_CUTOFF = old[0]
            if old[1] is not None:
                ls.GEOM_BATCH_SIZE = old[1]
    for key, like in (("a", r), ("b", r.chunk(tuple(tuple(c) for c in case["chunks"])))):
        res, exc = call(run, case[key], like)
        if exc:
            ev["exc"] = exc
            break
        ev[key] = res
    ev["same"] = int(np.array_equal(keep, np.array(r.data), equal_nan=keep.dtype.kind == "f"))
    return [ev]


def error(kind):
    import geopandas as gpd
    from shapely.geometry import LineString, Point, box

    import raster_tools.line_stats as ls
    from raster_tools import Vector
    from raster_tools.raster import data_to_raster
    a = np.zeros((1, 3, 3))
    like = data_to_raster(a, x=np.arange(3.0), y=np.arange(3.0)[::-1], crs=None if kind == "no-crs" else "EPSG:5070")
    shp = Point(1, 1) if kind == "points" else box(0, 0, 1, 1) if kind == "polygons" else LineString([(0, 0), (1, 2)])
    v = Vector(gpd.GeoDataFrame({"a": [1], "t": ["x"]}, geometry=[shp], crs="EPSG:5070"))
    radius = {"radius-type": "1", "radius-zero": 0, "radius-negative": -2}.get(kind, 1)
    field = {"field": "nope", "field-type": 3, "field-text": "t"}.get(kind)
    want = "TypeError" if kind in ("radius-type", "points", "polygons", "field-type", "field-text") else "ValueError"
    _, exc = call(lambda: ls.length(v, like, radius, field))
    return [dict(op="error", exc=exc.split(":")[0], want=want)]
