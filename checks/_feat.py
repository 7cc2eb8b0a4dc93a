"""Features on rasters: cases for Features.tla."""
import math

import numpy as np

from checks._neigh import SCALE
from vt.enc import DUMMY, NPDT, dtc, enc, enc_null, fixed, fixed_arr, proj
from vt.func import rasters, result
from vt.harness import call
from vt.session import GRIDS, jv, raster_spec, real

U = 8


# ---- generation: vertices are odd numbers of units, so never on a cell border
def odd(rng, n):
    return 2 * rng.randint(-3, (n * U) // 2 + 2) + 1


def hull(pts):
    pts = sorted(set(pts))
    if len(pts) < 3:
        return None

    def half(ps):
        out = []
        for p in ps:
            while len(out) > 1 and ((out[-1][0] - out[-2][0]) * (p[1] - out[-2][1])
                                    - (out[-1][1] - out[-2][1]) * (p[0] - out[-2][0])) <= 0:
                out.pop()
            out.append(p)
        return out[:-1]
    h = half(pts) + half(pts[::-1])
    return h if len(h) >= 3 else None


def al(rng, n):
    return U * rng.randint(-1, n + 1)


def gen_part(rng, h, w, kinds, aligned=False):
    k = rng.choice(kinds)
    if k == "point":
        return dict(k=k, v=[[odd(rng, w), odd(rng, h)]])
    if k == "line":
        while True:
            v = [[odd(rng, w), odd(rng, h)] for _ in range(rng.randint(2, 4))]
            if all(a != b for a, b in zip(v, v[1:])):
                return dict(k=k, v=v)
    if k == "rect":
        f = al if aligned else odd
        x0, x1 = f(rng, w), f(rng, w)
        y0, y1 = f(rng, h), f(rng, h)
        x0, x1 = min(x0, x1), max(x0, x1) + (8 if x0 == x1 else 0)
        y0, y1 = min(y0, y1), max(y0, y1) + (8 if y0 == y1 else 0)
        v = [[x0, y0], [x1, y0], [x1, y1], [x0, y1]]
        return dict(k="poly", v=v[::-1] if rng.random() < 0.5 else v)
    while True:
        v = hull([(odd(rng, w), odd(rng, h)) for _ in range(rng.randint(3, 6))])
        if v:
            v = [list(p) for p in v]
            return dict(k="poly", v=v[::-1] if rng.random() < 0.5 else v)


def gen_feature(rng, h, w, kinds=("rect", "poly", "line", "point"), aligned=False):
    if rng.random() < 0.15:
        k = rng.choice([x for x in kinds if x != "rect"] or ["rect"])
        parts = [gen_part(rng, h, w, ["rect" if k == "rect" else k]) for _ in range(2)]
        if parts[0]["k"] == "poly" and not shape_of(parts, [0, 0, 1, 1]).is_valid:
            parts = parts[:1]
        return parts
    # some rectangles on cell borders
    return [gen_part(rng, h, w, kinds, aligned and rng.random() < 0.3)]


def shape_of(parts, g):
    import shapely.geometry as S
    x0, y0, rx, ry = g[:4]
    if parts is None:
        return None

    def pts(v):
        return [(x0 + x * rx / U, y0 - y * ry / U) for x, y in v]
    if not parts:
        return S.Polygon()
    k = parts[0]["k"]
    one = dict(point=lambda v: S.Point(*pts(v)), line=lambda v: S.LineString(pts(v)), poly=lambda v: S.Polygon(pts(v)))[k]
    out = [one(p["v"]) for p in parts]
    if len(out) == 1:
        return out[0]
    return dict(point=S.MultiPoint, line=S.MultiLineString, poly=S.MultiPolygon)[k](out)


def frame(case, g, crs):
    """The features as the kind of table asked for."""
    import dask_geopandas as dgpd
    import geopandas as gpd
    from raster_tools import Vector
    geoms = [shape_of(p, g) for p in case["f"]]
    cols = dict(extra=list(range(len(geoms))))
    if case.get("field"):
        cols["val"] = np.array([real(v) for v in case["fv"]], dtype=NPDT[case["field"]])
    df = gpd.GeoDataFrame(cols, geometry=geoms, crs=crs, index=case.get("index"))
    form = case["form"]
    if form == "gdf":
        return df
    d = dgpd.from_geopandas(df, npartitions=min(case["np"], len(df)))
    if case.get("spatial"):
        d.calculate_spatial_partitions()
    return d if form == "dgdf" else Vector(d)


def gen_frame(rng, h, w, kinds=("rect", "poly", "line", "point"), n=None, empties=True,
              aligned=False):
    n = n or rng.choice([1, 1, 2, 3, 4, 6])
    f = [gen_feature(rng, h, w, kinds, aligned) for _ in range(n)]
    if empties and rng.random() < 0.1:
        f[rng.randrange(n)] = []
    c = dict(f=f, form=rng.choice(["gdf", "dgdf", "vector", "vector"]), np=rng.choice([1, 1, 2, 3]),
             spatial=int(rng.random() < 0.4))
    if rng.random() < 0.2:
        c["index"] = sorted(rng.sample(range(30), n))
    if rng.random() < 0.6:
        dt = rng.choice(["u1", "i2", "i4", "i8", "f4", "f8"])
        pool = [1, 2, 3, 7, 100] + ([-1, -5, 0] if dt[0] != "u" else [0]) + (["nan", "nan"] if dt[0] == "f" else [])
        c.update(field=dt, fv=[rng.choice(pool) for _ in range(n)])
    return c


def values(case):
    """Value of every feature."""
    if case.get("field"):
        return [enc(NPDT[case["field"]].type(real(v))) for v in case["fv"]]
    idx = case.get("index") or list(range(len(case["f"])))
    return [i + 1 for i in idx]


def ras(rng, dts=("u1", "i2", "i4", "i8", "f4", "f8"), nb=None, lo=2, hi=7, crs=None, pool=(1, 2, 3, 5, 7, 10, 0)):
    g = rng.choice([q for q in GRIDS if crs is None or q[4]])
    return raster_spec(rng, dt=rng.choice(dts), shape=(nb or rng.choice([1, 1, 2]), rng.randint(lo, hi), rng.randint(lo, hi)),
                       pool=list(pool), nan_ok=False, explicit=0.0, g=g)


def gen_rasterize(rng):
    r = ras(rng)
    c = gen_frame(rng, r["h"], r["w"], aligned=True)
    c.update(op="rasterize", r=r, method=rng.choice(["first", "last", "min", "max"]), touched=int(rng.random() < 0.6),
             mask=int(rng.random() < 0.2), aware=int(rng.random() < 0.3), null=None, meth=int(rng.random() < 0.5))
    c["invert"] = int(c["mask"] and rng.random() < 0.5)
    if not c["mask"] and rng.random() < 0.3:
        c["null"] = rng.choice([0, 99, 200] if c.get("field", "i8")[0] == "u" else [-1, 0, -99, 99]
                               + (["nan"] * 2 if c.get("field", "i8")[0] == "f" else []))
    return c


def gen_clip(rng):
    r = ras(rng, crs=1, hi=8, dts=["u1", "i2", "i4", "i8", "f4", "f8", "b1"], pool=(0, 1)) if rng.random() < 0.1 else ras(rng, crs=1, hi=8)
    c = gen_frame(rng, r["h"], r["w"], n=rng.choice([1, 1, 2, 3]), empties=False)
    c.pop("field", None)
    c.update(op=rng.choice(["clip", "clip", "erase", "mask", "mask", "envelope"]), r=r, bounds=[], inv=0)
    c["meth"] = int(rng.random() < 0.3)
    if c["op"] == "mask":
        c["inv"] = int(rng.random() < 0.5)
    elif c["op"] == "erase":
        c["inv"] = 1
    if c["op"] in ("clip", "erase") and rng.random() < 0.4:
        p = gen_part(rng, r["h"], r["w"], ["rect"])["v"]
        c["bounds"] = [min(q[0] for q in p), min(q[1] for q in p), max(q[0] for q in p), max(q[1] for q in p)]
    return c


ZST = ["asm", "count", "entropy", "max", "mean", "median", "min", "mode", "nunique", "prod", "size", "std", "sum", "var"]


def gen_zonal(rng):
    r = ras(rng, nb=rng.choice([1, 1, 2, 3]), hi=7)
    kind = rng.choice(["raster", "vector"])
    c = dict(f=[], form="", np=1)
    if kind == "vector":
        c = gen_frame(rng, r["h"], r["w"], kinds=("rect", "rect", "poly"), n=rng.choice([1, 2, 3, 4]), empties=False)
        c["spatial"] = 0
        if c.get("field") and c["field"][0] == "f":
            c["field"] = "i4"
            c["fv"] = [v if isinstance(v, int) else 4 for v in c["fv"]]
        if c.get("field"):
            c["fv"] = [v or 9 for v in c["fv"]]
    c.update(op="zonal", kind=kind, r=r, stats=rng.sample(ZST, rng.choice([1, 2, 3, 4])), wide=int(rng.random() < 0.6),
             overlap=int(kind == "vector" and rng.random() < 0.4))
    if kind == "raster":
        z = raster_spec(rng, dt=rng.choice(["u1", "i2", "i4", "i8"]), shape=(1, r["h"], r["w"]), pool=[0, 1, 2, 5, 9],
                        nan_ok=False, explicit=0.0, g=r["g"])
        c["z"] = z
    if rng.random() < 0.1 and len(c["stats"]) == 1:
        c["str"] = 1
    return c


def gen_points(rng):
    r = ras(rng, nb=rng.choice([1, 1, 2, 3]), lo=2, hi=6, dts=["u1", "i1", "i2", "u2", "i4", "i8", "f4", "f8"])
    k = rng.choice(["extract", "extract", "topoints", "back"])
    c = dict(op=k, r=r)
    if k == "extract":
        n = rng.choice([1, 2, 4, 7])
        c.update(pts=[[odd(rng, r["w"]), odd(rng, r["h"])] for _ in range(n)], axis=rng.choice([0, 1]),
                 name=rng.choice(["extracted", "v"]), form=rng.choice(["gdf", "dgdf", "vector"]), np=rng.choice([1, 2, 3]),
                 skip=int(rng.random() < 0.5))
        c["f"] = [[dict(k="point", v=[p])] for p in c["pts"]]
    elif k == "back":
        r["nb"], r["d"] = 1, r["d"][:r["h"] * r["w"]]
        r["c"] = r["c"] and [[1]] + r["c"][1:]
    return c


GEN = dict(rasterize=gen_rasterize, clip=gen_clip, zonal=gen_zonal, points=gen_points)


def SHARD(c):
    if c["op"] == "rasterize" and not c["mask"] and c["np"] > 1:
        return c["method"]
    return None


def offset(r, out):
    """Row and column of the first cell of out in r."""
    g = r
    dx = float(g.x[1] - g.x[0])
    dy = float(g.y[1] - g.y[0])
    c = (float(out.x[0]) - float(g.x[0])) / dx
    w = (float(out.y[0]) - float(g.y[0])) / dy
    bad = -999999
    ok = abs(c - round(c)) < 1e-6 and abs(w - round(w)) < 1e-6
    ok = ok and (len(out.x) < 2 or np.allclose(np.diff(out.x), dx)) and (len(out.y) < 2 or np.allclose(np.diff(out.y), dy))
    return (round(w), round(c)) if ok else (bad, bad)


def execute(case):
    from raster_tools import clipping, rasterize, zonal
    op = case["op"]
    g = case["r"]["g"]
    r = rasters([case["r"]])[0]
    pr = proj(r)
    crs = g[4]
    ev = dict(op=op, f=case.get("f", []), r=pr)
    if op == "rasterize":
        v = frame(case, g, crs)
        kw = dict(overlap_resolve_method=case["method"], mask=bool(case["mask"]), mask_invert=bool(case["invert"]),
                  null_value=case["null"] if case["null"] is None else real(case["null"]), all_touched=bool(case["touched"]), use_spatial_aware=bool(case["aware"]))
        if case.get("field"):
            kw["field"] = "val"
        if case["meth"] and case["form"] == "vector":
            out, exc = result(v.to_raster, r, **kw)
        else:
            out, exc = result(rasterize.rasterize, v, r, **kw)
        dt = "u1" if case["mask"] else case.get("field") or "i8"
        null = case["null"] if case["null"] is None else real(case["null"])
        if null is None:
            from raster_tools.masking import get_default_null_value
            null = get_default_null_value(NPDT[dt]) if case.get("field") else 0
        like = dict(h=pr["h"], w=pr["w"], g=pr["g"])
        return [dict(op=op, f=ev["f"], like=like, vals=values(case), null=enc_null(null), method=case["method"],
                     touched=case["touched"], mask=case["mask"], invert=case["invert"], dt=dt, out=out, exc=exc)]
    if op in ("clip", "erase", "mask", "envelope"):
        v = frame(case, g, crs)
        keep = {}
        kw = {}
        if op == "mask":
            kw["invert"] = bool(case["inv"])
        if case["bounds"]:
            x0, y0, x1, y1 = case["bounds"]
            kw["bounds"] = (g[0] + x0 * g[2] / U, g[1] - y1 * g[3] / U, g[0] + x1 * g[2] / U, g[1] - y0 * g[3] / U)

        def run():
            keep["o"] = getattr(clipping, op)(v, r, **kw)
            return keep["o"]
        out, exc = result(run)
        ro, co = (0, 0) if exc else offset(r, keep["o"])
        return [dict(ev, out=out, exc=exc, inv=case["inv"], bounds=case["bounds"], ro=ro, co=co,
                     crs=int(exc != "" or keep["o"].crs == r.crs))]
    if op == "zonal":
        if case["kind"] == "raster":
            z = rasters([case["z"]])[0]
            zp = proj(z)
        else:
            z, zp = frame(case, g, crs), DUMMY
        stats = case["stats"]
        sc = [SCALE.get(s, 1) for s in stats]
        kw = dict(wide_format=bool(case["wide"]))
        if case.get("field"):
            kw["features_field"] = "val"
        if case["overlap"]:
            kw["handle_overlap"] = True
        df, exc = call(lambda: zonal.zonal_stats(z, r, stats[0] if case.get("str") else stats, **kw).compute())
        cols, rows = [], []
        if not exc:
            if case["wide"]:
                cols = ["/".join(c) for c in df.columns]
                n = len(stats)
                rows = [dict(zone=enc(i), band=0, v=[fixed(x, sc[j % n]) for j, x in enumerate(vals)])
                        for i, vals in zip(df.index.tolist(), df.to_numpy(dtype=float).tolist())]
            else:
                cols = list(df.columns)
                rows = [dict(zone=enc(q[0]), band=int(q[1]), v=[fixed(x, s) for x, s in zip(q[2:], sc)])
                        for q in df.to_numpy(dtype=float).tolist()]
        return [dict(ev, kind=case["kind"], z=zp, vals=values(case) if case["kind"] == "vector" else [], stats=stats, sc=sc,
                     wide=case["wide"], overlap=case["overlap"], cols=cols, rows=rows, exc=exc)]
    if op == "extract":
        v = frame(case, g, crs)
        df, exc = call(lambda: zonal.extract_points_eager(v, r, column_name=case["name"], axis=case["axis"],
                                                          skip_validation=bool(case["skip"])).compute())
        rows = [] if exc else [[enc(x) for x in q] for q in df.to_numpy(dtype=float).tolist()]
        return [dict(ev, pts=case["pts"], axis=case["axis"], name=case["name"], cols=[] if exc else list(df.columns), rows=rows, exc=exc)]
    if op == "topoints":
        df, exc = call(lambda: r.to_points().compute())
        rows = []
        if not exc:
            for i, q in zip(df.index.tolist(), df.itertuples(index=False)):
                rows.append([enc(q.value), int(q.band), int(q.row), int(q.col), fixed((q.geometry.x - g[0]) * U / g[2], 1),
                             fixed((g[1] - q.geometry.y) * U / g[3], 1), int(i)])
        return [dict(ev, cols=[] if exc else list(df.columns), rows=rows, dt="" if exc else dtc(df["value"].dtype),
                     crs=int(exc != "" or df.crs == r.crs), exc=exc)]
    if op == "back":
        def run():
            p = r.to_points().compute()
            if not len(p):
                return None
            p = p.rename(columns={"value": "val"})
            p["val"] = p["val"].astype("f8")
            return rasterize.rasterize(p, r, field="val", null_value=-12345.0)
        x, exc = call(run)
        if x is None and not exc:
            return []
        out, exc2 = (DUMMY, exc) if exc else result(lambda: x)
        return [dict(ev, out=out, exc=exc or exc2)]


def make(kind, quick, thorough):
    def PLAN(tier):
        return dict(cases=quick if tier == "quick" else thorough, seconds=70 if tier == "quick" else 700)

    def generate(rng, k, tier):
        return GEN[kind](rng)
    return PLAN, generate
