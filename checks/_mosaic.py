"""Stacks and mosaics: cases for Mosaic.tla."""
from vt.enc import DUMMY, NPDT, enc_null, proj
from vt.func import lattice, result, rasters
from vt.harness import call
from vt.session import ALLDT, INTS, raster_spec, real

RES = 2.0


def placed(r):
    o = proj(r)
    o["r0"], o["c0"] = lattice(r, RES)
    o["crs"] = int(r.crs is not None and r.crs.to_epsg() == 5070)
    o["g"] = []
    return o


def gen(rng, ops):
    op = rng.choice(ops)
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 8, 9, 11, 17])
    if op == "reproject":
        n = 1
    same = rng.random() < 0.3 or op == "concat"
    sh = (rng.randint(2, 5), rng.randint(2, 5))
    pool = [d for d in ALLDT if d not in ("f2", "b1")]
    dts = [rng.choice(pool)] if rng.random() < 0.5 else rng.sample(pool, 2)
    ins = []
    o0 = (rng.randint(-3, 3), rng.randint(-3, 3))
    for _ in range(n):
        shp = sh if same else (rng.randint(2, 5), rng.randint(2, 5))
        r0, c0 = o0 if same else (rng.randint(0, 4), rng.randint(0, 4))
        g = [c0 * RES, -r0 * RES, RES, RES, "EPSG:5070"]
        nb = rng.choice([1, 1, 2, 3])
        ins.append(raster_spec(rng, dt=rng.choice(dts), shape=(nb,) + shp, g=g, nan_ok=False,
                               masked=rng.random() < 0.75,
                               explicit=0.1, pool=None))
    if same and rng.random() < 0.5 and op == "mosaic":
        for s in ins:     # nothing to move: nulls and values only
            s["g"] = ins[0]["g"]
    case = dict(op=op, ins=ins, method=rng.choice(["first", "last", "min", "max", "sum"]),
                join=rng.choice(["inner", "outer"]) if op == "stack" else "outer", dst=None, nv=None, dt="")
    if op == "concat":
        case["join"] = "inner"
        for s in ins:
            s["nb"] = s["nb"]
    if op == "reproject" or (op != "concat" and rng.random() < 0.3):
        case["dst"] = [rng.randint(-2, 5), rng.randint(-2, 5), rng.randint(2, 6), rng.randint(2, 6)]
    if op in ("stack", "mosaic") and rng.random() < 0.35:
        case["dt"] = rng.choice(["f8", "i8", "i4"])
        case["nv"] = rng.choice([-99, 0, 7, -1])
    return case


def geobox(d):
    from affine import Affine
    from odc.geo.geobox import GeoBox
    r0, c0, h, w = d
    return GeoBox((h, w), Affine(RES, 0, c0 * RES, 0, -RES, -r0 * RES), "EPSG:5070")


def execute(case):
    from raster_tools import band_concat, mosaic, stack_bands
    rs = rasters(case["ins"])
    ins = [placed(r) for r in rs]
    kw = {}
    if case["dt"]:
        kw["dtype"] = NPDT[case["dt"]]
    if case["nv"] is not None:
        kw["null_value"] = case["nv"]
    if case["dst"]:
        kw["dst_grid"] = geobox(case["dst"])
    if case["op"] == "mosaic":
        out, exc = result(mosaic, rs, case["method"], pr=placed, **kw)
    elif case["op"] == "stack":
        out, exc = result(stack_bands, rs, join=case["join"], pr=placed, **kw)
    elif case["op"] == "concat":
        out, exc = result(band_concat, rs, pr=placed)
    else:
        out, exc = result(rs[0].reproject, kw["dst_grid"], pr=placed)
    if exc:
        out = dict(DUMMY, r0=0, c0=0, crs=0)
    return [dict(op=case["op"], ins=ins, method=case["method"], join=case["join"], dst=case["dst"] or [],
                 nv=enc_null(case["nv"]), dt=case["dt"], exc=exc, out=out)]
