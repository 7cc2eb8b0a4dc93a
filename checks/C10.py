"""Block geometries: what blocks report and sequences of operations on them."""
import numpy as np

from vt.enc import enc, enc_crs
from vt.harness import call
from vt.session import chunks3

TRACE = "BlockGeoTrace"
IMPORTS = ["blocks"]
MODELS = [("MC_BlockGeo", "MC_BlockGeo.cfg", dict(workers=2)), ("MC_BlockGeo", "MC_BlockGeo_deep.cfg", dict(workers=4, tier="thorough"))]
U = 16
OPS = ["pad_y", "pad_x", "pad", "pad", "shift_y", "shift_x", "shift", "shift", "array"]
NOTHING = dict(band=[0, 0], row=[0, 0], col=[0, 0], loc=[0, 0, 0], shape=[], bands=[], x=[], y=[], affine=[], bbox=[], crs=0, paffine=[], pshape=[])


def PLAN(tier):
    return dict(cases=700 if tier == "quick" else 20000, seconds=40 if tier == "quick" else 700)


def generate(rng, k, tier):
    nb, h, w = rng.choice([1, 1, 2, 3]), rng.randint(1, 7), rng.randint(1, 7)
    rx, ry = rng.choice([(1, 1), (2, 3), (0.5, 0.5), (30, 30), (0.125, 4), (10, 2)])
    ops = []
    for _ in range(rng.randint(1, 7)):
        op = rng.choice(OPS)
        n = 2 if op in ("pad_y", "pad_x") else 1 if op in ("shift_y", "shift_x") else rng.choice([1, 2])
        ops.append(dict(op=op, a=[rng.choice([0, 1, 1, 2, 3, 5, -1, -1, -2, -4]) for _ in range(n)], kind=rng.choice(["int"] * 5 + ["np", "float"]),
                        fits=int(rng.random() < 0.8), nv=rng.choice([None, -5, 255]), mask=int(rng.random() < 0.4), kw=int(rng.random() < 0.3)))
    return dict(nb=nb, h=h, w=w, x0=rng.choice([0, 16, -100, 2000]), y0=rng.choice([0, 8, -64, 1000]), rx=rx, ry=ry, crs=rng.choice(["EPSG:5070", "EPSG:3857", "EPSG:4326", "EPSG:4326", None]),
                chunks=chunks3(rng, nb, h, w), pick=rng.random(), ops=ops)


def fx(v):
    return [enc(float(q) * U) for q in v]


def sl(s):
    return [int(s.start), int(s.stop)]


def aff(a):
    return fx([a.a, a.b, a.c, a.d, a.e, a.f])


def obs(g):
    empty = 0 in g.shape
    return dict(band=sl(g.band_slice), row=sl(g.row_slice), col=sl(g.col_slice), loc=[int(q) for q in g.chunk_location], shape=[int(q) for q in g.shape], bands=[int(q) for q in g.band],
                x=fx(g.x), y=fx(g.y), affine=aff(g.affine), bbox=[] if empty else fx(g.bbox.bounds), crs=enc_crs(as_crs(g.crs)), paffine=aff(g.parent_affine), pshape=[int(q) for q in g.parent_shape])


def as_crs(c):
    import rasterio
    return None if c is None else rasterio.crs.CRS.from_user_input(str(c)).to_string()


def execute(case):
    from affine import Affine

    from raster_tools.blocks import geo_block_infos
    from raster_tools.raster import data_to_raster
    nb, h, w = case["nb"], case["h"], case["w"]
    r = data_to_raster(np.arange(nb * h * w, dtype="f8").reshape(nb, h, w), affine=Affine(case["rx"], 0, case["x0"], 0, -case["ry"], case["y0"]), crs=case["crs"])
    r = r.chunk(tuple(tuple(c) for c in case["chunks"]))
    p = dict(nb=nb, h=h, w=w, x0=case["x0"] * U, y0=case["y0"] * U, rx=int(case["rx"] * U), ry=int(case["ry"] * U), crs=enc_crs(case["crs"]))
    evs = []
    infos = None
    for how in ("numpy", "dask"):
        def run():
            q = geo_block_infos(r) if how == "numpy" else r.geo_block_infos
            n = list(q.shape) if how == "numpy" else list(q.numblocks)
            q = q if how == "numpy" else q.compute()
            return q, n, [obs(v) for v in q.ravel()], [list(i) for i in np.ndindex(q.shape)]
        res, exc = call(run)
        ev = dict(op="blocks", p=p, chunks=[list(c) for c in r.data.chunks], exc=exc, num=[], got=[], at=[])
        if not exc:
            infos, ev["num"], ev["got"], ev["at"] = res
        evs.append(ev)
    if infos is None:
        return evs
    flat = infos.ravel()
    g = flat[int(case["pick"] * len(flat))]
    for o in case["ops"]:
        pre, exc = call(obs, g)
        if exc:
            evs.append(dict(op="blocks", p=p, chunks=[], exc=exc, num=[], got=[], at=[]))
            break
        if o["op"] == "array":
            evs.append(array(g, o, p, pre))
            continue
        a = [np.int16(q) if o["kind"] == "np" else q for q in o["a"]]
        isint = 1
        if o["kind"] == "float":
            isint, a[-1] = 0, a[-1] + 0.5
        kw = {}
        if o["kw"] and o["op"] in ("pad", "shift") and len(a) == 2:
            kw, a = dict(x=a[1]), a[:1]
        if o["kw"] and o["op"] in ("pad_y",):
            kw, a = dict(bottom=a[1]), a[:1]
        res, exc = call(lambda: (lambda q: (q, obs(q)))(getattr(g, o["op"])(*a, **kw)))
        ev = dict(op=o["op"], a=o["a"], int=isint, p=p, pre=pre, got=NOTHING, exc=exc.split(":")[0], after=obs(g))
        if not exc:
            g, ev["got"] = res
        evs.append(ev)
    return evs


def array(g, o, p, pre):
    shape = tuple(g.shape)
    if not o["fits"]:
        shape = (shape[0], shape[1] + 1, shape[2])
    n = int(np.prod(shape))
    d = np.arange(n, dtype="i4").reshape(shape)
    m = (d % 3 == 0) if o["mask"] else None

    def run():
        q = g.to_dataarray(d, mask=m, nodata=o["nv"])
        xd, xm = q if m is not None else (q, None)
        same = xd.dims == ("band", "y", "x") and np.array_equal(xd.data, d) and xd.dtype == d.dtype
        xs, ys, bs = xd.x.values, xd.y.values, xd.band.values
        if xm is not None:
            same = same and np.array_equal(xm.data, m) and all(np.array_equal(xm[c].values, xd[c].values) for c in ("x", "y", "band")) and as_crs(xm.rio.crs) == as_crs(xd.rio.crs)
        nd = xd.rio.nodata
        return dict(x=fx(xs), y=fx(ys), bands=[int(v) for v in bs], same=int(same), crs=enc_crs(as_crs(xd.rio.crs)), gotnv=99 if nd is None else int(nd))
    res, exc = call(run)
    ev = dict(op="array", p=p, pre=pre, fits=o["fits"], nv=99 if o["nv"] is None else o["nv"], exc=exc.split(":")[0], x=[], y=[], bands=[], same=0, crs=0, gotnv=0)
    if not exc:
        ev.update(res)
    return ev
