"""A catalogue of library calls, as functions of rasters A, B (any type), L (labels), a table of
features V and small parameters p, with abstract results that do not depend on floating point noise."""
import numpy as np

from .enc import NONE, enc, enc_arr, enc_crs, enc_null, fixed

BIG = 400000


def near(a):
    """Codes of numbers that may differ by rounding, and whether they may."""
    a = np.asarray(a)
    if a.dtype.kind != "f":
        return enc_arr(a), 0
    out = []
    for v in a.astype("f8").ravel().tolist():
        out.append(enc(v) if v != v or v in (np.inf, -np.inf) else fixed(v, 1000) if abs(v) < BIG else enc(float(f"{v:.5g}")))
    return out, 1


def part(k, s, n, q, t):
    return dict(k=k, s=s, n=n, q=q, t=t)


def georef(r):
    x, y = np.asarray(r.x), np.asarray(r.y)
    return [enc(round(float(v) * 64)) for v in ((x[0], x[-1]) if len(x) else (0, 0))] + [enc(round(float(v) * 64)) for v in ((y[0], y[-1]) if len(y) else (0, 0))] + [enc_crs(r.crs)]


def of_raster(r):
    import dask
    d, m = dask.compute(r.data, r.mask)
    d, m = np.asarray(d), np.asarray(m)
    if d.dtype != r.dtype or d.shape != tuple(r.shape) or m.shape != d.shape:
        raise ValueError("claimed type or shape is wrong")
    q, t = near(np.where(m, np.zeros(1, d.dtype), d))
    nulls = np.ones_like(m) if r.null_value is None else (d == r.null_value) | (d != d)
    return part("raster", str(d.dtype), [enc_null(r.null_value)] + [int(v) for v in d.shape] + georef(r) + [int(bool((m & ~nulls).any()))] + m.astype(int).ravel().tolist(), q, t)


def of_table(t):
    import dask
    import pandas as pd
    if hasattr(t, "compute"):
        t = t.compute()
    t = pd.DataFrame(t).reset_index(drop=True)
    cols, tol = [], 0
    for c in t.columns:
        v = t[c].to_numpy()
        if v.dtype.kind in "biuf":
            q, tt = near(v)
            tol = max(tol, tt)
        else:
            q = [enc(hashed(x)) for x in v]
        cols.append(q)
    rows = sorted(map(list, zip(*cols))) if cols else []
    return part("table", ";".join(f"{c}:{t[c].dtype}" for c in t.columns), [len(rows), len(cols)], [v for r in rows for v in r], tol)


def hashed(x):
    import zlib
    if hasattr(x, "wkb_hex"):
        x = x.normalize().wkt
    return 0.5 + zlib.crc32(str(x).encode())


def of_polygons(v, r):
    """What polygons say about the cells of a raster: what covers the centre of every cell."""
    import shapely
    t = v.to_dataframe() if hasattr(v, "to_dataframe") else v.compute() if hasattr(v, "compute") else v
    a = r.affine
    out = []
    for _, row in t.iterrows():
        for j, x in enumerate(np.asarray(r.x)):
            for i, y in enumerate(np.asarray(r.y)):
                if shapely.contains_xy(row.geometry, float(x), float(y)):
                    out.append([int(row["band"]) if "band" in t.columns else 0, i, j] + near(np.array([row["value"]]))[0])
    area = sum(g.area for g in t.geometry)
    return part("polygons", ";".join(f"{c}:{t[c].dtype}" for c in t.columns), [len(out), enc(round(area / abs(a.a * a.e) * 16))], [q for r2 in sorted(out) for q in r2], 0)


def of_labels(r):
    """Numbered regions, whatever their numbers."""
    p = of_raster(r)
    n = r.shape[1] * r.shape[2]
    out = []
    for b in range(r.shape[0]):
        first = {0: 0}
        out += [first.setdefault(v, len(first)) for v in p["q"][b * n:(b + 1) * n]]
        # and the numbers are 1..n
        out.append(int(sorted(set(p["q"][b * n:(b + 1) * n]) - {0}) == list(range(1, len(first)))))
    return dict(p, q=out)


def parts_of(res, r):
    from raster_tools import Raster, Vector
    if isinstance(res, tuple) and len(res) == 2 and isinstance(res[0], str) and res[0] == "labels":
        return [of_labels(res[1])]
    if isinstance(res, Raster):
        return [of_raster(res)]
    if isinstance(res, tuple) and len(res) == 2 and isinstance(res[0], str) and res[0] == "polygons":
        return [of_polygons(res[1], r)]
    if isinstance(res, Vector):
        return [of_table(res.data)]
    if isinstance(res, (list, tuple)):
        return [p for x in res for p in parts_of(x, r)]
    if hasattr(res, "columns"):
        return [of_table(res)]
    if hasattr(res, "compute"):
        res = res.compute()
    if isinstance(res, np.ndarray) and res.dtype == object:
        return [p for x in res.ravel() for p in parts_of(x, r)]
    if isinstance(res, str):
        return [part("text", res, [], [], 0)]
    res = np.asarray(res)
    q, t = near(res)
    return [part("array", str(res.dtype), [int(v) for v in res.shape], q, t)]


# ---- calls: f(S) with S.A, S.B, S.L, S.V, S.p, S.dir
LOCAL = ["asm", "entropy", "max", "maxband", "mean", "median", "min", "minband", "mode", "std", "sum", "unique", "var"]
FOCAL = ["asm", "entropy", "max", "mean", "median", "mode", "min", "std", "sum", "var", "unique"]
AGG = ["asm", "entropy", "max", "mean", "median", "mode", "min", "prod", "std", "sum", "var", "unique"]
ZONAL = ["asm", "count", "entropy", "max", "mean", "median", "min", "mode", "nunique", "prod", "size", "std", "sum", "var"]
BIN = ["add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "lt", "le", "gt", "ge", "eq", "ne", "and_", "or_", "xor"]
UFUNC1 = ["negative", "absolute", "sqrt", "square", "isnan", "isfinite", "floor", "exp", "sign", "logical_not"]
UFUNC2 = ["maximum", "minimum", "arctan2", "hypot", "fmod", "logical_and", "greater_equal"]
RED = ["all", "any", "max", "mean", "min", "prod", "std", "sum", "var"]


def pick(xs, k):
    return xs[k % len(xs)]


def kernel(S):
    h, w = 1 + S.p[2] % 3, 1 + S.p[3] % 3
    return np.array([[(S.p[4] + 3 * i + 5 * j) % 4 - 1 for j in range(w)] for i in range(h)], dtype=["i4", "f8"][S.p[5] % 2]) * [1, 0.5][S.p[5] % 2]


def operand(S):
    nb = S.A.nbands
    return pick([S.B, S.B, S.B, 2, 1.5, S.L if nb == 1 else S.B, np.arange(nb * S.A.shape[1] * S.A.shape[2]).reshape(S.A.shape) % 5], S.p[6])


def c_binary(S):
    import operator
    f = getattr(operator, pick(BIN, S.p[0]))
    return f(operand(S), S.A) if S.p[1] % 3 == 0 and not isinstance(operand(S), np.ndarray) else f(S.A, operand(S))


def c_inplace(S):
    import operator
    a = S.A.copy() if S.p[1] % 2 else S.A * 1
    return getattr(operator, pick(["iadd", "isub", "imul", "itruediv", "ifloordiv"], S.p[0]))(a, operand(S))


def c_bandwise(S):
    v = [(S.p[2] + i) % 5 - 1 for i in range(S.A.nbands)]
    return pick([lambda: S.A.bandwise + v, lambda: S.A.bandwise * v, lambda: S.A.bandwise > v, lambda: S.A.bandwise - np.array(v, dtype="f4")], S.p[0])()


def c_ufunc(S):
    if S.p[1] % 2:
        return getattr(np, pick(UFUNC1, S.p[0]))(S.A)
    return getattr(np, pick(UFUNC2, S.p[0]))(S.A, operand(S))


def c_reduce(S):
    return getattr(S.A, pick(RED, S.p[0]))()


def c_null(S):
    a, v = S.A, pick([0, 1, 3, 7], S.p[1])
    return pick([lambda: a.set_null_value(v), lambda: a.replace_null(v), lambda: a.set_null(S.B > v), lambda: a.burn_mask(), lambda: a.to_null_mask(), lambda: a.set_null_value(None),
                 lambda: a.astype(pick(["i4", "f4", "f8", "i8", "u1"], S.p[2])), lambda: a.round(-S.p[2] % 2), lambda: a.set_crs("EPSG:3857"), lambda: a.copy(), lambda: a.load(), lambda: a.eval()], S.p[0])()


def c_bands(S):
    from raster_tools import band_concat, split_bands, stack_bands
    return pick([lambda: S.A.get_bands([1 + S.p[1] % S.A.nbands, 1]), lambda: S.A.split_bands(), lambda: band_concat([S.A, S.B, S.L]), lambda: stack_bands([S.A, S.L]), lambda: split_bands(S.B),
                 lambda: band_concat([S.L, S.L + 1])], S.p[0])()


def c_where(S):
    from raster_tools.general import where
    L = S.L if S.A.nbands == 1 else (S.B != 0) + S.B
    S = type(S)(A=S.A, B=S.B, L=L, p=S.p)
    return pick([lambda: where(S.B > 2, S.A, S.L), lambda: where(S.L > 1, S.A, 3), lambda: where(S.L == 1, 2, S.A), lambda: S.A.where(S.B > 1, S.L), lambda: S.A.where(S.L > 1, 5)], S.p[0])()


def c_remap(S):
    from raster_tools import reclassify, remap_range
    return pick([lambda: remap_range(S.A, [(0, 2, 10), (2, 5, 20 + S.p[1])], pick(["left", "right", "both", "none"], S.p[2])), lambda: S.A.remap_range((1, 4, 7)),
                 lambda: reclassify(S.A, {0: 4, 1: 3, 2: 7, 5: None}, bool(S.p[1] % 2)), lambda: S.L.reclassify({1: 9, 2: 0})], S.p[0])()


def c_local(S):
    from raster_tools.general import local_stats
    return local_stats(S.A, pick(LOCAL, S.p[0]))


def c_aggregate(S):
    from raster_tools.general import aggregate
    n = [min(S.A.shape[1], 2 + S.p[1] % 2), 1 + S.p[2] % min(3, S.A.shape[2])]
    return aggregate(S.A, tuple(n), pick(AGG, S.p[0]))


def c_morph(S):
    from raster_tools.general import dilate, erode
    return pick([dilate, erode], S.p[0])(S.A, pick([2, 3, (2, 3), (1, 2), (3, 1)], S.p[1]))


def c_regions(S):
    from raster_tools.general import regions
    return "labels", regions(S.L if S.p[0] % 3 else S.A, pick([4, 8], S.p[1]), pick([None, None, [1], [1, 2]], S.p[2]))


def c_focal(S):
    from raster_tools import focal
    return focal.focal(S.A, pick(FOCAL, S.p[0]), 1 + S.p[1] % 3, None if S.p[2] % 3 == 0 else 1 + S.p[3] % 3, ignore_null=bool(S.p[4] % 2))


def c_correlate(S):
    from raster_tools import focal
    return pick([focal.correlate, focal.convolve], S.p[0])(S.A, kernel(S), pick(["constant", "reflect", "nearest", "wrap"], S.p[1]), pick([0, 2], S.p[6]))


def c_surface(S):
    from raster_tools import surface
    f = pick(["surface_area_3d", "slope", "aspect", "curvature", "northing", "easting", "hillshade", "tpi"], S.p[0])
    return surface.tpi(S.A, 1, 2 + S.p[1] % 2) if f == "tpi" else getattr(surface, f)(S.A)


def c_zonal(S):
    from raster_tools.zonal import zonal_stats
    st = [pick(ZONAL, S.p[0]), pick(ZONAL, S.p[0] + 1 + S.p[1] % 5)]
    if S.p[2] % 2:
        return zonal_stats(S.L, S.A, st, wide_format=bool(S.p[3] % 2))
    return zonal_stats(S.V, S.A, st, features_field=pick([None, "val"], S.p[4]), wide_format=bool(S.p[3] % 2), handle_overlap=bool(S.p[5] % 2))


def c_extract(S):
    from raster_tools.zonal import extract_points_eager
    return extract_points_eager(S.P, S.A)


def c_rasterize(S):
    from raster_tools.rasterize import rasterize
    return rasterize(S.V, S.A, field=pick([None, "val"], S.p[0]), overlap_resolve_method=pick(["first", "last", "min", "max"], S.p[1]), all_touched=bool(S.p[2] % 2), mask=S.p[3] % 4 == 0,
                     use_spatial_aware=S.p[4] % 3 == 0)


def c_clip(S):
    from raster_tools import clipping
    x0, y0, x1, y1 = S.A.bounds
    return pick([lambda: clipping.clip(S.V, S.A), lambda: clipping.erase(S.V, S.A), lambda: clipping.mask(S.V, S.A, invert=bool(S.p[1] % 2)), lambda: clipping.envelope(S.V, S.A),
                 lambda: clipping.clip_box(S.A, (x0 + 0.5, y0, x1 - 0.5, y1))], S.p[0])()


def c_pad(S):
    x0, y0, x1, y1 = S.A.bounds
    return S.A.pad((x0 - S.p[0] % 3, y0 - S.p[1] % 2, x1 + S.p[2] % 3, y1 + S.p[3] % 2), fill_values=pick([None, 2], S.p[4]))


def c_mosaic(S):
    from raster_tools import mosaic
    return mosaic([S.A, S.B, S.L][:2 + S.p[1] % 2], mosaic_method=pick(["first", "last", "min", "max", "sum"], S.p[0]))


def c_proximity(S):
    from raster_tools.distance import proximity as px
    f = pick([px.pa_proximity, px.pa_allocation, px.pa_direction], S.p[0])
    return f(S.L, target_values=pick([None, [1], [1, 2]], S.p[1]), distance_metric=pick(["euclidean", "taxi", "chebyshev"], S.p[2]), max_distance=pick([np.inf, np.inf, 1.5, 2.5], S.p[3]))


def c_cost(S):
    from raster_tools.distance import cost_distance as cd
    src = S.L if S.L.null_value is not None else S.L.set_null_value(0)
    costs = (S.A.get_bands(1).astype("f8") + 1) if S.p[1] % 2 else S.L + 1
    return pick([lambda: cd.cost_distance_analysis(costs, src, connectivity=pick([8, 4], S.p[2]))[0], lambda: cd.cda_cost_distance(costs, src)], S.p[0])()


def c_points(S):
    return S.A.to_points() if S.p[0] % 2 else S.A.to_vector()


def c_polygons(S):
    r = S.L if S.p[0] % 3 else S.A
    return "polygons", r.to_polygons(pick([4, 8], S.p[1])) if S.p[2] % 2 else r.to_vector(as_polygons=True, neighbors=pick([4, 8], S.p[1]))


def c_quadrants(S):
    q = S.A.to_quadrants()
    return [q.nw, q.ne, q.sw, q.se]


def c_create(S):
    from raster_tools import constant_raster, full_like, ones_like, zeros_like
    return pick([lambda: zeros_like(S.A), lambda: ones_like(S.A, copy_mask=True), lambda: full_like(S.A, 5, dtype="i4"), lambda: constant_raster(S.A, 3)], S.p[0])()


def c_reproject(S):
    from odc.geo.geobox import GeoBox

    from raster_tools import reproject
    a = S.A.affine
    from affine import Affine
    if S.p[0] % 2:
        return reproject(S.A, GeoBox((3 + S.p[1] % 3, 2 + S.p[2] % 3), a * Affine.translation(S.p[3] % 4 - 1, S.p[4] % 4 - 1), S.A.crs))
    return reproject(S.A, resolution=abs(a.a) * pick([0.5, 2], S.p[1]))


def c_saved(S):
    import os
    from raster_tools import Raster
    f = os.path.join(S.dir, f"s{S.k}.tif")
    S.A.save(f)
    return [Raster(f).load()]


def c_batch(S):
    from raster_tools.batch import BatchScript  # noqa: F401
    raise NotImplementedError


def c_length(S):
    from raster_tools.line_stats import length
    return length(S.W, S.A, 1.5 + S.p[0] % 2)


def c_mapblocks(S):
    from raster_tools import map_blocks, map_overlap
    if S.p[0] % 2:
        return map_blocks(lambda x: x * 2 + 1, S.A.astype("f8"))
    return map_overlap(shifted, S.A.astype("f8"), depth={1: 1, 2: 1}, boundary=pick([0, "nearest", "reflect", "periodic"], S.p[1]))


def shifted(x):
    return np.roll(x, 1, axis=-1) + np.roll(x, -1, axis=-2)


def c_model(S):
    from raster_tools.general import model_predict_raster
    return model_predict_raster(S.A.astype("f8"), Doubler(1 + S.p[0] % 2), n_outputs=1 + S.p[0] % 2)


class Doubler:
    def __init__(self, n):
        self.n = n

    def predict(self, x):
        x = np.asarray(x)
        return np.stack([x.sum(axis=1) * (k + 1) for k in range(self.n)], axis=1)


def c_xy(S):
    return list(S.A.xy(S.p[0] % 3, S.p[1] % 3)) + list(S.A.bounds) + list(S.A.to_numpy().shape) + [S.A.values]


CALLS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("c_") and k != "c_batch"}
# calls that pick between more behaviours come up more often
WEIGHTS = dict(binary=3, ufunc=2, null=3, bands=2, where=2, remap=2, local=2, aggregate=3, morph=2, regions=3, focal=4, correlate=4, surface=4, zonal=4, rasterize=3, clip=4, mosaic=3, proximity=4,
               cost=2, polygons=3, points=2, reproject=2, extract=2, mapblocks=2, xy=1)
NAMES = [k for k in sorted(CALLS) for _ in range(WEIGHTS.get(k, 1))]


# ---- operands as they are (for what calls must not change)
def held_raster(r):
    import dask
    d, m = dask.compute(r.data, r.mask)
    ch = [int(v) for c in r.data.chunks for v in [len(c), *c]] if hasattr(r.data, "chunks") else [-1]
    return part("raster", str(np.asarray(d).dtype) + ";" + str(r.dtype), [enc_null(r.null_value), enc_null(r.xdata.rio.nodata), int(r._masked)] + [int(v) for v in r.shape] + georef(r) + ch + np.asarray(m).astype(int).ravel().tolist(),
                enc_arr(d), 0)


def held_frame(v):
    t = v.to_dataframe() if hasattr(v, "to_dataframe") else v
    rows = [[enc(hashed(x)) for x in row] for row in t.reset_index().itertuples(index=False)]
    return part("frame", ";".join(f"{c}:{t[c].dtype}" for c in t.columns) + ";" + str(t.crs), [len(t), getattr(v, "data", v).npartitions if hasattr(getattr(v, "data", v), "npartitions") else 0], [q for r in rows for q in r], 0)


def held(S):
    return [held_raster(S.A), held_raster(S.B), held_raster(S.L), held_frame(S.V), held_frame(S.P), held_frame(S.W)]


def disturb(res):
    """What a user may do next to the rasters a call returned."""
    from raster_tools import Raster
    if isinstance(res, Raster):
        q = res.load()
        for f in (lambda: q.__iadd__(1), lambda: res.__imul__(2)):
            try:
                parts_of(f(), res)
            except Exception:  # noqa: BLE001, PERF203
                pass
    elif isinstance(res, (list, tuple)):
        for x in res:
            disturb(x)
