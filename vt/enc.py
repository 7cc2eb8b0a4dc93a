"""Projection of real values to the abstract values of the specifications."""
import math
import numpy as np

NONE, NAN, PINF, NINF = 2000000000, 2000000001, 2000000002, 2000000003
ANY, OTHER = 2000000098, 2000000099
FIXED = {
    4294967295: 2000000010,
    18446744073709549568: 2000000011,
    -2147483648: 2000000012,
    -9223372036854775808: 2000000013,
}
_intern = {}
_BASE = 1000000000


def enc(v):
    """Injective code of a number (see VTBase.tla)."""
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    if isinstance(v, (int, np.integer)):
        v = int(v)
    else:
        f = float(v)
        if f != f:
            return NAN
        if f == math.inf:
            return PINF
        if f == -math.inf:
            return NINF
        v = int(f) if f == int(f) else f
    if isinstance(v, int):
        if -_BASE < v < _BASE:
            return v
        if v in FIXED:
            return FIXED[v]
    k = _intern.get(v)
    if k is None:
        k = _intern[v] = _BASE + len(_intern)
    return k


_DT = {"bool": "b1"}


def dtc(dtype):
    """Code of a numpy dtype."""
    d = np.dtype(dtype)
    return "b1" if d.kind == "b" else f"{d.kind}{d.itemsize}"


NPDT = {
    "b1": np.dtype(bool), "u1": np.dtype("u1"), "u2": np.dtype("u2"),
    "u4": np.dtype("u4"), "u8": np.dtype("u8"), "i1": np.dtype("i1"),
    "i2": np.dtype("i2"), "i4": np.dtype("i4"), "i8": np.dtype("i8"),
    "f2": np.dtype("f2"), "f4": np.dtype("f4"), "f8": np.dtype("f8"),
}


def enc_arr(a):
    a = np.asarray(a)
    if a.dtype.kind == "b":
        return a.astype(int).ravel().tolist()
    flat = a.ravel()
    if a.dtype.kind in "iu":
        if flat.size == 0 or (int(flat.max()) < _BASE and int(flat.min()) > -_BASE):
            return [int(v) for v in flat.tolist()]
    return [enc(v) for v in flat.tolist()]


def fixed(v, scale):
    """round(v * scale) as an integer, or a special code."""
    f = float(v)
    if f != f:
        return NAN
    if f == math.inf:
        return PINF
    if f == -math.inf:
        return NINF
    r = round(f * scale)
    return r if abs(r) < _BASE else OTHER


def fixed_arr(a, scale):
    return [fixed(v, scale) for v in np.asarray(a, dtype="f8").ravel().tolist()]


def enc_null(nv):
    return NONE if nv is None else enc(nv)


_crs = {}


def enc_crs(crs):
    if crs is None:
        return 0
    s = crs.to_string() if hasattr(crs, "to_string") else str(crs)
    return _crs.setdefault(s, len(_crs) + 1)


def grid(r):
    """Grid of a raster: first cell centre, resolution, extent and CRS."""
    x = r.x
    y = r.y
    g = [enc(round(float(x[0]) * 16)), enc(round(float(y[0]) * 16)),
         enc(round(float(x[-1]) * 16)), enc(round(float(y[-1]) * 16)), enc_crs(r.crs)]
    if len(x) > 1 and len(y) > 1:
        # the cell size of a single row or column is not known from coordinates
        a = r.affine
        g += [enc(round(v * 16)) for v in (a.a, a.b, a.c, a.d, a.e, a.f)]
    return g


class ProjError(Exception):
    pass


def proj(r):
    """Abstract raster of a real raster (computes it)."""
    import dask

    data, mask = dask.compute(r.data, r.mask)
    data = np.asarray(data)
    mask = np.asarray(mask)
    if data.ndim != 3:
        raise ProjError(f"data has {data.ndim} dimensions")
    nb, h, w = data.shape
    if tuple(r.shape) != data.shape:
        raise ProjError(f"shape {tuple(r.shape)} but data {data.shape}")
    if mask.shape != data.shape:
        raise ProjError(f"mask shape {mask.shape} but data {data.shape}")
    if r.dtype != data.dtype:
        raise ProjError(f"dtype {r.dtype} but data {data.dtype}")
    if mask.dtype != bool:
        raise ProjError(f"mask dtype {mask.dtype}")
    if list(np.asarray(r.band)) != list(range(1, nb + 1)):
        raise ProjError(f"band coordinate {list(np.asarray(r.band))}")
    if len(r.x) != w or len(r.y) != h:
        raise ProjError("coordinate lengths")
    return dict(dt=dtc(data.dtype), nv=enc_null(r.null_value), nb=nb, h=h, w=w,
                d=enc_arr(data), m=enc_arr(mask), g=grid(r))


DUMMY = dict(dt="b1", nv=NONE, nb=0, h=0, w=0, d=[], m=[], g=[])
