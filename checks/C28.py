"""Wrapping raw data and creating rasters like a template."""
import os
import tempfile

import numpy as np

from vt.enc import DUMMY, NPDT, dtc, enc, enc_arr, enc_crs, enc_null, fixed, grid, proj
from vt.func import rasters
from vt.harness import call
from vt.session import arr, raster_spec, real

TRACE = "CreationTrace"
IMPORTS = ["creation"]
MODELS = [("MC_Creation", "MC_Creation.cfg", dict(workers=2)),
          ("MC_Creation", "MC_Creation_deep.cfg", dict(workers=4, tier="thorough"))]
GR = [[0.0, 0.0, 1.0, 1.0, None], [0.0, 40.0, 2.0, 2.0, "EPSG:5070"], [100.0, 50.0, 1.0, 2.0, "EPSG:3857"]]
DTS = ["u1", "i2", "i4", "i8", "u2", "u4", "u8", "i1", "f4", "f8", "f2"]
ERRORS = ["bands-0", "bands-text", "dtype", "value", "geobox-mask", "no-template", "two-templates", "dist", "params-n",
          "params-b", "params-none", "params-type", "no-value", "xy-one", "xy-size", "x-list", "y-list", "mask-shape",
          "like-shape", "dims-1", "dims-4", "data-list", "ds-vars", "ds-mask-type", "source"]


def PLAN(tier):
    return dict(cases=420 if tier == "quick" else 12000, seconds=60 if tier == "quick" else 700)


def chunks(rng, n):
    out = []
    while n:
        k = rng.randint(1, n)
        out.append(k)
        n -= k
    return out


def source(rng, nb=None):
    """A raw block of cells with coordinates in any direction."""
    dt = rng.choice(DTS + ["b1"])
    nb = nb or rng.choice([1, 1, 2, 3])
    h, w = rng.randint(2, 5), rng.randint(2, 5)
    pool = {"b": [0, 1], "u": [0, 1, 2, 9], "i": [0, 1, 2, -5], "f": [0, 1, 2.5, -1]}[dt[0]]
    if dt[0] == "f":
        pool = pool + ["nan"] * rng.randint(0, 1) + ["inf"] * rng.randint(0, 1)
    d = [rng.choice(pool) for _ in range(nb * h * w)]
    s = dict(dt=dt, nb=nb, h=h, w=w, d=d, g=rng.choice(GR), fx=int(rng.random() < 0.5), fy=int(rng.random() < 0.5))
    s["nv"] = rng.choice([None, rng.choice(pool), 7 if dt != "b1" else 1])
    if dt == "b1" and s["nv"] == 0:
        s["nv"] = None
    s["lazy"] = int(rng.random() < 0.5)
    s["c"] = [[1] * nb if rng.random() < 0.7 else chunks(rng, nb), chunks(rng, h), chunks(rng, w)]
    if rng.random() < 0.4:
        s["m"] = [int(rng.random() < 0.3) for _ in d]
    return s


def generate(rng, k, tier):
    if k % 12 == 11:
        return dict(op="error", err=ERRORS[(k // 12) % len(ERRORS)])
    j = k % 12
    if j < 4:
        s = source(rng)
        c = dict(op="wrap", s=s, via=rng.choice(["raster", "raster", "like", "dataarray"]), burn=int(rng.random() < 0.5))
        c["flat"] = int(s["nb"] == 1 and rng.random() < 0.3)
        if c["via"] == "raster":
            c["where"] = rng.choice(["xy", "affine", "none"])
        elif c["via"] == "like":
            c["match"] = int(rng.random() < 0.6)
            c["asx"] = int(rng.random() < 0.5)
            s["fx"] = s["fy"] = 0
            c["lc"] = [chunks(rng, s["h"]), chunks(rng, s["w"])]
        else:
            c["order"] = rng.choice(["byx", "yxb", "bxy", "xyb"])
            c["names"] = rng.choice([["band", "y", "x"], ["band", "lat", "lon"], ["time", "y", "x"], ["band", "latitude", "longitude"]])
            c["burn"] = 0
        return c
    if j < 6:
        s = source(rng)
        s["m"] = None
        c = dict(op="array", s=s, via=rng.choice(["array", "dataarray"]), getter=rng.choice(["Raster", "get_raster"]))
        c["flat"] = int(s["nb"] == 1 and rng.random() < 0.3)
        c["attr"] = int(rng.random() < 0.3)
        if c["via"] == "array":
            s["nv"] = None
            s["fx"] = s["fy"] = 0
            s["g"] = [0.0, float(s["h"]), 1.0, 1.0, None]
        return c
    if j == 6:
        s = source(rng)
        s["m"] = s.get("m") or [int(rng.random() < 0.3) for _ in s["d"]]
        if s["lazy"]:
            # a lazy pair is taken as it is: make it a consistent one
            s["nv"] = 1 if s["nv"] in (None, "nan") else s["nv"]
            s["d"] = [s["nv"] if m else v for v, m in zip(s["d"], s["m"])]
        return dict(op="dataset", s=s, getter="Raster", flat=0)
    t = raster_spec(rng, dt=rng.choice(DTS), shape=(rng.choice([1, 2, 3]), rng.randint(2, 5), rng.randint(2, 6)), g=rng.choice(GR))
    fn = rng.choice(["full", "full", "constant", "zeros", "ones", "empty", "random", "random"])
    c = dict(op="like", t=t, fn=fn, tk=rng.choice(["raster", "raster", "raster", "path", "geobox"]), bands=rng.choice([1, 1, 2, 3, 4]),
             copy=int(rng.random() < 0.5), old=int(rng.random() < 0.1), dt=rng.choice(["", "", t["dt"], rng.choice(DTS + ["b1"])]))
    if t["dt"] in ("f2", "i8", "u8") and c["tk"] == "path":
        c["tk"] = "raster"
    if c["tk"] == "geobox":
        c["copy"] = 0
    if fn in ("full", "constant"):
        c["value"] = rng.choice([0, 1, 5, 2.5, 100, 0.5, 3.0] + (["nan"] if c["dt"][:1] in ("f", "") else []) +
                                ([-3, -2.5] if c["dt"][:1] != "u" else []))
        c["vt"] = rng.choice(["", "", "f4", "i2", "f8"]) if isinstance(c["value"], (int, float)) else ""
        if c["vt"] == "i2" and c["value"] != int(c["value"]):
            c["vt"] = "f4"
    if fn == "random":
        c["dt"] = ""
        c["dist"] = rng.choice([["normal", [4.5, 0]], ["n", [-2, 0.5]], ["normal", [3, 0]], ["uniform", []], ["u", [5, 9]], ["poisson", [0]],
                                ["p", [3]], ["binomial", [6, 1.0]], ["b", [4, 0.0]], ["b", [5, 0.5]], ["weibull", [1e9]], ["w", [2.0]],
                                ["UNIFORM", []], ["Normal", [0, 0]]])
        c["ptuple"] = rng.choice([0, 1, 2])
        if rng.random() < 0.1:
            c["dist"] = ["", [1, 0.5]]
    return c


def coords(s):
    x0, y0, rx, ry, crs = s["g"]
    x = x0 + rx * (np.arange(s["w"]) + 0.5)
    y = y0 - ry * (np.arange(s["h"]) + 0.5)
    return (x[::-1].copy() if s["fx"] else x), (y[::-1].copy() if s["fy"] else y), crs


def x16(a):
    return [enc(round(float(v) * 16)) for v in a]


def observe(ev, r, exc):
    ev.update(exc=exc, out=DUMMY, oxs=[], oys=[], ocrs=0, och=[], obch=[])
    if exc:
        return [ev]
    out, exc = call(proj, r)
    ev["exc"] = exc
    if not exc:
        ch = r.data.chunks
        ev.update(out=out, oxs=x16(r.x), oys=x16(r.y), ocrs=enc_crs(r.crs), och=[list(ch[1]), list(ch[2])], obch=list(ch[0]))
        if r.mask.chunks != ch:
            ev["exc"] = "mask chunks differ"
    return [ev]


def execute(case):
    op = case["op"]
    if op == "error":
        return error(case["err"])
    if op == "like":
        return like(case)
    import dask.array as da
    import xarray as xr

    from raster_tools import Raster
    from raster_tools import raster as R
    s = case["s"]
    shape = (s["nb"], s["h"], s["w"])
    data = arr(s["d"], s["dt"], shape)
    mask = None if s.get("m") is None else np.array(s["m"], dtype=bool).reshape(shape)
    x, y, crs = coords(s)
    nv = None if s["nv"] is None else NPDT[s["dt"]].type(real(s["nv"]))
    src = dict(dt=s["dt"], d=enc_arr(data), m=[] if mask is None else enc_arr(mask), xs=x16(x), ys=x16(y), nv=enc_null(nv),
               has=int(mask is not None), burn=int(bool(case.get("burn", 1) and mask is not None)))
    ev = dict(op=op, src=src, crs=enc_crs(None if crs is None else __import__("rasterio").crs.CRS.from_user_input(crs)), lazy=s["lazy"], want=[])
    d2, m2 = data, mask
    if case.get("flat"):
        d2, m2 = data[0], None if mask is None else mask[0]
    lz = (lambda a: da.from_array(a, chunks=tuple(tuple(c) for c in s["c"])[3 - a.ndim:])) if s["lazy"] else (lambda a: a)
    ld, lm = lz(d2), None if m2 is None else lz(m2)

    def xarray(dims=("band", "y", "x"), lazy=True, a=None, write=True):
        a = data if a is None else a
        names = dict(zip(("band", "y", "x"), dims))
        co = {names["y"]: y, names["x"]: x, names["band"]: np.arange(s["nb"])}
        xd = xr.DataArray(lz(a) if lazy else a, dims=dims, coords=co)
        if case.get("flat"):
            xd = xd[0].drop_vars(names["band"])
        if crs is not None:
            xd = xd.rio.write_crs(crs)
        return xd
    if op == "wrap" and case["via"] == "raster":
        kw = dict(crs=crs)
        if case["where"] == "affine":
            from affine import Affine
            x0, y0, rx, ry, _ = s["g"]
            kw["affine"] = Affine(-rx if s["fx"] else rx, 0, x0 + (rx * s["w"] if s["fx"] else 0), 0, ry if s["fy"] else -ry,
                                  y0 - (ry * s["h"] if s["fy"] else 0))
        elif case["where"] == "xy":
            kw.update(x=x, y=y)
        else:
            src["xs"] = x16(np.arange(s["w"]) + 0.5)
            src["ys"] = x16(s["h"] - 0.5 - np.arange(s["h"]))
        r, exc = call(R.data_to_raster, ld, mask=lm, nv=nv, burn=bool(case["burn"]), **kw)
        return observe(ev, r, exc)
    if op == "wrap" and case["via"] == "like":
        tmpl = R.data_to_raster(np.zeros((1, s["h"], s["w"])), x=x, y=y, crs=crs).chunk(((1,), *map(tuple, case["lc"])))
        if case["match"]:
            ev["want"] = case["lc"]
        r, exc = call(R.data_to_raster_like, ld, tmpl.xdata if case["asx"] else tmpl, mask=lm, nv=nv, burn=bool(case["burn"]),
                      match_chunks=bool(case["match"]))
        return observe(ev, r, exc)
    if op == "wrap":
        n = dict(zip("byx", case["names"]))

        def turned(a):
            xd = xarray(case["names"], a=a)
            return xd if case.get("flat") else xd.transpose(*[n[k] for k in case["order"]])
        xd = turned(data)
        if nv is not None and mask is None:
            xd = xd.rio.write_nodata(nv)
        if mask is not None:
            # the null value of a masked array is what it declares
            if nv is None:
                nv = NPDT[s["dt"]].type({"b": 1}.get(s["dt"][0], 0))
                src["nv"] = enc_null(nv)
            xd = xd.rio.write_nodata(nv)
        r, exc = call(R.dataarray_to_raster, xd, xmask=None if mask is None else turned(mask))
        return observe(ev, r, exc)
    getter = Raster if case["getter"] == "Raster" else R.get_raster
    if op == "array" and case["via"] == "array":
        if case["getter"] != "Raster":
            r, exc = call(R.get_raster, ld, strict=False)
        else:
            r, exc = call(Raster, ld)
        return observe(ev, r, exc)
    if op == "array":
        xd = xarray()
        if nv is not None:
            xd = xd.assign_attrs(_FillValue=nv) if case["attr"] else xd.rio.write_nodata(nv)
        r, exc = call(getter, xd) if getter is Raster else call(getter, xd, strict=False)
        return observe(ev, r, exc)
    xd = xarray()
    if nv is not None:
        xd = xd.rio.write_nodata(nv)
    ds = xr.Dataset(dict(raster=xd, mask=xarray(a=mask)))
    if crs is not None:
        ds = ds.rio.write_crs(crs)
    r, exc = call(Raster, ds)
    return observe(ev, r, exc)


def like(case):
    from odc.geo.geobox import GeoBox

    from raster_tools import creation
    from raster_tools.raster import get_raster
    t = rasters([case["t"]])[0]
    tp = proj(t)
    want = [list(c) for c in t.data.chunks[1:]]
    tmp = None
    if case["tk"] == "path":
        tmp = tempfile.TemporaryDirectory(prefix="vt_c28_")
        p = os.path.join(tmp.name, "t.tif")
        t.save(p)
        tp = proj(get_raster(p))
        tmpl, want = p, []
    elif case["tk"] == "geobox":
        tmpl, want = GeoBox(t.shape[1:], t.affine, t.crs), []
    else:
        tmpl = t
    fn = case["fn"]
    kw = dict(bands=case["bands"], copy_mask=bool(case["copy"]))
    a = []
    if case["dt"] and fn != "random":
        kw["dtype"] = case["dt"] if case["dt"] == "b1" and False else NPDT[case["dt"]]
    ve, vdt, v2, val, lo, hi, scale, wantdistinct = 0, "f8", 0, "const", 0, 0, 1, False
    if fn in ("full", "constant"):
        v = real(case["value"])
        if case["vt"]:
            v = NPDT[case["vt"]].type(v)
        kw["value"] = v
        ve, vdt = enc(v), dtc(np.asarray(v).dtype)
        v2 = int(2 * v) if np.isfinite(v) else 0
    elif fn in ("zeros", "ones"):
        ve = int(fn == "ones")
        v2, vdt = 2 * ve, "i8"
    elif fn == "empty":
        val = "any"
    else:
        dist, params = case["dist"]
        vdt = "i8" if dist[:1].lower() in "pb" and dist else "f8"
        if dist:
            kw.update(distribution=dist, params=[params, tuple(params), np.array(params)][case["ptuple"]])
        d, p = (dist or "n")[0].lower(), params
        if d == "n" and p[1] == 0:
            ve, v2 = enc(float(p[0])), int(2 * p[0])
        elif d == "p" and p[0] == 0:
            ve = 0
        elif d == "b" and p[1] in (0.0, 1.0):
            ve = int(p[0] * p[1])
            v2 = 2 * ve
        elif d == "w" and p[0] > 1e6:
            val, lo, hi, scale = "range", 1000, 1000, 1000
        else:
            val, scale = "range", 1000
            lo, hi = {"n": (-100000, 100000), "u": (0, 999), "p": (0, 1000000), "b": (0, 1000 * int(p[0]) if p else 0), "w": (0, 1000000)}[d]
            wantdistinct = d in "nuw"
    if case["old"]:
        kw["raster_template"] = tmpl
    else:
        a = [tmpl]
    f = dict(full=creation.full_like, constant=creation.constant_raster, zeros=creation.zeros_like, ones=creation.ones_like,
             empty=creation.empty_like, random=creation.random_raster)[fn]
    r, exc = call(f, *a, **kw)
    tp["chunks"] = want
    ev = dict(op="like", t=tp, bands=case["bands"], copy=case["copy"], dt=case["dt"], vdt=vdt, ve=ve, v2=v2, val=val, lo=lo, hi=hi,
              random=int(fn == "random"), want=want, fl=[], distinct=0)
    ev = observe(ev, r, exc)
    if not ev[0]["exc"]:
        d, m = np.asarray(r.data), np.asarray(r.mask)
        if val == "range":
            ev[0]["fl"] = [int(np.floor(v * scale + 0.001 * (lo == hi))) if np.isfinite(v) else 10**9 for v in d.astype("f8").ravel()]
            if lo == hi:
                ev[0]["fl"] = [int(np.round(v * scale)) for v in d.astype("f8").ravel()]
        if wantdistinct:
            ev[0]["distinct"] = len(np.unique(d[~m]))
    if tmp:
        tmp.cleanup()
    return ev


def error(err):
    import xarray as xr
    from odc.geo.geobox import GeoBox

    from raster_tools import Raster, creation
    from raster_tools import raster as R
    r = R.data_to_raster(np.eye(3)[None], x=np.arange(3) + 0.5, y=2.5 - np.arange(3), crs="EPSG:5070", nv=0)
    gb = GeoBox((3, 3), r.affine, r.crs)
    e = np.eye(3)
    x, y = np.arange(3) + 0.5, 2.5 - np.arange(3)
    xd = xr.DataArray(e[None], dims=("band", "y", "x"), coords=([1], y, x))
    V, T = "ValueError", "TypeError"
    want, f = {
        "bands-0": (V, lambda: creation.ones_like(r, bands=0)),
        "bands-text": (T, lambda: creation.ones_like(r, bands="two")),
        "dtype": (V, lambda: creation.ones_like(r, dtype="number")),
        "value": (T, lambda: creation.full_like(r, "one")),
        "geobox-mask": (V, lambda: creation.full_like(gb, 1, copy_mask=True)),
        "no-template": (T, lambda: creation.ones_like()),
        "two-templates": (T, lambda: creation.ones_like(r, raster_template=r)),
        "dist": (V, lambda: creation.random_raster(r, "gamma")),
        "params-n": (V, lambda: creation.random_raster(r, "normal", params=(1,))),
        "params-b": (V, lambda: creation.random_raster(r, "b", params=(1,))),
        "params-none": (V, lambda: creation.random_raster(r, "w", params=())),
        "params-type": (T, lambda: creation.random_raster(r, "w", params=5)),
        "no-value": (T, lambda: creation.full_like(r)),
        "xy-one": (V, lambda: R.data_to_raster(e, x=x)),
        "xy-size": (V, lambda: R.data_to_raster(e, x=np.arange(4.0), y=y)),
        "x-list": (T, lambda: R.data_to_raster(e, x=list(x), y=y)),
        "y-list": (T, lambda: R.data_to_raster(e, x=x, y=list(y))),
        "mask-shape": (V, lambda: R.data_to_raster(e, mask=np.zeros((2, 3), bool))),
        "like-shape": (V, lambda: R.data_to_raster_like(e[:2], r)),
        "dims-1": (V, lambda: R.data_to_raster(np.arange(3))),
        "dims-4": (V, lambda: R.data_to_raster(np.zeros((1, 1, 2, 2)))),
        "data-list": (T, lambda: R.data_to_raster([[1, 2], [3, 4]])),
        "ds-vars": (V, lambda: Raster(xr.Dataset(dict(raster=xd, other=xd)))),
        "ds-mask-type": (T, lambda: Raster(xr.Dataset(dict(raster=xd, mask=xd)))),
        "source": (T, lambda: Raster(5)),
    }[err]
    _, exc = call(f)
    return [dict(op="error", err=err, want=want, exc=exc.split(":")[0])]
