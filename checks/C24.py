"""Saving rasters and opening them again."""
import os
import pathlib
import tempfile

import numpy as np

from vt.enc import DUMMY, dtc, enc, enc_crs, enc_null, proj
from vt.func import rasters
from vt.harness import call
from vt.session import raster_spec, real

TRACE = "SaveTrace"
IMPORTS = ["io"]
MODELS = [("MC_SaveOpen", "MC_SaveOpen.cfg", dict(workers=2)),
          ("MC_SaveOpen", "MC_SaveOpen_deep.cfg", dict(workers=4, tier="thorough"))]
GR = [[0.0, 0.0, 1.0, 1.0, None], [0.0, 40.0, 2.0, 2.0, "EPSG:5070"], [100.0, 50.0, 1.0, 2.0, "EPSG:3857"],
      [-64.0, 8.0, 0.5, 0.25, "EPSG:4326"]]
DTS = ["u1", "i2", "i4", "i8", "u2", "u4", "u8", "i1", "f4", "f8", "f2", "b1"]
ERRORS = ["both-nulls", "predictor", "cog-block", "write-nc", "open-missing", "open-nc", "chunks-path"]


def PLAN(tier):
    return dict(cases=300 if tier == "quick" else 8000, seconds=60 if tier == "quick" else 700)


def generate(rng, k, tier):
    if k % 30 == 29:
        return dict(op="error", err=ERRORS[(k // 30) % len(ERRORS)])
    drv = rng.choice(["GTiff"] * 6 + ["COG"] * 2 + ["HFA"] * 2)
    dt = rng.choice(DTS)
    if drv == "HFA" and dt in ("u8", "f2"):
        drv = "GTiff"
    chunksop = k % 4 == 3
    big = not chunksop and rng.random() < 0.15
    lo = 3 if chunksop else 2
    shape = (rng.choice([1, 1, 2, 3]), rng.randint(lo, 6), rng.randint(lo, 6)) if not big else (1, rng.randint(20, 60), rng.randint(20, 60))
    r = raster_spec(rng, dt=dt, shape=shape, g=rng.choice(GR), explicit=0.0, load=False)
    c = dict(op="chunks" if chunksop else "save", r=r, drv=drv)
    u = rng.random()
    if u < 0.3:
        pool = {"b": [1], "u": [0, 2, 200], "i": [0, -7, 100], "f": [0, -7, "nan", 40]}[dt[0]]
        c["nv"] = rng.choice(pool)
        c["nvf"] = int(dt[0] == "f" or rng.random() < 0.15)
        c["old"] = int(rng.random() < 0.2)
    o = {}
    if rng.random() < 0.5:
        o["compress"] = rng.choice(["lzw", "deflate", "zstd", "packbits"] if drv == "GTiff" else ["lzw", "deflate", "zstd"])
        if rng.random() < 0.4:
            o["compress_level"] = rng.randint(1, 9)
        if rng.random() < 0.4 and dt != "b1" and dt != "f2" and o["compress"] != "packbits":
            o["predictor"] = rng.choice(["float", 3] if dt[0] == "f" else ["horizontal", 2])
            if "nv" in c and dt[0] != "f":
                del o["predictor"]
            if dt in ("i8", "u8"):
                o.pop("predictor", None)
    if rng.random() < 0.4:
        o["blocksize"] = rng.choice([16, 32, [16, 32], [32, 16], 64]) if drv == "GTiff" else rng.choice([128, 256, [128, 128]])
    if rng.random() < 0.3:
        o["tiled"] = rng.random() < 0.5
        if not o["tiled"]:
            o.pop("blocksize", None)
    if rng.random() < 0.2:
        o["bigtiff"] = rng.choice([True, False, "yes", "no", "if_needed"])
    if rng.random() < 0.3:
        o["overviews"] = rng.choice([True, [2], [2, 4], False])
        if rng.random() < 0.5:
            o["overview_resampling"] = rng.choice(["nearest", "average", "mode"])
    if drv == "HFA":
        o = {k2: v for k2, v in o.items() if k2 in ("overviews", "overview_resampling")}
    c["o"] = o
    if rng.random() < 0.15 and drv == "GTiff":
        c["kw"] = dict(interleave=rng.choice(["band", "pixel"]))
    c["path"] = rng.choice(["str", "path"])
    if chunksop:
        c["ych"], c["xch"] = split(rng, shape[1]), split(rng, shape[2])
        c["per"] = int(rng.random() < 0.5)
        c["ext"] = rng.choice([None, ".tif", "tif", ".tiff"]) if drv != "HFA" else ".img"
        c["sub"] = int(rng.random() < 0.3)
        # GDAL refuses overviews of tiles of one cell
        c["o"].pop("overviews", None)
        if rng.random() < 0.15 and drv == "GTiff":
            # enough tiles for two digits
            c["r"] = raster_spec(rng, dt=dt, shape=(1, 2, 12), g=r["g"], explicit=0.0, load=False)
            c["ych"], c["xch"] = [1, 1], [1] * 12
    return c


def split(rng, n):
    out = []
    while n:
        k = rng.randint(1, n)
        out.append(k)
        n -= k
    return out


def options(case):
    o = dict(case["o"], **case.get("kw", {}))
    if isinstance(o.get("blocksize"), list):
        o["blocksize"] = tuple(o["blocksize"])
    drv = case["drv"]
    if drv == "COG" or (drv == "GTiff" and "kw" in case):
        o["driver"] = drv
    has, v, kind = 0, 0, "int"
    if "nv" in case:
        has = 1
        x = real(case["nv"])
        x = float(x) if case["nvf"] else x
        v, kind = enc(x), "float" if case["nvf"] else "int"
        o["no_data_value" if case["old"] else "null_value"] = x
    return o, dict(has=has, v=v, k=kind)


def meta(path):
    import rasterio as rio
    with rio.open(path) as ds:
        p = ds.profile
        pred = ds.tags(ns="IMAGE_STRUCTURE").get("PREDICTOR", "1")
        nv = ds.nodata
        if nv is not None and ds.dtypes[0] in ("int64", "uint64"):
            nv = int(nv)
        return dict(driver=ds.driver, block=list(ds.block_shapes[0]), tiled=int(ds.is_tiled if hasattr(ds, "is_tiled") else p.get("tiled", False)),
                    compress="none" if ds.compression is None else ds.compression.name.lower(), over=ds.overviews(1), nv=enc_null(nv),
                    dt=dtc(ds.dtypes[0]), count=ds.count, pred=int(pred))


def execute(case):
    if case["op"] == "error":
        return error(case["err"])
    from raster_tools import Raster
    with tempfile.TemporaryDirectory(prefix="vt_c24_") as d:
        r = rasters([case["r"]])[0]
        if case["op"] == "chunks":
            return tiles(case, r, d)
        o, nvd = options(case)
        p = os.path.join(d, "out" + {"HFA": ".img", "COG": ".tif", "GTiff": ".tif"}[case["drv"]])
        arg = pathlib.Path(p) if case["path"] == "path" else p
        rp = proj(r)
        ev = dict(op="save", r=rp, r2=rp, drv=case["drv"], exc="", out=DUMMY, again=DUMMY, meta=DUMMY, opt=opt(case), **nvd)

        def run():
            s = r.save(arg, **o)
            return proj(s), proj(Raster(arg)), meta(p), proj(r)
        res, exc = call(run)
        ev["exc"] = exc
        if not exc:
            ev["out"], ev["again"], ev["meta"], ev["r2"] = res
        return [ev]


def opt(case):
    o = case["o"]
    drv = case["drv"]
    b = o.get("blocksize")
    block = [] if b is None else [b, b] if isinstance(b, int) else list(b)
    over = o.get("overviews") or []
    over = [] if over is True else list(over)
    pred = {"horizontal": 2, "float": 3, 2: 2, 3: 3}.get(o.get("predictor"), 0)
    return dict(compress="any" if drv == "HFA" else o.get("compress", "none"), block=block, over=over, pred=pred,
                tiled=-1 if drv != "GTiff" else int(o.get("tiled", True)))


def tiles(case, r, d):
    r = r.chunk(((1,) * r.nbands, tuple(case["ych"]), tuple(case["xch"])))
    o, nvd = options(case)
    a = r.affine
    base = os.path.join(d, "sub", "deep") if case["sub"] else d
    prefix = os.path.join(base, "t")
    kw = dict(per_band=bool(case["per"]))
    if case["ext"] is not None:
        kw["ext"] = case["ext"]
    rp = proj(r)
    s16 = lambda t: [enc(round(v * 64)) for v in (t.a, t.b, t.c, t.d, t.e, t.f)]  # noqa: E731
    ext = case["ext"] or ".tif"
    ev = dict(op="chunks", r=rp, ych=case["ych"], xch=case["xch"], per=case["per"], drv=case["drv"], crs=enc_crs(r.crs), aff=s16(a), prefix="t",
              ext=ext if ext.startswith(".") else "." + ext, tiles=[], files=[], shape=[], exc="", **nvd)

    def run():
        out = r.save_chunks(pathlib.Path(prefix) if case["path"] == "path" else prefix, **kw, **o)
        names = sorted(f for f in os.listdir(base) if not f.endswith((".aux.xml", ".ovr", ".ige", ".rrd")) and f != "sub")
        ts = []
        for k, t in enumerate(out.ravel()):
            src = t.xdata.encoding.get("source", "") or ""
            ts.append(dict(out=proj(t), aff=s16(t.xdata.rio.transform()), crs=enc_crs(t.crs), name=os.path.basename(str(src)) if src else names[k]))
            ts[-1]["out"]["g"] = []
        # the content of the files themselves
        from raster_tools import Raster
        for t in ts:
            q = proj(Raster(os.path.join(base, t["name"])))
            q["g"] = []
            if q != t["out"]:
                t["out"] = DUMMY
        return list(out.shape), ts, names
    res, exc = call(run)
    ev["exc"] = exc
    if not exc:
        ev["shape"], ev["tiles"], ev["files"] = res
    return [ev]


def error(err):
    from raster_tools import Raster
    from raster_tools.raster import data_to_raster
    r = data_to_raster(np.eye(3)[None], x=np.arange(3) + 0.5, y=2.5 - np.arange(3))
    with tempfile.TemporaryDirectory(prefix="vt_c24_") as d:
        p = os.path.join(d, "a.tif")
        want, f = {
            "both-nulls": ("TypeError", lambda: r.save(p, null_value=1, no_data_value=1)),
            "predictor": ("ValueError", lambda: r.save(p, compress="lzw", predictor="vertical")),
            "cog-block": ("ValueError", lambda: r.save(p, driver="COG", blocksize=(128, 256))),
            "write-nc": ("NotImplementedError", lambda: r.save(os.path.join(d, "a.nc"))),
            "open-missing": ("RasterIOError", lambda: Raster(p)),
            "open-nc": ("NotImplementedError", lambda: Raster(pathlib.Path(d) / "a.nc")),
            "chunks-path": ("TypeError", lambda: r.save_chunks(p, path=p)),
        }[err]
        _, exc = call(f)
    return [dict(op="error", err=err, want=want, exc=exc.split(":")[0])]
