"""Functions mapped over the blocks of rasters: what they are called with and what becomes of their results."""
import threading

import numpy as np

from vt.enc import DUMMY, NPDT, dtc, enc, enc_arr, enc_crs, enc_null, proj
from vt.func import rasters
from vt.harness import call
from vt.session import GRIDS, raster_spec, real

TRACE = "BlockMapTrace"
IMPORTS = ["blocks"]
MODELS = [("MC_BlockMap", "MC_BlockMap.cfg", dict(workers=2)), ("MC_BlockMap", "MC_BlockMap_deep.cfg", dict(workers=4, tier="thorough"))]
U = 16
KINDS = ["map_blocks", "map_overlap", "geo_map_blocks", "geo_map_overlap"]
NAMES = dict(masks="input_masks", innv="input_null_values", info="block_info", id="block_id", outnv="out_null_value", geo="geo_block_info")
ERRORS = ["none", "reserved", "dask", "conflict", "outbands", "overlapbands", "negative", "depthtype", "uneven", "banddepth", "axis", "nulltext",
          "boundary", "shape", "grid", "wrongbands", "wrongmask", "nopair"]
BOUNDS = ["none", "none", "null", "null", "const", "const", "const", "reflect", "nearest", "periodic"]
LOG = []
LOCK = threading.Lock()


def PLAN(tier):
    return dict(cases=420 if tier == "quick" else 9000, seconds=60 if tier == "quick" else 700)


def generate(rng, k, tier):
    if k % 8 == 7:
        return dict(op="error", err=ERRORS[(k // 8) % len(ERRORS)], kind=rng.choice(KINDS), pick=rng.random())
    kind = KINDS[k % 4]
    nb, h, w = rng.choice([1, 1, 2, 3]), rng.randint(1, 6), rng.randint(1, 6)
    if kind.startswith("geo"):   # bare coordinates give no cell size along an axis of one cell
        h, w = max(h, 2), max(w, 2)
    g = rng.choice(GRIDS)
    n = rng.choice([1, 1, 1, 2, 2, 3])
    rs = []
    for i in range(n):
        dt = rng.choice(["u1", "i2", "i4", "f4", "f8", "i1", "u2", "i8", "u4", "b1", "f2"])
        pool = {"u": [0, 1, 2, 3, 5, 8, 13, 60], "i": [-9, -3, 0, 1, 2, 4, 7, 50], "b": [0, 1], "f": [-9, -3, 0, 1, 2, 4, 7, 50]}[dt[0]]
        same = kind.startswith("geo") or i == 0 or rng.random() < 0.5
        rs.append(raster_spec(rng, dt=dt, shape=(nb, h, w), pool=pool, g=g if same else rng.choice(GRIDS)))
    over = kind.endswith("overlap")
    dt = rng.choice(["same", "same", "u1", "i2", "i4", "f4", "f8", "u2", "i8", "b1"])
    dt = rs[0]["dt"] if dt == "same" else dt
    given = int(rng.random() < 0.3)
    nv = rng.choice([1] if dt == "b1" else [1, 5, 7, 0] + (["nan"] if dt[0] == "f" else []))
    wants = {q: int(rng.random() < 0.4) for q in NAMES}
    wants["geo"] = int(wants["geo"] and kind.startswith("geo"))
    ob = 0 if over or rng.random() < 0.6 else rng.choice([1, 2, 3, nb])
    dep = [0, 0, 0, 0]
    bnd = "none"
    form = "int"
    if over:
        bnd = rng.choice(BOUNDS)
        form = rng.choice(["int", "int", "pair", "dict", "uneven"])
        if form == "int":
            dep = [rng.choice([0, 1, 1, 2, 3])] * 4
        elif form != "uneven":
            dep = [rng.choice([0, 1, 2])] * 2 + [rng.choice([0, 1, 2, 3])] * 2
        else:
            dep = [rng.choice([0, 1, 2]) for _ in range(4)]
            bnd = "none"
        if rng.random() < 0.9:
            dep = [min(q, h) for q in dep[:2]] + [min(q, w) for q in dep[2:]]
            form = form if form != "int" or len(set(dep)) == 1 else "pair"
        wants["masks"] = int(rng.random() < 0.75)
    bv = 1 if any(r["dt"] == "b1" for r in rs) else rng.choice([0, 1, 1, 5, 9])
    nvs = [r["nv"] for r in rs if isinstance(r["nv"], int) and 0 <= r["nv"] < 100]
    if nvs and all(r["dt"] != "b1" for r in rs) and rng.random() < 0.6:
        bv = rng.choice(nvs)
    return dict(op="map", kind=kind, rs=rs, dt=dt, given=given, nv=nv, wants=wants, ob=ob, rm=int(rng.random() < 0.3), dep=dep, form=form, bnd=bnd,
                bv=bv, hint=rng.choice(["dtype", "dtype", "meta", "none", "none"]),
                kw=rng.choice([[], [], [3], [4, 11]]), sig=rng.choice(["star", "exact", "star", "absorb"]), how=rng.choice(["function", "method"]),
                size=rng.choice([None, "16B", "40B", "64B", "200B"]), xr=int(rng.random() < 0.5), spell=rng.randint(0, 3), seed=rng.randint(0, 99))


def nul(v):
    return enc_null(None if v is None else v)


def record(case, blocks, extra, kw):
    import xarray as xr
    geo = case["kind"].startswith("geo")
    w = case["wants"]
    info = extra.get("block_info")
    masks = extra.get("input_masks", ())
    c = dict(shape=[int(q) for q in blocks[0].shape], d=[], dts=[], m=[], id=[-1], infoloc=[-1], infoarr=[-1], innv=[], outnv=0, kw=kw, win=[], x=[], y=[], bands=[], crs=0, nod=[], labels=0)
    c["d"] = [enc_arr(np.asarray(b)) for b in blocks]
    c["dts"] = [dtc(b.dtype) for b in blocks]
    c["m"] = [enc_arr(np.asarray(b)) for b in masks]
    if any(b.shape != blocks[0].shape for b in list(blocks) + list(masks)) or any(m.dtype != bool for m in masks) or (w["masks"] and not isinstance(masks, tuple)):
        c["shape"] = [-1]
    probe = dict(placed=0, zero=1, dt="")
    if w["id"]:
        v = extra["block_id"]
        c["id"] = [-1] if v is None else [int(q) for q in v]
        probe["placed"] |= int(v is not None)
    if w["info"] and info is not None:
        probe["placed"] = 1
        c["infoloc"] = [int(q) for q in info[0]["chunk-location"]]
        c["infoarr"] = [int(q) for s in info[0]["array-location"] for q in s]
    if w["innv"]:
        c["innv"] = [nul(v) for v in extra["input_null_values"]]
    if w["outnv"]:
        v = extra["out_null_value"]
        c["outnv"] = nul(v)
        probe["zero"] = int(v is not None and v == 0)
        probe["dt"] = dtc(np.asarray(v).dtype) if isinstance(v, np.generic) else "python"
    if w["geo"]:
        v = extra["geo_block_info"]
        probe["placed"] |= int(v is not None)
        if v is not None:
            c["win"] = [int(q) for s in (v.band_slice, v.row_slice, v.col_slice) for q in (s.start, s.stop)]
    if geo:
        import rasterio
        q = list(blocks) + list(masks)
        b = blocks[0]
        if all(isinstance(v, xr.DataArray) and v.dims == ("band", "y", "x") for v in q):
            c["labels"] = int(all(np.array_equal(v[n].values, b[n].values) for v in q for n in ("band", "y", "x")))
            c["x"], c["y"] = [enc(float(v) * U) for v in b.x.values], [enc(float(v) * U) for v in b.y.values]
            c["bands"] = [int(v) for v in b.band.values]
            c["crs"] = enc_crs(None if b.rio.crs is None else rasterio.crs.CRS.from_user_input(str(b.rio.crs)).to_string())
            c["nod"] = [nul(v.rio.nodata) for v in blocks]
    elif any(type(v) is not np.ndarray for v in list(blocks) + list(masks)):
        c["shape"] = [-2]
    return c, probe


def compute(case, blocks, extra, kw):
    """The mapped function: any deterministic function of all its arguments."""
    arrs = [np.asarray(b) for b in blocks]
    c, probe = record(case, blocks, extra, kw)
    acc = np.zeros(arrs[0].shape, dtype="i8") + case["seed"] + sum(kw)
    for i, a in enumerate(arrs):
        v = np.nan_to_num(a.astype("f8"), nan=17.0, posinf=18, neginf=19).clip(-1e6, 1e6).astype("i8")
        acc = acc + (2 * i + 1) * v + 3 * np.roll(v, 1, axis=2) + 5 * np.roll(v, -1, axis=1)
    for i, m in enumerate(extra.get("input_masks", ())):
        acc = acc + (7 + i) * np.asarray(m).astype("i8")
    if extra.get("block_id") is not None:
        acc = acc + sum((q + 1) * v for q, v in enumerate(extra["block_id"]))
    if case["ob"]:
        acc = np.stack([acc.sum(axis=0) + k for k in range(case["ob"])]) if acc.size or acc.ndim == 3 else acc
    d = (acc % 2 if case["dt"] == "b1" else acc % 23).astype(NPDT[case["dt"]])
    if case["wants"]["outnv"] and extra["out_null_value"] is not None:
        d = np.where(acc % 4 == 0, np.array(extra["out_null_value"]).astype(d.dtype), d)
    m = (acc // 3) % 3 == 0
    c["rd"], c["rm"] = enc_arr(d), enc_arr(m) if case["rm"] else []
    with LOCK:
        LOG.append((c, probe))
    if case["xr"] and case["kind"].startswith("geo") and not case["ob"]:
        d, m = blocks[0].copy(data=d), blocks[0].copy(data=m)
    return (d, m) if case["rm"] else d


def make(case, n):
    """A function with the signature asked for."""
    names = [NAMES[q] for q in NAMES if case["wants"][q]]
    args = ", ".join(f"a{i}" for i in range(n))
    tup = args + ","
    kws = [f"k{i}" for i in range(len(case["kw"]))]
    if case["sig"] == "star":
        head, tup = "*blocks" + "".join(f", {q}" for q in names) + ", **kw", "blocks"
    elif case["sig"] == "exact":
        head = args + (", *" if names or kws else "") + "".join(f", {q}" for q in names + kws)
    else:
        head = args + (", *" if names else "") + "".join(f", {q}" for q in names) + ", **kw"
    got = "[" + ", ".join(kws) + "]" if case["sig"] == "exact" else "args_of(kw)"
    src = f"def func({head}):\n    return compute(case, ({tup}), dict({', '.join(f'{q}={q}' for q in names)}), {got})\n"
    env = dict(compute=compute, case=case, args_of=lambda kw: [kw[q] if q.startswith("k") else 99 for q in sorted(kw)])
    exec(src, env)
    return env["func"]


def depth(case):
    t, d, a, b = case["dep"]
    if case["form"] == "int":
        return np.int64(t) if case["spell"] == 0 else t
    if case["form"] == "pair":
        return (t, a)
    if case["form"] == "dict":
        return {1: t, 2: a} if t else {2: a}
    return {1: (t, d), 2: (a, b)} if case["spell"] % 2 else ((t, d), (a, b))


def boundary(case):
    s = {"none": [None, "none", "None", None], "null": ["null", "NULL_value", "NoData", "nodata"], "reflect": ["reflect", "Reflect", "REFLECT", "reflect"],
         "nearest": ["nearest"] * 4, "periodic": ["periodic", "PERIODIC"] * 2, "const": [case["bv"], float(case["bv"]), np.int32(case["bv"]), case["bv"]]}
    return s[case["bnd"]][case["spell"]]


def apply(case, rs, func):
    import raster_tools as rts
    kw = {f"k{i}": v for i, v in enumerate(case["kw"])}
    dt = NPDT[case["dt"]]
    if case["hint"] == "dtype":
        kw["dtype"] = dt if case["spell"] % 2 else dt.str
    elif case["hint"] == "meta":
        kw["meta"] = np.array((), dtype=dt)
    if case["given"]:
        kw["null_value"] = dt.type(real(case["nv"])) if case["spell"] or case["dt"] == "b1" else real(case["nv"])
    if case["rm"]:
        kw["return_mask"] = True
    if case["ob"]:
        kw["out_bands"] = case["ob"]
    if case["kind"].endswith("overlap"):
        kw["depth"] = depth(case)
        b = boundary(case)
        if b is not None or case["spell"] == 3:
            kw["boundary"] = b
    if case["how"] == "method":
        return getattr(rs[0], case["kind"])(func, *rs[1:], **kw)
    return getattr(rts, case["kind"])(func, *rs, **kw)


def used_chunks(case, chunks, calls):
    """Chunks of the blocks: from the reference, as dask grows them for overlap, or as the calls tell."""
    if case["kind"].endswith("overlap"):
        from dask.array.overlap import ensure_minimum_chunksize
        t, d, a, b = case["dep"]
        return [chunks[0]] + [list(ensure_minimum_chunksize(k, tuple(c))) if k else c for k, c in ((max(t, d), chunks[1]), (max(a, b), chunks[2]))]
    if not case["ob"]:
        return chunks
    rows = {c["id"][1]: c["shape"][1] for c in calls}
    cols = {c["id"][2]: c["shape"][2] for c in calls}
    return [[sum(chunks[0])], [rows[q] for q in sorted(rows)], [cols[q] for q in sorted(cols)]]


def execute(case):
    import dask
    if case["op"] == "error":
        return error(case)
    if case["ob"]:
        case["wants"]["id"] = 1
    rs = rasters(case["rs"])
    ps = [proj(r) for r in rs]
    func = make(case, len(rs))
    chunks = [list(c) for c in rs[0].data.chunks]
    g = case["rs"][0]["g"]
    p = dict(nb=ps[0]["nb"], h=ps[0]["h"], w=ps[0]["w"], x0=int(g[0] * U), y0=int(g[1] * U), rx=int(g[2] * U), ry=int(g[3] * U), crs=enc_crs(rs[0].crs))
    over = int(case["kind"].endswith("overlap"))
    ev = dict(op="map", kind=case["kind"], geo=int(case["kind"].startswith("geo")), over=over, rs=ps, chunks=chunks, used=chunks, p=p, dep=case["dep"], bnd=case["bnd"],
              bv=case["bv"], wants=case["wants"], kw=case["kw"], ob=case["ob"], rm=case["rm"], given=case["given"], nv=enc(real(case["nv"])), dt=case["dt"],
              described=int(case["hint"] == "meta" or (case["hint"] == "dtype" and case["rm"] == 1)), probes=[], calls=[], out=DUMMY, ochunks=[], after=[], exc="")

    def run():
        LOG.clear()
        with dask.config.set({"array.chunk-size": case["size"]} if case["size"] and case["ob"] else {}):
            o = apply(case, rs, func)
            probes = [q for _, q in LOG]
            LOG.clear()
            res = proj(o)
            calls = [c for c, _ in LOG]
            oc = [list(c) for c in o.data.chunks]
        return res, probes, calls, oc, used_chunks(case, chunks, calls), [proj(r) for r in rs]
    res, exc = call(run)
    ev["exc"] = exc.split(":")[0]
    if exc:
        ev["msg"] = exc
    else:
        ev["out"], ev["probes"], ev["calls"], ev["ochunks"], ev["used"], ev["after"] = res
    return [ev]


def error(case):
    import raster_tools as rts
    from raster_tools.raster import data_to_raster
    err, kind, k = case["err"], case["kind"], int(case["pick"] * 100)
    x, y = np.arange(4) + 0.5, np.arange(3)[::-1] + 0.5
    r = data_to_raster(np.arange(24, dtype="f8").reshape(2, 3, 4), x=x, y=y, crs="EPSG:5070")
    if err in ("overlapbands", "negative", "depthtype", "uneven", "banddepth", "axis", "boundary"):
        kind = "geo_map_overlap" if kind.startswith("geo") else "map_overlap"
    elif err in ("outbands", "wrongbands"):
        kind = "geo_map_blocks" if kind.startswith("geo") else "map_blocks"
    elif err == "grid":
        kind = "geo_map_overlap" if kind.endswith("overlap") else "geo_map_blocks"
    kw = dict(depth=1) if kind.endswith("overlap") else {}
    rs = [r]

    def func(*d, **kwargs):
        return np.asarray(d[0])
    if err == "none":
        rs = []
    elif err == "reserved":
        names = ["input_masks", "input_null_values", "block_info", "block_id", "out_null_value"] + (["geo_block_info"] if kind.startswith("geo") else [])
        kw[names[k % len(names)]] = None
    elif err == "dask":
        names = ["chunks", "name", "token", "drop_axis", "new_axis", "enforce_ndim", "concatenate"]
        kw[names[k % len(names)]] = "x"
    elif err == "conflict":
        kw.update(dtype="f4", meta=np.array((), dtype="f8"))
    elif err == "outbands":
        kw["out_bands"] = [0, -1, 1.5, True, "2"][k % 5]
    elif err == "overlapbands":
        kw["out_bands"] = 2
    elif err == "negative":
        kw["depth"] = [-1, (-1, 0), (1, -2), {1: -1}, {2: (1, -1)}][k % 5]
    elif err == "depthtype":
        kw["depth"] = ["1", 1.5, None, (1, 2, 3), {1: 0.5}, {2: (1, 1.5)}, [1, 1]][k % 7]
    elif err == "uneven":
        kw.update(depth=[{1: (0, 1)}, {2: (1, 0)}, ((1, 0), 1)][k % 3], boundary=["reflect", "null", 0, "periodic", "nearest"][k % 5])
    elif err == "banddepth":
        kw["depth"] = [{0: 1}, {0: 1, 1: 1}, {0: (1, 1)}][k % 3]
    elif err == "axis":
        kw["depth"] = [{3: 1}, {-1: 1}, {"y": 1}][k % 3]
    elif err == "nulltext":
        kw.update(null_value=["nan", "0"][k % 2], dtype="f8")
    elif err == "boundary":
        kw["boundary"] = ["mirror", "nul", "", "constant"][k % 4]
    elif err == "shape":
        rs = [r, [data_to_raster(np.zeros((1, 3, 4)), x=x, y=y, crs="EPSG:5070"), data_to_raster(np.zeros((2, 3, 3)), x=x[:3], y=y, crs="EPSG:5070")][k % 2]]
    elif err == "grid":
        d = np.zeros((2, 3, 4))
        rs = [r, [data_to_raster(d, x=x + 1, y=y, crs="EPSG:5070"), data_to_raster(d, x=x, y=y, crs="EPSG:3857"), data_to_raster(d, x=x * 2, y=y, crs="EPSG:5070")][k % 3]]
    elif err == "wrongbands":
        kw.update(out_bands=3, dtype="f8")
        if k % 2:
            kw["return_mask"] = True

            def func(*d, **kwargs):
                return np.asarray(d[0]), np.asarray(d[0]) > 3
    elif err in ("wrongmask", "nopair"):
        kw.update(return_mask=True, dtype="f8")

        def func(*d, **kwargs):
            a = np.asarray(d[0])
            return (a, np.zeros(a.shape[1:], bool)) if err == "wrongmask" else (a, a > 1, a) if k % 2 else a
    _, exc = call(lambda: proj(getattr(rts, kind)(func, *rs, **kw)))
    return [dict(op="error", err=err, kind=kind, exc=exc.split(":")[0], msg=exc)]
