"""Places of rasters and of what is cut from them: padding, clipping by boxes, quadrants, chunks, coordinates."""
import numpy as np

from vt.enc import DUMMY, enc, enc_crs, proj
from vt.harness import call
from vt.session import NPDT, arr, raster_spec, real

TRACE = "GeorefTrace"
IMPORTS = ["general", "clipping", "warp"]
MODELS = [("MC_Georef", "MC_Georef.cfg", dict(workers=2)), ("MC_Georef", "MC_Georef_deep.cfg", dict(workers=4, tier="thorough"))]
U = 64
OPS = ["pad", "pad", "pad", "clip_box", "clip_box", "clip_box", "quadrants", "chunks", "boxes", "coords", "xy", "xy", "index", "index", "reproject", "reproject", "bands", "same", "rechunk", "back", "error"]
SAME = ["neg", "add", "isnull", "astype", "where", "replace", "copy", "round", "load", "burn"]
ERRORS = ["pad-length", "pad-type", "pad-text", "fill-length", "fill-type", "fill-items", "pad-crs", "pad-box-crs", "clip-length", "offset"]
WANT = {"pad-type": "TypeError", "fill-type": "TypeError", "fill-items": "TypeError"}
OFFSETS = ["center", "center", "ul", "ur", "ll", "lr"]
NOTHING = dict(ok=0, nb=0, shape=[0, 0, 0], x=[], y=[], affine=[0, 0, 0, 0, 0, 0], res=[], bounds=[], gbaffine=[], gbshape=[], gbcrs=0, crs=0, bands=[], d=[], m=[], nv=0, dt="")
RES = [(1, 1), (2, 3), (0.5, 0.5), (30, 30), (0.125, 4), (10, 2), (4, 1), (0.25, 0.5)]


def PLAN(tier):
    return dict(cases=260 if tier == "quick" else 9000, seconds=60 if tier == "quick" else 700)


def generate(rng, k, tier):
    nb, h, w = rng.choice([1, 1, 2, 3]), rng.randint(1, 6), rng.randint(1, 6)
    dt = rng.choice(["u1", "i2", "i4", "f4", "f8", "b1", "u2", "i8", "i1"])
    pool = [0, 1] if dt == "b1" else [0, 1, 2, 5, 9, 30, 44, 61]
    s = raster_spec(rng, dt=dt, shape=(nb, h, w), nan_ok=False, pool=pool, load=False)
    n = rng.randint(2, 6)
    ops = []
    for _ in range(n):
        ops.append(dict(op=rng.choice(OPS), a=[rng.choice([-9, -2, -1, -1, 0, 0, 0, 1, 1, 2, 3, 8]) for _ in range(4)], q=[rng.choice([0, 0, 1, 2, 3]) for _ in range(4)],
                        how=rng.choice(["function", "method"]), form=rng.choice(["tuple", "list", "array", "raster", "geobox"]), fill=rng.choice(["none", "none", "scalar", "scalar", "list", "null"]),
                        v=[rng.choice([0, 1]) if dt == "b1" else rng.choice([0, 1, 7, 50]) for _ in range(4)], pick=rng.random(), bands=[rng.random() for _ in range(rng.randint(1, 3))],
                        rc=[rng.choice([-3, -1, 0, 0, 1, 2, 3, 5, 9]) for _ in range(8)], off=rng.choice(OFFSETS), kind=rng.choice(["scalar", "list", "array", "tuple", "float"]),
                        same=rng.choice(SAME), err=rng.choice(ERRORS), ch=[rng.randint(1, 3) for _ in range(3)]))
    rx, ry = rng.choice(RES)
    return dict(s=s, x0=rng.choice([0, 16, -100, 2000]), y0=rng.choice([0, 8, -64, 1000]), rx=rx, ry=ry, crs=rng.choice(["EPSG:5070", "EPSG:3857", "EPSG:4326", None]), ops=ops)


def fx(v):
    return [enc(float(q) * U) for q in v]


def aff(a):
    return fx([a.a, a.b, a.c, a.d, a.e, a.f])


def crs_of(c):
    import rasterio
    return enc_crs(None if c is None else rasterio.crs.CRS.from_user_input(str(c)).to_string())


def obs(r, place=None):
    p = proj_plain(r)
    gb = r.geobox
    return dict(ok=1, nb=p["nb"], shape=[int(q) for q in r.shape], x=fx(r.x), y=fx(r.y), affine=aff(r.affine), res=[enc(abs(float(q)) * U) for q in r.resolution], bounds=fx(r.bounds),
                gbaffine=aff(gb.affine), gbshape=[int(q) for q in gb.shape], gbcrs=crs_of(gb.crs), crs=crs_of(r.crs), bands=[int(b) for b in r.band], d=p["d"], m=p["m"], nv=p["nv"], dt=p["dt"])


def proj_plain(r):
    p = proj(r)
    p["g"] = []
    return p


def place(o):
    a = o["affine"]
    return dict(x0=a[2], y0=a[5], rx=a[0], ry=-a[4], nb=o["shape"][0], h=o["shape"][1], w=o["shape"][2], crs=o["crs"])


def build(case):
    from affine import Affine

    from raster_tools.raster import data_to_raster
    s = case["s"]
    kw = {}
    if s.get("m") is not None:
        kw = dict(mask=np.array(s["m"], dtype=bool).reshape(s["nb"], s["h"], s["w"]), burn=True)
    r = data_to_raster(arr(s["d"], s["dt"], (s["nb"], s["h"], s["w"])), affine=Affine(case["rx"], 0, case["x0"], 0, -case["ry"], case["y0"]), crs=case["crs"],
                       nv=None if s["nv"] is None else NPDT[s["dt"]].type(real(s["nv"])), **kw)
    if s.get("c"):
        r = r.chunk(tuple(tuple(c) for c in s["c"]))
    return r


def box_of(p, o):
    """A box near the raster, in scaled units; edges on the lines of the grid or within cells."""
    q = [v if (v or dyadic(p)) else 1 for v in o["q"]]
    b = [p["x0"] + o["a"][0] * p["rx"] + q[0] * p["rx"] // 4, p["y0"] - p["h"] * p["ry"] + o["a"][1] * p["ry"] - q[1] * p["ry"] // 4,
         p["x0"] + p["w"] * p["rx"] + o["a"][2] * p["rx"] - q[2] * p["rx"] // 4, p["y0"] + o["a"][3] * p["ry"] + q[3] * p["ry"] // 4]
    if b[2] <= b[0]:
        b[2] = b[0] + p["rx"] // 2
    if b[3] <= b[1]:
        b[3] = b[1] + p["ry"] // 2
    return b


def dyadic(p):
    return all((v & (v - 1)) == 0 for v in (p["rx"], p["ry"]))


def target(b, o, p, crs):
    """The extent in the form asked for (of a raster or geobox on another grid) and its edges."""
    v = [q / U for q in b]
    if o["form"] in ("raster", "geobox"):
        from affine import Affine
        from odc.geo.geobox import GeoBox
        n = 2
        a = Affine((v[2] - v[0]) / n, 0, v[0], 0, -(v[3] - v[1]) / n, v[3])
        if o["form"] == "geobox":
            return GeoBox((n, n), a, crs)
        from raster_tools.raster import data_to_raster
        return data_to_raster(np.zeros((1, n, n)), affine=a, crs=crs)
    return {"tuple": tuple, "list": list, "array": np.array}[o["form"]](v)


def event(op, p, r, exc="", **kw):
    ev = dict(op=op, p=p, r=r, exc=exc.split(":")[0], msg=exc[:200])
    ev.update(kw)
    return ev


def execute(case):
    r = build(case)
    p = dict(nb=case["s"]["nb"], h=case["s"]["h"], w=case["s"]["w"], x0=case["x0"] * U, y0=case["y0"] * U, rx=int(case["rx"] * U), ry=int(case["ry"] * U), crs=crs_of(case["crs"]))
    got, exc = call(obs, r)
    evs = [event("report", p, DUMMY, exc, got=NOTHING if exc else got)]
    if exc:
        return evs
    for o in case["ops"]:
        n = len(evs)
        new = step(case, r, p, o, evs)
        if len(evs) == n:
            continue
        if evs[-1]["exc"] and o["op"] not in ("error", "clip_box"):
            break
        if new is not None:
            r = new
            ob, exc = call(obs, r)
            if exc or ob["affine"][0] <= 0 or ob["affine"][4] >= 0 or max(ob["shape"][1:]) > 14:
                break
            p = place(ob)
    return evs


def step(case, r, p, o, evs):
    import raster_tools as rts
    op, method = o["op"], o["how"] == "method"
    rp = proj_plain(r)
    chunks = [list(c) for c in r.data.chunks]

    def put(f, name=op, **kw):
        res, exc = call(f)
        new, got = (None, None) if exc else res
        evs.append(event(name, p, rp, exc, got=NOTHING if exc else got, **kw))
        return new
    if op == "pad":
        b = box_of(p, o)
        fill, kw = [], {}
        if rp["dt"] == "b1":
            o["v"] = [v % 2 for v in o["v"]]
        if o["fill"] == "scalar":
            fill = [o["v"][0]]
            kw["fill_values"] = o["v"][0]
        elif o["fill"] == "null" and r.null_value is not None and r.null_value == r.null_value and abs(r.null_value) < 1e6:
            fill = [enc(r.null_value)]
            kw["fill_values"] = r.null_value.item() if isinstance(r.null_value, np.generic) else r.null_value
        elif o["fill"] == "list":
            fill = o["v"][:1] * p["nb"] if p["nb"] > 4 else o["v"][:p["nb"]]
            kw["fill_values"] = tuple(fill) if o["pick"] < 0.5 else list(fill)
        t = target(b, o, p, r.crs)

        def run():
            q = r.pad(t, **kw) if method else rts.general.pad(r, t, **kw) if hasattr(rts.general, "pad") else rts.pad(r, t, **kw)
            return q, obs(q)
        return put(run, box=b, fill=fill)
    if op == "clip_box":
        b = box_of(p, o)
        v = {"tuple": tuple, "list": list}.get(o["form"], np.array)([q / U for q in b])

        def run():
            q = rts.clipping.clip_box(r, v)
            return q, obs(q)
        return put(run, box=b)
    if op == "reproject":
        if case["crs"] is None or rp["dt"] == "b1":
            return None
        from affine import Affine
        from odc.geo.geobox import GeoBox
        w = dict(r0=o["rc"][0] % 5 - 2, c0=o["rc"][1] % 5 - 2)
        w.update(r1=w["r0"] + 1 + o["ch"][1] * 2, c1=w["c0"] + 1 + o["ch"][2] * 2)
        gb = GeoBox((w["r1"] - w["r0"], w["c1"] - w["c0"]), r.affine * Affine.translation(w["c0"], w["r0"]), r.crs)

        def run():
            q = r.reproject(gb) if method else rts.warp.reproject(r, gb)
            return q, obs(q)
        return put(run, w=w)
    if op == "quadrants":
        def run():
            q = r.to_quadrants()
            out = []
            for i, v in enumerate([q.nw, q.ne, q.sw, q.se]):
                if 0 in v.shape:
                    out.append(NOTHING)
                    continue
                ob, exc = call(obs, v)
                out.append(NOTHING if exc else ob)
            i = int(o["pick"] * 4)
            return (None if 0 in q[i].shape else q[i]), out
        return put(run)
    if op == "chunks":
        if o["ch"][0] > 1:
            r = r.chunk((o["ch"][0], -1, o["ch"][2]))
            chunks = [list(c) for c in r.data.chunks]

        def run():
            q = r.get_chunk_rasters()
            at = [list(i) for i in np.ndindex(q.shape)]
            out = []
            for v in q.ravel():
                ob, exc = call(obs, v)
                out.append(NOTHING if exc else ob)
            return q.ravel()[int(o["pick"] * q.size)], (at, out)
        res, exc = call(run)
        evs.append(event("chunks", p, rp, exc, chunks=chunks, at=[] if exc else res[1][0], got=[] if exc else res[1][1]))
        return None if exc or o["ch"][1] == 1 else res[0]
    if op == "boxes":
        def run():
            t = r.get_chunk_bounding_boxes(bool(o["ch"][1] % 2))
            bands = list(t["chunk_band"]) if o["ch"][1] % 2 else [0] * len(t)
            got = [[int(a), int(b), int(c), fx(g.bounds)] for a, b, c, g in zip(bands, t["chunk_row"], t["chunk_col"], t.geometry)]
            return got, crs_of(t.crs)
        res, exc = call(run)
        evs.append(event("boxes", p, rp, exc, chunks=chunks, bands=o["ch"][1] % 2, got=[] if exc else res[0], gotcrs=0 if exc else res[1]))
        return None
    if op == "coords":
        def run():
            x, y = r.get_chunked_coords if not callable(r.get_chunked_coords) else r.get_chunked_coords()
            return fx(np.asarray(x).ravel()), fx(np.asarray(y).ravel()), [list(c) for c in x.chunks], [list(c) for c in y.chunks]
        res, exc = call(run)
        evs.append(event("coords", p, rp, exc, chunks=chunks, x=[] if exc else res[0], y=[] if exc else res[1], xc=[] if exc else res[2], yc=[] if exc else res[3]))
        return None
    if op in ("xy", "index", "back"):
        places(r, p, rp, o, evs)
        return None
    if op == "bands":
        lst = [1 + int(v * p["nb"]) for v in o["bands"]]

        def run():
            q = r.get_bands(lst if len(lst) > 1 or o["pick"] < 0.5 else lst[0])
            return q, obs(q)
        return put(run, list=lst)
    if op == "same":
        def run():
            q = cellwise(r, o["same"])
            return q, obs(q)
        return put(run, name="same")
    if op == "rechunk":
        def run():
            q = r.chunk((1, o["ch"][1], o["ch"][2]))
            return q, obs(q)
        return put(run, name="same")
    error(r, p, rp, o, evs)
    return None


def cellwise(r, name):
    from raster_tools.general import where
    if name == "neg":
        return r + r
    if name == "add":
        return r * 2
    if name == "isnull":
        return r.to_null_mask()
    if name == "astype":
        return r.astype("f8")
    if name == "where":
        return where(r > 3, r, 0)
    if name == "replace":
        return r.replace_null(1) if r.null_value is not None else r.set_null_value(1)
    if name == "copy":
        return r.copy()
    if name == "round":
        return r.round()
    if name == "load":
        return r.load()
    return r.burn_mask()


def shaped(v, kind):
    if kind in ("scalar", "float"):
        return float(v[0]) if kind == "float" else v[0]
    return {"list": list, "tuple": tuple, "array": np.array}[kind](v)


def flat(v):
    return [float(q) for q in np.atleast_1d(np.asarray(v))], "scalar" if np.ndim(v) == 0 else "array"


def places(r, p, rp, o, evs):
    kind = o["kind"]
    n = 1 if kind in ("scalar", "float") else 4
    rows, cols = o["rc"][:n], o["rc"][4:4 + n]
    want = "scalar" if n == 1 else "array"
    if o["op"] == "xy":
        row4, col4 = [4 * v for v in rows], [4 * v for v in cols]
        if kind in ("float", "array"):
            row4, col4 = [v + o["q"][0] for v in row4], [v + o["q"][1] for v in col4]
            rows, cols = [v / 4 for v in row4], [v / 4 for v in col4]

        def run():
            x, y = r.xy(shaped(rows, kind), shaped(cols, kind), o["off"]) if o["off"] != "center" or o["pick"] < 0.5 else r.xy(shaped(rows, kind), shaped(cols, kind))
            return flat(x), flat(y)
        res, exc = call(run)
        evs.append(event("xy", p, rp, exc, row=row4, col=col4, offset=o["off"], kind=want, gkind="" if exc else res[0][1], gx=[] if exc else fx(res[0][0]), gy=[] if exc else fx(res[1][0])))
        return
    if o["op"] == "index":
        # within cells, and on their edges where these are exact
        qx, qy = [v if (v or dyadic(p)) else 2 for v in o["q"][:2]]
        x = [p["x0"] + v * p["rx"] + qx * p["rx"] // 4 for v in cols]
        y = [p["y0"] - v * p["ry"] - qy * p["ry"] // 4 for v in rows]

        def run():
            a, b = r.index(shaped([v / U for v in x], kind), shaped([v / U for v in y], kind))
            return flat(a), flat(b)
        res, exc = call(run)
        evs.append(event("index", p, rp, exc, x=x, y=y, kind=want, gkind="" if exc else res[0][1], grow=[] if exc else [int(v) for v in res[0][0]], gcol=[] if exc else [int(v) for v in res[1][0]]))
        return

    def run():
        a, b = r.index(*r.xy(shaped(rows, kind), shaped(cols, kind)))
        return flat(a), flat(b)
    res, exc = call(run)
    evs.append(event("back", p, rp, exc, row=rows, col=cols, grow=[] if exc else [int(v) for v in res[0][0]], gcol=[] if exc else [int(v) for v in res[1][0]]))


def error(r, p, rp, o, evs):
    import raster_tools as rts
    from raster_tools.raster import data_to_raster
    err, k = o["err"], int(o["pick"] * 10)
    b = [q / U for q in box_of(p, o)]

    def run():
        if err == "pad-length":
            return r.pad([b[:3], b + [1], []][k % 3])
        if err == "pad-type":
            return r.pad([None, 5][k % 2])
        if err == "pad-text":
            return r.pad(["a", None, 1, 2])
        if err == "fill-length":
            return r.pad(b, fill_values=[0] * (p["nb"] + 1))
        if err == "fill-type":
            return r.pad(b, fill_values=[{}, "0", np.zeros((1, 1))][k % 2])
        if err == "fill-items":
            return r.pad(b, fill_values=["0"] * p["nb"])
        if err in ("pad-crs", "pad-box-crs"):
            q = data_to_raster(np.zeros((1, 2, 2)), x=np.array([0.5, 1.5]), y=np.array([1.5, 0.5]), crs="EPSG:6933")
            if r.crs is None:
                raise ValueError("no CRS")
            return r.pad(q if err == "pad-crs" else q.geobox)
        if err == "clip-length":
            return rts.clipping.clip_box(r, [b[:3], b + [1]][k % 2])
        return r.xy(0, 0, ["mid", "", "UL"][k % 3])
    _, exc = call(run)
    evs.append(event("error", p, rp, exc, err=err, want=WANT.get(err, "ValueError")))
