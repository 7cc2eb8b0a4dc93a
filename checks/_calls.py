"""Cases for the catalogue of calls: operands, parameters and configurations (chunks, loading, partitions, scheduler)."""
import os
import tempfile
import types

import numpy as np

from checks._feat import frame, gen_frame
from vt import catalog
from vt.harness import call
from vt.session import NPDT, arr, chunks3, raster_spec, real

DT = ["u1", "i2", "i4", "i8", "f4", "f8", "f4", "f8", "b1", "i1", "u2", "f2"]
GRID = [0.0, 40.0, 1.0, 1.0, "EPSG:5070"]
GRID2 = [100.0, 50.0, 2.0, 1.0, "EPSG:5070"]


def operands(rng, name):
    h, w = rng.choice([1, 2, 3, 4, 5, 6, 7]), rng.choice([1, 2, 3, 4, 5, 6, 7])
    nb = rng.choice([1, 1, 2, 3])
    dts = [d for d in DT if d != "f2"] if name in ("saved", "polygons", "remap", "reproject", "morph", "mosaic", "points", "correlate") else DT
    if name == "clip":
        h, w = max(h, 2), max(w, 2)
    if name in ("correlate", "focal"):
        h, w = max(h, 3), max(w, 3)
    g = GRID if name in ("reproject", "proximity", "cost", "length", "tpi") else rng.choice([GRID, GRID, GRID2])
    spec = lambda dt, b, pool, m=None: raster_spec(rng, dt=dt, shape=(b, h, w), nan_ok=False, pool=pool, load=False, explicit=0.0, g=g, masked=m, chunks=False)  # noqa: E731
    a, b = rng.choice(dts), rng.choice(dts)
    small = [0, 1, 2, 3, 5, 7]
    c = dict(A=spec(a, nb, [0, 1] if a == "b1" else small), B=spec(b, nb, [0, 1] if b == "b1" else small), L=spec(rng.choice(["u1", "i2", "i4", "i8"]), 1, [0, 1, 1, 2]))
    f = gen_frame(rng, h, w, kinds=("rect", "rect", "poly"), n=rng.choice([1, 2, 3]), empties=False)
    f.update(form="vector", field="i4", fv=[rng.choice([1, 2, 5]) for _ in f["f"]], spatial=0)
    f.pop("index", None)
    pts = gen_frame(rng, h, w, kinds=("point",), n=rng.choice([1, 3, 5]), empties=False)
    pts.update(form="vector", spatial=0)
    pts["f"] = [p[:1] for p in pts["f"]]
    pts.pop("index", None)
    ln = gen_frame(rng, h, w, kinds=("line",), n=rng.choice([1, 2]), empties=False)
    ln.update(form="vector", spatial=0)
    c.update(V=f, P=pts, W=ln)
    for q in (f, pts, ln):
        q.setdefault("np", 1)
    return c


def config(rng, c):
    """One way to hold the operands."""
    s = c["A"]
    mode = rng.choice(["ones", "rows", "cols", "random", "random", "random", "loaded", "whole"])
    out = dict(np=rng.choice([1, 2, 3]), sched=rng.choice(["threads", "sync"]), ch={}, load=[])
    for k in "ABL":
        nb, h, w = c[k]["nb"], s["h"], s["w"]
        m = mode if rng.random() < 0.6 else rng.choice(["random", "whole", "loaded", "ones"])
        if m == "loaded":
            out["load"].append(k)
        out["ch"][k] = dict(ones=[[1] * nb, [1] * h, [1] * w], rows=[[1] * nb, [1] * h, [w]], cols=[[nb], [h], [1] * w], whole=[[nb], [h], [w]], loaded=[[1] * nb, [h], [w]]).get(m) or [list(q) for q in chunks3(rng, nb, h, w)]
    return out


def whole(c):
    return dict(np=1, sched="sync", load=[], ch={k: [[c[k]["nb"]], [c[k]["h"]], [c[k]["w"]]] for k in "ABL"})


def build(s):
    from affine import Affine

    from raster_tools.raster import data_to_raster
    kw, (x0, y0, rx, ry, crs) = {}, s["g"]
    if s.get("m") is not None:
        kw = dict(mask=np.array(s["m"], dtype=bool).reshape(s["nb"], s["h"], s["w"]), burn=True)
    return data_to_raster(arr(s["d"], s["dt"], (s["nb"], s["h"], s["w"])), affine=Affine(rx, 0, x0, 0, -ry, y0), crs=crs, nv=None if s["nv"] is None else NPDT[s["dt"]].type(real(s["nv"])), **kw)


def hold(c, cfg, d, k):
    """The operands as the configuration asks for."""
    S = types.SimpleNamespace(p=c["p"], dir=d, k=k)
    for n in "ABL":
        r = build(c[n]).chunk(tuple(tuple(q) for q in cfg["ch"][n]))
        setattr(S, n, r.load() if n in cfg["load"] else r)
    g = c["A"]["g"]
    for n in "VPW":
        setattr(S, n, frame(dict(c[n], np=cfg["np"]), g, g[4]))
    return S


def outcome(c, S, cfg):
    import dask

    def run():
        return catalog.parts_of(catalog.CALLS[c["call"]](S), S.A)
    with dask.config.set(scheduler="threads" if cfg["sched"] == "threads" else "synchronous"):
        res, exc = call(run)
    return [] if exc else res, exc


def case(rng, nconf):
    name = rng.choice(catalog.NAMES)
    c = dict(call=name, p=[rng.randrange(60) for _ in range(7)], **operands(rng, name))
    c["configs"] = [whole(c)] + [config(rng, c) for _ in range(nconf)]
    return c


def scratch():
    return tempfile.TemporaryDirectory(prefix="vtcalls-", dir=os.environ.get("VT_SCRATCH"))


def summary(c):
    return dict(call=c["call"], p=c["p"], A=[c["A"]["dt"], c["A"]["nb"], c["A"]["h"], c["A"]["w"]])


__all__ = ["case", "hold", "outcome", "scratch", "np", "summary"]
