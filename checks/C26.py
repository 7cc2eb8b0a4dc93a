"""Predictions by a model over rasters and tables."""
import threading

import numpy as np

from vt.enc import DUMMY, enc, enc_crs, proj
from vt.func import rasters
from vt.harness import call
from vt.session import raster_spec

TRACE = "PredictTrace"
IMPORTS = ["general", "vector"]
MODELS = [("MC_Predict", "MC_Predict.cfg", dict(workers=2)), ("MC_Predict", "MC_Predict_deep.cfg", dict(workers=4, tier="thorough"))]
DTS = ["u1", "i1", "i2", "u2", "i4", "i8", "f4", "f8", "f2", "b1", "u4", "u8"]
ERRORS = ["outputs", "field", "prefix-taken", "prefix-type", "vec-outputs", "method", "method-type"]
LOG = []
LOCK = threading.Lock()


def PLAN(tier):
    return dict(cases=300 if tier == "quick" else 9000, seconds=60 if tier == "quick" else 700)


def model_spec(rng, n):
    k = rng.choice([1, 1, 2, 3])
    return dict(mod=[dict(w=rng.sample([-5, -3, -2, -1, 1, 2, 4, 7, 11, 13], n), c=rng.choice([0, 5, -8])) for _ in range(k)],
                kind=rng.choice(["object", "function", "method"]), flat=int(rng.random() < 0.6), out=rng.choice(["f8", "f8", "f4", "i8", "i4"]),
                picky=int(rng.random() < 0.5))


def generate(rng, k, tier):
    if k % 25 == 24:
        return dict(op="error", err=ERRORS[(k // 25) % len(ERRORS)])
    if k % 5 < 3:
        dt = rng.choice(DTS)
        pool = {"u": [0, 1, 2, 3, 5, 8, 13, 60], "i": [-9, -3, 0, 1, 2, 4, 7, 50], "b": [0, 1], "f": [-9, -3, 0, 1, 2, 4, 7, 50]}[dt[0]]
        nb = rng.choice([1, 2, 3, 3, 4])
        r = raster_spec(rng, dt=dt, shape=(nb, rng.randint(1, 5), rng.randint(1, 6)), nan_ok=False, pool=pool)
        return dict(op="raster", r=r, m=model_spec(rng, nb), size=rng.choice([None, "16B", "40B", "64B", "200B"]), how=rng.choice(["function", "method"]))
    n = rng.choice([1, 2, 3, 4, 6, 9])
    cols = ["a", "b", "c", "d"][:rng.randint(1, 4)]
    kinds = {c: rng.choice(["f8", "f8", "i8", "i4", "f4", "b1", "u1"]) for c in cols}
    p = rng.choice([0, 0.2, 0.6, 1.0])
    rows = []
    for _ in range(n):
        row = {}
        for c in cols:
            t = kinds[c]
            row[c] = ("nan" if rng.random() < p else rng.choice([-9, 0, 1, 2, 40])) if t[0] == "f" else rng.choice([0, 1]) if t == "b1" else rng.choice([0, 1, 3, 50])
        rows.append(row)
    fields = rng.sample(cols, rng.randint(1, len(cols)))
    return dict(op="table", rows=rows, kinds=kinds, fields=fields, m=model_spec(rng, len(fields)), parts=rng.randint(1, 4), form=rng.choice(["gdf", "dgdf", "vector", "vector-dask"]),
                prefix=rng.choice(["pred_", "pred_", "p", "a"]), index=rng.choice(["range", "shifted", "named", "repeated"]), how=rng.choice(["function", "method"]))


class Linear:
    def __init__(self, s):
        self.s = s

    def predict(self, x):
        x = np.asarray(x)
        if self.s["picky"] and len(x) == 0:
            raise ValueError("Found array with 0 sample(s) while a minimum of 1 is required")
        with LOCK:
            LOG.extend([enc(v) for v in q] for q in x.astype(float))
        x = x.astype(float)
        out = np.stack([x @ np.array(m["w"], float) + m["c"] for m in self.s["mod"]], axis=1).astype(self.s["out"])
        return out[:, 0] if self.s["flat"] and out.shape[1] == 1 else out

    transform = predict


def make_model(s):
    from raster_tools.general import ModelPredictAdaptor
    m = Linear(s)
    if s["kind"] == "function":
        return ModelPredictAdaptor(m.predict)
    if s["kind"] == "method":
        return ModelPredictAdaptor(m, "transform")
    return m


def execute(case):
    if case["op"] == "error":
        return error(case["err"])
    LOG.clear()
    m = make_model(case["m"])
    n = len(case["m"]["mod"])
    return raster_case(case, m, n) if case["op"] == "raster" else table_case(case, m, n)


def raster_case(case, m, n):
    import dask

    from raster_tools.general import model_predict_raster
    r = rasters([case["r"]])[0]
    rp = proj(r)
    args = (m, n) if n > 1 else (m,)
    ev = dict(op="raster", r=rp, r2=rp, mod=case["m"]["mod"], out=DUMMY, seen=[], exc="", crs=enc_crs(r.crs), ocrs=0)

    def run():
        with dask.config.set({"array.chunk-size": case["size"]} if case["size"] else {}):
            o = r.model_predict(*args) if case["how"] == "method" else model_predict_raster(r, *args)
            LOG.clear()
            return proj(o), enc_crs(o.crs), [list(q) for q in LOG], proj(r)
    res, exc = call(run)
    ev["exc"] = exc
    if not exc:
        ev["out"], ev["ocrs"], ev["seen"], ev["r2"] = res
        if 1 in (rp["h"], rp["w"]):
            ev["r"] = dict(rp, g=[])
            ev["r2"] = dict(ev["r2"], g=[])
            ev["out"]["g"] = []
    return [ev]


def table(case):
    import geopandas as gpd
    import pandas as pd
    from shapely.geometry import Point
    rows = case["rows"]
    n = len(rows)
    from vt.session import real
    d = {c: np.array([real(q[c]) for q in rows], dtype={"b1": bool}.get(t, t)) for c, t in case["kinds"].items()}
    d["txt"] = [f"t{i}" for i in range(n)]
    idx = {"range": pd.RangeIndex(n), "shifted": pd.RangeIndex(10, 10 + n), "named": pd.Index([f"r{i}" for i in range(n)]), "repeated": pd.Index([i // 2 for i in range(n)])}[case["index"]]
    return gpd.GeoDataFrame(pd.DataFrame(d, index=idx), geometry=[Point(i, -i) for i in range(n)], crs="EPSG:5070")


def same_table(a, b):
    return all(c == "txt" or a[c].dtype == b[c].dtype for c in b.columns) and all(
        [repr(v) for v in a[c]] == [repr(v) for v in b[c]] for c in b.columns)


def table_case(case, m, n):
    import dask_geopandas as dgpd

    from raster_tools import Vector
    from raster_tools.general import model_predict_vector
    g = table(case)
    keep = g.copy()
    f = case["form"]
    src = g if f in ("gdf", "vector") else dgpd.from_geopandas(g, npartitions=case["parts"], sort=False)
    if f.startswith("vector") or case["how"] == "method":
        src = Vector(src)
    kw = {} if case["prefix"] == "pred_" else dict(out_prefix=case["prefix"])
    if n > 1:
        kw["n_outputs"] = n
    rows = [[enc(float(q)) for q in t] for t in g[case["fields"]].to_numpy(dtype=float)]
    ev = dict(op="table", rows=rows, mod=case["m"]["mod"], out=[], seen=[], exc="", cols=[], oldcols=list(g.columns), meta=[], prefix=case["prefix"], types=[], kept=0, src=1)

    def run():
        o = src.model_predict(m, case["fields"], **kw) if isinstance(src, Vector) and case["how"] == "method" else model_predict_vector(src, m, case["fields"], **kw)
        meta = list(o.data.columns)
        LOG.clear()
        t = o.data.compute()
        seen = [list(q) for q in LOG]
        names = [case["prefix"] + str(j + 1) for j in range(n)]
        old = t[list(keep.columns)]
        kept = int(same_table(old, keep) and list(old.index) == list(keep.index) and t.crs == keep.crs and type(t) is type(keep))
        unchanged = Vector(src).data.compute() if not isinstance(src, Vector) else src.data.compute()
        same = int(same_table(unchanged, keep) and list(unchanged.columns) == list(keep.columns))
        return (list(t.columns), meta, seen, [[enc(float(v)) for v in q] for q in t[names].to_numpy(dtype=float)],
                [str(t[c].dtype) for c in names], kept, same)
    res, exc = call(run)
    ev["exc"] = exc
    if not exc:
        ev["cols"], ev["meta"], ev["seen"], ev["out"], ev["types"], ev["kept"], ev["src"] = res
    return [ev]


def error(err):
    from raster_tools import Vector
    from raster_tools.general import ModelPredictAdaptor, model_predict_raster, model_predict_vector
    m = Linear(dict(mod=[dict(w=[1], c=0)], flat=1, out="f8", picky=0))
    r = rasters([dict(dt="u1", nv=None, nb=1, h=2, w=2, d=[1, 2, 3, 4], m=None, g=[0.0, 0.0, 1.0, 1.0, None], c=None, load=0)])[0]
    v = Vector(table(dict(rows=[dict(a=1)], kinds=dict(a="f8"), index="range")))
    want, f = {
        "outputs": ("ValueError", lambda: model_predict_raster(r, m, 0)),
        "field": ("KeyError", lambda: model_predict_vector(v, m, ["zz"])),
        "prefix-taken": ("KeyError", lambda: model_predict_vector(model_predict_vector(v, m, ["a"]), m, ["a"])),
        "prefix-type": ("TypeError", lambda: model_predict_vector(v, m, ["a"], out_prefix=3)),
        "vec-outputs": ("ValueError", lambda: model_predict_vector(v, m, ["a"], n_outputs=0)),
        "method": ("AttributeError", lambda: ModelPredictAdaptor(m, "nope")),
        "method-type": ("ValueError", lambda: ModelPredictAdaptor(m, 3)),
    }[err]
    _, exc = call(f)
    return [dict(op="error", err=err, want=want, exc=exc.split(":")[0])]
