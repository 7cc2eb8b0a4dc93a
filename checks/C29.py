"""Vectors: sessions of operations over tables of features."""
import os
import tempfile

import numpy as np

from vt.enc import enc, enc_crs
from vt.harness import call
from vt.session import real

TRACE = "VectorTrace"
IMPORTS = ["vector"]
MODELS = [("MC_VectorOps", "MC_VectorOps.cfg", dict(workers=2)), ("MC_VectorOps", "MC_VectorOps_deep.cfg", dict(workers=4, tier="thorough"))]
TXT = 400000000      # codes of texts t0, t1, ...
OPS = ["copy", "load", "lazy", "partitions", "dask", "coerce", "save", "shuffle", "shuffle", "crs", "buffer", "simplify", "cast", "cast", "get", "get", "ids", "ids", "ids", "iterate", "eval"]


def PLAN(tier):
    return dict(cases=170 if tier == "quick" else 6000, seconds=60 if tier == "quick" else 700)


def generate(rng, k, tier):
    n = rng.choice([1, 2, 3, 4, 6, 9, 14])
    cols = rng.choice([["a"], ["a", "txt"], ["a", "b", "txt"], ["OBJECTID", "a"], ["OBJECTID", "OBJECTID_1", "a"], ["b", "OBJECTID_1"], []])
    kinds = {c: "str" if c == "txt" else rng.choice(["f8", "f8", "i8", "i4", "f4"]) for c in cols}
    rows = [[("nan" if kinds[c][0] == "f" and rng.random() < 0.2 else i if c == "txt" else rng.choice([-3, 0, 1, 7, 40, i])) for c in cols] for i in range(n)]
    geo = [[rng.choice(["point", "line", "poly"]), rng.randint(-20, 20), rng.randint(-20, 20), rng.randint(1, 5)] for _ in range(n)]
    ops = []
    for _ in range(rng.randint(1, 4)):
        op = rng.choice(OPS)
        o = dict(op=op)
        if op == "cast":
            o.update(name=rng.choice([c for c in cols if c != "txt"] + ["a"] + (["nope"] if rng.random() < 0.1 else [])), dt=rng.choice(["f8", "i8", "i4", "f4", "i2"]))
        elif op == "get":
            o.update(i=rng.randint(-n - 1, n) if rng.random() < 0.3 else rng.randint(-n, n - 1))
        elif op == "ids":
            o.update(name=rng.choice(["", "", "fid_", "OBJECTID", "id"]))
        elif op == "crs":
            o.update(to=rng.choice(["EPSG:3857", "EPSG:4326", "EPSG:5070"]))
        elif op == "buffer":
            o.update(d=rng.choice([1, 2.5]))
        elif op == "simplify":
            o.update(d=rng.choice([0.5, 3]))
        elif op == "lazy":
            o.update(n=rng.choice([None, 2, 3]))
        ops.append(o)
    layers = rng.random() < 0.5
    return dict(layers=layers, layer=int(layers and rng.random() < 0.6), how=rng.choice(["name", "number", "list", "all"]), cols=cols, kinds=kinds, rows=rows, geo=geo, ops=ops, form=rng.choice(["gdf", "dgdf", "dgdf", "file", "series"]), parts=rng.randint(1, 4),
                index=rng.choice(["range", "range", "shifted", "gaps", "repeated", "reversed"]))


def shape(g):
    from shapely.geometry import LineString, Point, box
    t, x, y, s = g
    return Point(x, y) if t == "point" else LineString([(x, y), (x + s, y + 1), (x, y + s)]) if t == "line" else box(x, y, x + s, y + 2)


class Codes:
    def __init__(self):
        self.g = {}
        self.reps = []

    def __call__(self, geom):
        k = geom.wkb
        if k not in self.g:
            self.g[k] = len(self.reps) + 1
            self.reps.append(geom)
        return self.g[k]


def dtname(t):
    t = str(t)
    return {"float64": "f8", "float32": "f4", "int64": "i8", "int32": "i4", "int16": "i2"}.get(t, "str")


def val(v):
    if isinstance(v, str):
        return TXT + int(v[1:])
    return enc(v)


def table(df, codes):
    g = df.geometry.name
    cols = [c for c in df.columns if c != g]
    vals = [[val(v) for v in df[c]] for c in cols]
    return dict(cols=cols, types=[dtname(df[c].dtype) for c in cols],
                rows=[dict(a=[q[i] for q in vals], g=codes(s)) for i, s in enumerate(df.geometry)])


def rnd(b):
    return [int(round(float(v) * 16)) for v in b]


def obs(v, codes):
    df = v.data.compute()
    t = table(df, codes)
    tb = v.table.compute()
    vals = [[val(q) for q in tb[c]] for c in tb.columns]
    b = v.bounds
    b = b.compute() if hasattr(b, "compute") else b
    return dict(t=t, idx=df.index.name or "", len=len(v), size=int(v.size), shape=list(v.shape), fields=list(v.field_names), ftypes=[dtname(q) for q in v.field_dtypes],
                table=[dict(a=[q[i] for q in vals], g=t["rows"][i]["g"] if i < len(t["rows"]) else 0) for i in range(len(tb))],
                shapely=[codes(s) for s in v.to_shapely()], bounds=rnd(b), fb=[rnd(s.bounds) for s in df.geometry], crs=enc_crs(v.crs))


def source(case, d):
    """The vector, the table it was made from, and whether the order is fixed."""
    import dask_geopandas as dgpd
    import geopandas as gpd
    import pandas as pd

    import raster_tools.vector as rv
    n = len(case["rows"])
    data = {c: ["t%d" % q[k] for q in case["rows"]] if c == "txt" else
            np.array([real(q[k]) for q in case["rows"]], dtype=case["kinds"][c]) for k, c in enumerate(case["cols"])}
    idx = {"range": pd.RangeIndex(n), "shifted": pd.RangeIndex(10, 10 + n), "gaps": pd.Index([3 * i + i % 3 for i in range(n)]),
           "repeated": pd.Index([i // 2 for i in range(n)]), "reversed": pd.Index(range(n, 0, -1))}[case["index"]]
    g = gpd.GeoDataFrame(pd.DataFrame(data, index=idx), geometry=[shape(q) for q in case["geo"]], crs="EPSG:5070")
    f = case["form"]
    if f == "gdf":
        return rv.Vector(g), g, False
    if f == "series":
        return rv.Vector(g.geometry), g[["geometry"]], False
    if f == "file" and case["cols"]:
        p = os.path.join(d, "in.gpkg")
        g.reset_index(drop=True).to_file(p, layer="one")
        two = case["layers"] and g.reset_index(drop=True).iloc[::-1][: max(1, n // 2)]
        if two is not False:
            two.to_file(p, layer="two")
            g = [g, two][case["layer"]]
        old = rv._TARGET_CHUNK_SIZE
        rv._TARGET_CHUNK_SIZE = max(1, n // case["parts"])
        try:
            names = rv.list_layers(p)
            assert rv.count_layer_features(p, names[case["layer"]]) == len(g)
            if two is False:
                return rv.open_vectors(p), g, True
            how = case["how"]
            r = rv.open_vectors(p, [case["layer"]] if how == "list" else names[case["layer"]] if how == "name" else case["layer"] if how == "number" else None)
            return (r[case["layer"]] if how == "all" else r[0] if how == "list" and isinstance(r, list) else r), g, True
        finally:
            rv._TARGET_CHUNK_SIZE = old
    if case["index"] == "reversed":
        g = g.sort_index()
    return rv.Vector(dgpd.from_geopandas(g, npartitions=case["parts"])), g, False


def execute(case):
    import geopandas as gpd

    import raster_tools.vector as rv
    codes = Codes()
    evs = []
    with tempfile.TemporaryDirectory(prefix="vt_c29_") as d:
        v, g, fixed = source(case, d)
        pre = obs(v, codes)
        exp = dict(pre, t=table(g, codes), crs=enc_crs("EPSG:5070"), idx="")
        evs.append(dict(op="source", fixed=fixed, pre=exp, post=pre, after=exp, exc="", T=[], list=[]))
        for k, o in enumerate(case["ops"]):
            op = o["op"]
            src = v
            ev = dict(o, op=op, pre=pre, post=pre, after=pre, exc="", T=[], list=[])
            if op == "lazy":
                ev["n"] = o["n"] or 0
            if op == "crs":
                ev["to"] = enc_crs(o["to"])
            if op in ("crs", "buffer", "simplify"):
                gs = sorted({q["g"] for q in pre["t"]["rows"]})
                for c in gs:
                    s = gpd.GeoSeries([codes.reps[c - 1]], crs=pre_crs(v))
                    s = s.to_crs(o["to"]) if op == "crs" else s.buffer(o["d"]) if op == "buffer" else s.simplify(o["d"])
                    ev["T"].append([c, codes(s.iloc[0])])

            def run():
                if op == "iterate":
                    return None, [table(q.data.compute(), codes)["rows"] for q in src]
                r = {"copy": lambda: src.copy(), "load": lambda: src.load(), "eval": lambda: src.eval(), "lazy": lambda: src.to_lazy(o["n"]),
                     "partitions": lambda: src.calculate_spatial_partitions(), "dask": lambda: rv.Vector(src.to_dask()),
                     "coerce": lambda: rv.get_vector(rv.get_dask_geodataframe(src)), "save": lambda: src.save(os.path.join(d, f"o{k}.gpkg")),
                     "shuffle": lambda: src.spatial_shuffle(), "crs": lambda: src.to_crs(o["to"]), "buffer": lambda: src.buffer(o["d"]),
                     "simplify": lambda: src.simplify(o["d"]), "cast": lambda: src.cast_field(o["name"], DT[o["dt"]]), "get": lambda: src[o["i"]],
                     "ids": lambda: src.add_objectid_column(o["name"] or None) if k % 2 else rv.add_objectid_column(src, o["name"] or None)}[op]()
                if op == "shuffle" and r.data.compute().index.has_duplicates:
                    # the order of features with the same place is not fixed
                    r = r.load()
                return r, obs(r, codes)
            if op == "cast" and o["name"] in pre["t"]["cols"] and o["dt"][0] == "i":
                j = pre["t"]["cols"].index(o["name"])
                lim = 100 if o["dt"] == "i2" else 10**9
                if any(abs(q["a"][j]) > lim for q in pre["t"]["rows"]):
                    continue
            if op == "cast" and o["dt"] == "f4" and any(abs(x) > 2000 for q in pre["t"]["rows"] for x in q["a"] if x < 10**8):
                continue
            if op == "save" and not pre["t"]["cols"]:
                continue
            res, exc = call(run)
            ev["exc"] = exc
            if exc:
                ev["exc"] = exc.split(":")[0] if op in ("get", "ids", "cast") else exc
            elif op == "iterate":
                ev["list"] = res[1]
            else:
                v, ev["post"] = res
            ev["after"] = obs(src, codes)
            evs.append(ev)
            pre = ev["post"]
    return evs


DT = dict(f8="float64", f4="float32", i8="int64", i4="int32", i2="int16")


def pre_crs(v):
    return v._geo.crs
