"""Drives raster sessions: executes abstract calls (events of RasterSession.tla)
against the real library and records what it observes."""
import math
import operator
import random

import numpy as np

from .enc import ANY, DUMMY, NPDT, dtc, enc, enc_arr, enc_null, proj
from .harness import call

SPECIAL = {"nan": math.nan, "inf": math.inf, "-inf": -math.inf}


def real(v):
    return SPECIAL[v] if isinstance(v, str) else v


def jv(v):
    """JSON form of a number."""
    if isinstance(v, float) and v != v:
        return "nan"
    if v == math.inf:
        return "inf"
    if v == -math.inf:
        return "-inf"
    return v


def arr(spec_d, dt, shape):
    a = np.array([real(v) for v in spec_d], dtype=NPDT[dt])
    return a.reshape(shape)


def split(n, parts):
    return tuple(parts)


def build(s):
    """The raster a specification describes."""
    from raster_tools.raster import data_to_raster

    nb, h, w = s["nb"], s["h"], s["w"]
    data = arr(s["d"], s["dt"], (nb, h, w))
    g = s.get("g") or [0.0, 0.0, 1.0, 1.0, None]
    x0, y0, rx, ry, crs = g
    x = x0 + rx * (np.arange(w) + 0.5)
    y = y0 - ry * (np.arange(h) + 0.5)
    kw = {}
    if s.get("m") is not None:
        kw = dict(mask=np.array(s["m"], dtype=bool).reshape(nb, h, w), burn=True)
    nv = s["nv"]
    r = data_to_raster(data, x=x, y=y, crs=crs, nv=None if nv is None else NPDT[s["dt"]].type(real(nv)), **kw)
    if s.get("c"):
        r = r.chunk(tuple(tuple(c) for c in s["c"]))
    if s.get("load"):
        r = r.load()
    return r


BIN = {
    "add": operator.add, "sub": operator.sub, "mul": operator.mul, "floordiv": operator.floordiv,
    "mod": operator.mod, "eq": operator.eq, "ne": operator.ne, "lt": operator.lt, "le": operator.le,
    "gt": operator.gt, "ge": operator.ge, "and": operator.and_, "or": operator.or_, "xor": operator.xor,
    "lshift": operator.lshift, "rshift": operator.rshift, "land": np.logical_and, "lor": np.logical_or,
    "lxor": np.logical_xor, "minimum": np.minimum, "maximum": np.maximum,
}
NPBIN = {
    "add": np.add, "sub": np.subtract, "mul": np.multiply, "floordiv": np.floor_divide, "mod": np.remainder,
    "eq": np.equal, "ne": np.not_equal, "lt": np.less, "le": np.less_equal, "gt": np.greater,
    "ge": np.greater_equal, "and": np.bitwise_and, "or": np.bitwise_or, "xor": np.bitwise_xor,
    "lshift": np.left_shift, "rshift": np.right_shift, "land": np.logical_and, "lor": np.logical_or,
    "lxor": np.logical_xor, "minimum": np.minimum, "maximum": np.maximum,
}
IBIN = {
    "add": operator.iadd, "sub": operator.isub, "mul": operator.imul, "floordiv": operator.ifloordiv,
    "mod": operator.imod, "and": operator.iand, "or": operator.ior, "xor": operator.ixor,
    "lshift": operator.ilshift, "rshift": operator.irshift,
}
UN = {
    "neg": operator.neg, "pos": operator.pos, "abs": abs, "invert": operator.invert, "lnot": np.logical_not,
    "isnan": np.isnan, "isfinite": np.isfinite, "square": np.square, "sign": np.sign,
}
TAB1 = ["sqrt", "exp", "log1p", "sin", "arctan", "floor", "ceil", "trunc", "rint", "reciprocal", "cbrt", "signbit",
        "isinf", "spacing", "tanh", "degrees", "expm1", "fabs", "modf", "frexp"]
TAB2 = ["true_divide", "power", "arctan2", "hypot", "fmax", "fmin", "fmod", "copysign", "nextafter", "logaddexp",
        "heaviside", "divmod", "float_power", "gcd", "lcm", "ldexp"]
PYTAB = {"true_divide": operator.truediv, "power": operator.pow, "divmod": divmod}
ITAB = {"true_divide": operator.itruediv, "power": operator.ipow}


class Session:
    def __init__(self):
        self.h = []       # real rasters
        self.ev = []      # recorded events

    def add(self, r, ev):
        self.h.append(r)

    def record(self, ev, res, exc, inplace=False):
        """Completes an event with the observed result."""
        out = DUMMY
        if not exc:
            out, exc = call(proj, res)
            if exc:
                out = DUMMY
        ev = dict(ev, exc=exc, out=out, inplace=int(inplace))
        self.ev.append(ev)
        if not exc:
            if not inplace:
                self.h.append(res)
        elif ev["op"] == "new":
            raise RuntimeError(f"cannot build a raster: {exc}")
        return not exc

    # -- operands
    def operand(self, o, ref):
        """(real operand, abstract operand)"""
        k = o["k"]
        if k == "h":
            return self.h[o["h"] - 1], {"k": "h", "h": o["h"]}
        if k == "none":
            return None, {"k": "none"}
        if k == "s":
            v = real(o["v"])
            if o.get("np"):
                v = NPDT[o["dt"]].type(v)
            return v, {"k": "s", "dt": o["dt"], "v": enc(v)}
        if k == "a":
            a = arr(o["d"], o["dt"], o["shape"])
            full = np.broadcast_to(a, ref.shape)
            v = {"np": a, "list": a.tolist(), "dask": None}[o["form"]]
            if o["form"] == "dask":
                import dask.array as da
                v = da.from_array(a)
            return v, {"k": "a", "dt": o["dt"], "d": enc_arr(full)}
        if k == "b":
            a = arr(o["d"], o["dt"], (len(o["d"]),))
            v = a.tolist() if o["form"] == "list" else a
            return v, {"k": "b", "dt": o["dt"], "d": enc_arr(a)}
        raise ValueError(k)

    def rawop(self, o, ref):
        """numpy array or scalar of an operand"""
        k = o["k"]
        if k == "h":
            return np.asarray(self.h[o["h"] - 1].to_numpy())
        if k == "s":
            v = real(o["v"])
            return NPDT[o["dt"]].type(v)
        if k == "a":
            return np.broadcast_to(arr(o["d"], o["dt"], o["shape"]), ref.shape)
        return arr(o["d"], o["dt"], (len(o["d"]), 1, 1))

    def do(self, c):
        """Executes the call c (a JSON record) and records its event."""
        getattr(self, "do_" + c["op"])(c)

    def do_new(self, c):
        r, exc = call(build, c["r"])
        self.record({"op": "new"}, r, exc)

    def _ref(self, c):
        for o in (c["a"], c["b"]):
            if o["k"] == "h":
                return self.h[o["h"] - 1]

    def do_bin(self, c):
        ref = self._ref(c)
        a, ea = self.operand(c["a"], ref)
        b, eb = self.operand(c["b"], ref)
        f = c["f"]
        form = c.get("form", "op")
        ev = {"op": "bin", "f": f, "a": ea, "b": eb}
        if form == "in":
            r, exc = call(IBIN[f], a, b)
            if not exc and r is not a:
                exc = "in-place operator did not rebind the operand"
            self.record(ev, r, exc, inplace=True)
            return
        if form == "out":
            r, exc = call(NPBIN[f], a, b, out=a)
            if not exc and r is not a:
                exc = "out= did not rebind the operand"
            self.record(ev, r, exc, inplace=True)
            return
        if form == "band":
            if c["a"]["k"] == "h":
                a = a.bandwise
            else:
                b = b.bandwise
        fn = NPBIN[f] if form == "np" else BIN[f]
        r, exc = call(fn, a, b)
        self.record(ev, r, exc)

    def do_un(self, c):
        r, exc = call(UN[c["f"]], self.h[c["h"] - 1])
        self.record({"op": "un", "f": c["f"], "h": c["h"]}, r, exc)

    def do_tab(self, c):
        """A numpy ufunc, checked against numpy's table of results."""
        os = c["os"]
        ref = None
        for o in os:
            if o["k"] == "h":
                ref = self.h[o["h"] - 1]
                break
        pairs = [self.operand(o, ref) for o in os]
        raws = [self.rawop(o, ref) for o in os]
        uf = getattr(np, c["f"])
        try:
            want = uf(*raws)
        except (TypeError, ValueError):
            return   # not offered by numpy for these types
        multi = uf.nout > 1
        form = c.get("form", "np")
        args = [p[0] for p in pairs]
        inplace = False
        if form == "in" and c["f"] in ITAB:
            fn = ITAB[c["f"]]
            inplace = True
        elif form == "op" and c["f"] in PYTAB:
            fn = PYTAB[c["f"]]
        else:
            fn = uf
        if form == "band" and len(os) == 2:
            args = [a.bandwise if o["k"] == "h" else a for a, o in zip(args, os)]
        res, exc = call(fn, *args)
        wants = want if multi else (want,)
        if exc:
            ress = [None]
        elif multi:
            ress = list(res)
            if len(ress) != len(wants):
                exc = "wrong number of results"
        else:
            ress = [res]
        for w, r in zip(wants, ress):
            w = np.broadcast_to(np.asarray(w), ref.shape)
            ev = {"op": "tab", "f": c["f"], "os": [p[1] for p in pairs], "dt": dtc(w.dtype), "tab": enc_arr(w)}
            if inplace:
                ev["a"] = pairs[0][1]
            self.record(ev, r, exc, inplace=inplace)

    def do_setnv(self, c):
        v = real(c["v"]) if c["v"] is not None else None
        if v is not None and c["t"] == "npf":
            v = np.float64(v)
        fn = self.h[c["h"] - 1].replace_null if c.get("form") == "replace" else self.h[c["h"] - 1].set_null_value
        r, exc = call(fn, v)
        self.record({"op": "setnv", "h": c["h"], "v": enc_null(v), "t": "int" if c["t"] == "int" else "float"}, r, exc)

    def do_setnull(self, c):
        r, exc = call(self.h[c["h"] - 1].set_null, self.h[c["q"] - 1])
        self.record({"op": "setnull", "h": c["h"], "q": c["q"]}, r, exc)

    def do_nullmask(self, c):
        r, exc = call(self.h[c["h"] - 1].to_null_mask)
        self.record({"op": "nullmask", "h": c["h"]}, r, exc)

    def do_same(self, c):
        x = self.h[c["h"] - 1]
        how = c["how"]

        def f():
            from raster_tools.raster import Raster, get_raster
            if how == "copy":
                return x.copy()
            if how == "load":
                return x.load()
            if how == "eval":
                return x.eval()
            if how == "chunk":
                return x.chunk(tuple(tuple(k) for k in c["c"]))
            if how == "burn":
                return x.burn_mask()
            if how == "wrap":
                return Raster(x.to_dataset())
            if how == "get":
                return get_raster(x)
            if how == "astype":
                return x.astype(x.dtype)
            if how == "round":
                return x.round(0)
            if how == "bands":
                return x.get_bands(list(range(1, x.nbands + 1)))
            raise ValueError(how)
        r, exc = call(f)
        self.record({"op": "same", "how": how, "h": c["h"]}, r, exc)

    def do_astype(self, c):
        r, exc = call(self.h[c["h"] - 1].astype, str(NPDT[c["dt"]]) if c.get("form") == "str" else NPDT[c["dt"]],
                      warn_about_null_change=False)
        self.record({"op": "astype", "h": c["h"], "dt": c["dt"]}, r, exc)

    def do_astypenv(self, c):
        v = real(c["v"])
        r, exc = call(self.h[c["h"] - 1].astype, NPDT[c["dt"]], new_null_value=v)
        self.record({"op": "astypenv", "h": c["h"], "dt": c["dt"], "v": enc(v)}, r, exc)

    def do_round(self, c):
        r, exc = call(self.h[c["h"] - 1].round, c["dec"])
        self.record({"op": "round", "h": c["h"], "dec": c["dec"]}, r, exc)

    def do_bands(self, c):
        bs = c["bands"]
        x = self.h[c["h"] - 1]
        if c.get("form") == "split":
            res, exc = call(x.split_bands)
            if not exc and len(res) != len(bs):
                exc = f"split into {len(res)} rasters"
            for k, b in enumerate(bs):
                self.record({"op": "bands", "h": c["h"], "bands": [b]}, None if exc else res[k], exc)
            return
        arg = bs[0] if c.get("form") == "int" and len(bs) == 1 else (tuple(bs) if c.get("form") == "tuple" else bs)
        r, exc = call(x.get_bands, arg)
        self.record({"op": "bands", "h": c["h"], "bands": bs}, r, exc)

    def do_where(self, c):
        from raster_tools.general import where
        ref = self.h[c["h"] - 1]
        a, ea = self.operand(c["a"], ref)
        b, eb = self.operand(c["b"], ref)
        if c.get("form") == "method":
            r, exc = call(a.where, ref, b)
        else:
            r, exc = call(where, ref, a, b)
        self.record({"op": "where", "h": c["h"], "a": ea, "b": eb}, r, exc)

    def do_remap(self, c):
        from raster_tools.general import remap_range
        rs = [tuple(real(v) if v is not None else None for v in q) for q in c["rs"]]
        arg = rs[0] if len(rs) == 1 and c.get("form") == "one" else rs
        x = self.h[c["h"] - 1]
        kw = {} if c["inc"] == "left" and c.get("form") == "default" else {"inclusivity": c["inc"]}
        if c.get("meth"):
            r, exc = call(x.remap_range, arg, **kw)
        else:
            r, exc = call(remap_range, x, arg, **kw)
        ers = [dict(lo=enc(q[0]), hi=enc(q[1]), to=enc_null(q[2]), t="float" if isinstance(q[2], float) else "int")
               for q in rs]
        self.record({"op": "remap", "h": c["h"], "rs": ers, "inc": c["inc"]}, r, exc)

    def do_reclass(self, c):
        from raster_tools.general import reclassify
        mp = {real(k): (None if v is None else real(v)) for k, v in c["mp"]}
        emp = [dict(zip(("from", "to", "t"), (enc(k), enc_null(v), "float" if isinstance(v, float) else "int")))
               for k, v in mp.items()]
        for h in c["hs"]:     # the same mapping object for several rasters
            x = self.h[h - 1]
            r, exc = call(x.reclassify if c.get("meth") else (lambda *a: reclassify(x, *a)), mp, bool(c["un"]))
            self.record({"op": "reclass", "h": h, "mp": emp, "un": c["un"]}, r, exc)

    def observe(self, only=None):
        for k, r in enumerate(self.h):
            if only is not None and k + 1 not in only:
                continue
            out, exc = call(proj, r)
            self.ev.append({"op": "obs", "h": k + 1, "exc": exc, "out": out if not exc else DUMMY, "inplace": 0})

    def info(self, h):
        r = self.h[h - 1]
        return dtc(r.dtype), r.null_value, r.shape


# ---------------------------------------------------------------- generation
INTS = {"u1": [0, 1, 2, 3, 5, 7, 10, 100, 200, 254, 255], "i1": [-128, -100, -7, -2, -1, 0, 1, 2, 3, 5, 10, 100, 127],
        "u2": [0, 1, 2, 3, 5, 7, 10, 100, 255, 300, 1000, 65535], "i2": [-300, -7, -2, -1, 0, 1, 2, 3, 5, 10, 100, 300],
        "u4": [0, 1, 2, 3, 5, 7, 10, 100, 300, 1000, 70000], "u8": [0, 1, 2, 3, 5, 7, 10, 100, 300, 1000, 70000],
        "i4": [-300, -7, -2, -1, 0, 1, 2, 3, 5, 10, 100, 300, 70000],
        "i8": [-300, -7, -2, -1, 0, 1, 2, 3, 5, 10, 100, 300, 70000],
        "b1": [0, 1], "f2": [-7, -2, -1, 0, 1, 2, 3, 5, 10, 100],
        "f4": [-300, -7, -2, -1, 0, 1, 2, 3, 5, 10, 100, 300, 1000],
        "f8": [-300, -7, -2, -1, 0, 1, 2, 3, 5, 10, 100, 300, 1000]}
DEFNV = {"b1": 1, "u1": 255, "u2": 65535, "u4": 4294967295, "u8": 18446744073709549568, "i1": -128, "i2": -32768,
         "i4": -2147483648, "i8": -9223372036854775808, "f2": -65504, "f4": -999999, "f8": -999999}
ALLDT = ["b1", "u1", "u2", "u4", "u8", "i1", "i2", "i4", "i8", "f2", "f4", "f8"]


def chunking(rng, n):
    """A random partition of n."""
    k = rng.random()
    if k < 0.35:
        return [n]
    if k < 0.6:
        c = rng.randint(1, n)
        out = [c] * (n // c)
        return out + ([n % c] if n % c else [])
    out = []
    while n:
        c = rng.randint(1, n)
        out.append(c)
        n -= c
    return out


def chunks3(rng, nb, h, w):
    return [[1] * nb, chunking(rng, h), chunking(rng, w)]


GRIDS = [[0.0, 0.0, 1.0, 1.0, None], [0.0, 40.0, 2.0, 2.0, "EPSG:5070"], [100.0, 50.0, 1.0, 1.0, "EPSG:3857"],
         [-8.0, 16.0, 0.5, 0.25, "EPSG:5070"], [0.0, 10.0, 3.0, 4.0, "EPSG:5070"]]


def raster_spec(rng, dt=None, shape=None, masked=None, g=None, nan_ok=True, pool=None, load=None, nv=None, chunks=True, explicit=0.3):
    dt = dt or rng.choice(ALLDT)
    nb, h, w = shape or (rng.choice([1, 1, 2, 3]), rng.randint(1, 5), rng.randint(1, 6))
    pool = pool or INTS[dt]
    k = rng.randint(2, min(6, len(pool))) if len(pool) > 2 else len(pool)
    vals = rng.sample(pool, k)
    d = [rng.choice(vals) for _ in range(nb * h * w)]
    masked = rng.random() < 0.6 if masked is None else masked
    m = None
    if masked and nv is None:
        cand = [DEFNV[dt], vals[0]] + ([rng.choice([1, 5, 99])] if dt != "b1" else [0])
        if dt in ("i1", "i2", "i4", "i8"):
            cand += [-1, -99]
        if dt[0] == "f":
            cand += ["nan", "nan", -1]
        nv = rng.choice(cand)
    if masked:
        p = rng.choice([0.0, 0.1, 0.3, 0.6, 1.0])
        d = [nv if rng.random() < p else v for v in d]
        if rng.random() < explicit:
            # an explicit mask: cells equal to the null value may be valid
            m = [int(rng.random() < 0.3) for _ in d]
            if dt[0] == "f" and nv == "nan":
                m = [int(b or v == "nan") for b, v in zip(m, d)]
    elif nan_ok and dt[0] == "f" and rng.random() < 0.2:
        d = [rng.choice(["nan", v]) for v in d]
    return dict(dt=dt, nv=nv if masked else None, nb=nb, h=h, w=w, d=d, m=m, g=g,
                c=chunks3(rng, nb, h, w) if chunks and rng.random() < 0.8 else None,
                load=int(rng.random() < 0.4) if load is None else int(load))
