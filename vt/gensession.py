"""Random programs of raster calls, chosen step by step against the live session."""
import random

import numpy as np

from .enc import dtc
from .session import ALLDT, BIN, DEFNV, GRIDS, IBIN, INTS, ITAB, NPBIN, Session, TAB1, TAB2, UN, chunks3, raster_spec

PROFILES = {
    "C01": dict(bin=10, un=3, tab=5, setnv=1, same=1, bands=1, astype=1, where=0),
    "C02": dict(setnv=5, setnull=4, nullmask=2, same=5, astype=4, astypenv=2, round=2, bands=1, bin=1, newbool=2),
    "C03": dict(bin=3, inplace=4, un=1, tab=1, setnv=2, setnull=2, nullmask=1, same=4, astype=1, astypenv=1, round=1,
                bands=1, where=1, remap=1, reclass=1, newbool=1),
    "C05": dict(bands=8, bin=1, setnv=1, same=2),
    "C06": dict(where=6, remap=6, reclass=6, setnv=1, newbool=2, bin=1),
}


class Gen:
    def __init__(self, rng, s, profile):
        self.rng, self.s, self.p = rng, s, PROFILES[profile]
        self.profile = profile

    def first(self):
        r = self.rng
        self.g = r.choice(GRIDS)
        self.shape = (r.choice([1, 1, 2, 3]), r.randint(1, 5), r.randint(1, 6))
        return [self.new() for _ in range(r.choice([2, 2, 3]))]

    def new(self, dt=None, **kw):
        return dict(op="new", r=raster_spec(self.rng, dt=dt, shape=self.shape, g=self.g, **kw))

    def pick(self, pred=lambda dt, nv, sh: True):
        hs = [h for h in range(1, len(self.s.h) + 1) if pred(*self.s.info(h))]
        if not hs:
            return None
        # prefer recent handles so that chains grow
        return hs[-1] if self.rng.random() < 0.35 else self.rng.choice(hs)

    def same_shape(self, h):
        sh = self.s.info(h)[2]
        hs = [k for k in range(1, len(self.s.h) + 1) if self.s.info(k)[2] == sh]
        return self.rng.choice(hs)

    def scalar(self, ints=False):
        r = self.rng
        if not ints and r.random() < 0.35:
            if r.random() < 0.5:
                return dict(k="s", dt="f8", v=float(r.choice([0, 1, 2, -3, 5, 7])), np=0)
            dt = r.choice(["f4", "f8", "f2"])
            return dict(k="s", dt=dt, v=float(r.choice([0, 1, 2, -3, 5])), np=1)
        if r.random() < 0.6:
            return dict(k="s", dt="i8", v=r.choice([0, 1, 2, 3, 5, -1, -7, 10, 100]), np=0)
        dt = r.choice(["u1", "i1", "u2", "i2", "u4", "i4", "i8", "u8"])
        return dict(k="s", dt=dt, v=r.choice(INTS[dt]), np=1)

    def array(self, h, dts=None):
        r = self.rng
        nb, hh, w = self.s.info(h)[2]
        shape = r.choice([(nb, hh, w), (1, hh, w), (1, 1, w), (nb, hh, 1), (1, hh, 1), (nb, 1, 1)])
        dt = r.choice(dts or ALLDT)
        form = r.choice(["np", "np", "list", "dask"])
        if form == "list":
            dt = r.choice(["i8", "f8", "b1"])
        n = int(np.prod(shape))
        return dict(k="a", dt=dt, shape=list(shape), d=[r.choice(INTS[dt]) for _ in range(n)], form=form)

    def other(self, h):
        r = self.rng
        k = r.random()
        if k < 0.5:
            return dict(k="h", h=self.same_shape(h))
        if k < 0.8:
            return self.scalar()
        return self.array(h)

    def bandable(self, h):
        # values that spread without bandwise are refused by bandwise
        nb, hh, w = self.s.info(h)[2]
        return nb > 1 and w not in (1, nb)

    def bandvals(self, h):
        r = self.rng
        nb = self.s.info(h)[2][0]
        form = r.choice(["list", "np"])
        dt = r.choice(["i8", "f8"]) if form == "list" else r.choice([d for d in ALLDT if d != "b1"])
        d = [r.choice(INTS[dt]) for _ in range(nb)]
        return dict(k="b", dt=dt, d=[float(v) for v in d] if dt[0] == "f" else d, form=form)

    def step(self):
        names = list(self.p)
        op = self.rng.choices(names, [self.p[n] for n in names])[0]
        return getattr(self, "g_" + op)()

    def g_newbool(self):
        return self.new(dt=self.rng.choice(["b1", "u1", "i1"]), pool=[0, 1])

    def g_bin(self):
        r = self.rng
        h = self.pick()
        f = r.choice(list(BIN))
        form = r.choice(["op", "op", "op", "np", "band", "in"] if self.profile != "C05" else ["op"])
        me = dict(k="h", h=h)
        if form == "band" and self.bandable(h):
            o = self.bandvals(h)
            a, b = (me, o) if r.random() < 0.5 else (o, me)
            return dict(op="bin", f=f, a=a, b=b, form="band")
        form = "op" if form == "band" else form
        o = self.other(h)
        if form == "in":
            if f not in IBIN:
                return dict(op="bin", f=f, a=me, b=o, form="out")
            return dict(op="bin", f=f, a=me, b=o, form="in")
        a, b = (me, o) if r.random() < 0.6 else (o, me)
        return dict(op="bin", f=f, a=a, b=b, form=form)

    def g_inplace(self):
        r = self.rng
        h = self.pick()
        f = r.choice(list(IBIN))
        return dict(op="bin", f=f, a=dict(k="h", h=h), b=self.other(h), form="in")

    def g_un(self):
        return dict(op="un", f=self.rng.choice(list(UN)), h=self.pick())

    def g_tab(self):
        r = self.rng
        h = self.pick()
        me = dict(k="h", h=h)
        if r.random() < 0.4:
            return dict(op="tab", f=r.choice(TAB1), os=[me])
        f = r.choice(TAB2)
        if r.random() < 0.2 and self.bandable(h):
            o = self.bandvals(h)
            return dict(op="tab", f=f, os=[me, o] if r.random() < 0.5 else [o, me], form="band")
        if f in ITAB and r.random() < 0.3:
            return dict(op="tab", f=f, os=[me, self.other(h)], form="in")
        os = [me, self.other(h)]
        if f == "ldexp" and os[1]["k"] == "s" and not os[1]["np"]:
            os[1] = dict(k="s", dt="i8", v=2, np=1)
        if r.random() < 0.4 and not (os[1]["k"] == "a" and os[1]["form"] == "dask"):
            os.reverse()
        return dict(op="tab", f=f, os=os, form=r.choice(["np", "op"]))

    def g_setnv(self):
        r = self.rng
        h = self.pick()
        dt, nv, sh = self.s.info(h)
        k = r.random()
        if k < 0.15:
            return dict(op="setnv", h=h, v=None, t="int")
        form = r.choice(["set", "set", "replace"])
        if dt == "b1":
            return dict(op="setnv", h=h, v=r.choice([0, 1, 5, -1]), t="int", form=form)
        if k < 0.3:
            return dict(op="setnv", h=h, v="nan", t="float", form=form)
        if k < 0.5:
            return dict(op="setnv", h=h, v=float(r.choice([0, 1, 2, -1, 5, 100, -9999])), t=r.choice(["float", "npf"]),
                        form=form)
        return dict(op="setnv", h=h, v=r.choice(INTS[dt] + [-1, 0, 1, 2, 3, 255, 256, -9999, 99]), t="int", form=form)

    def g_setnull(self):
        h = self.pick()
        dt, nv, sh = self.s.info(h)
        q = self.pick(lambda d, n, s: d in ("b1", "u1", "i1") and s[1:] == sh[1:] and s[0] in (1, sh[0]))
        if q is None:
            return self.g_newbool()
        return dict(op="setnull", h=h, q=q)

    def g_nullmask(self):
        return dict(op="nullmask", h=self.pick())

    def g_same(self):
        r = self.rng
        h = self.pick()
        dt, nv, sh = self.s.info(h)
        hows = ["copy", "load", "chunk", "chunk", "burn", "wrap", "astype", "bands"]
        how = r.choice(hows)
        c = dict(op="same", how=how, h=h)
        if how == "chunk":
            c["c"] = chunks3(r, *sh)
        return c

    def g_astype(self):
        return dict(op="astype", h=self.pick(), dt=self.rng.choice(ALLDT), form=self.rng.choice(["str", "dt"]))

    def g_astypenv(self):
        r = self.rng
        h = self.pick(lambda dt, nv, sh: nv is not None)
        if h is None:
            return self.g_astype()
        dt = r.choice([d for d in ALLDT if d != "b1"])
        v = r.choice([v for v in INTS[dt] if abs(v) < 2000])
        if dt[0] == "f" and r.random() < 0.3:
            v = "nan"
        return dict(op="astypenv", h=h, dt=dt, v=v)

    def g_round(self):
        r = self.rng
        h = self.pick(lambda dt, nv, sh: dt not in ("b1", "f2"))
        if h is None:
            return self.g_same()
        return dict(op="round", h=h, dec=r.choice([0, 0, 1, 2, -1, -1]))

    def g_bands(self):
        r = self.rng
        h = self.pick()
        nb = self.s.info(h)[2][0]
        k = r.random()
        if k < 0.2:
            return dict(op="bands", h=h, bands=list(range(1, nb + 1)), form="split")
        if k < 0.35:
            return dict(op="bands", h=h, bands=[r.randint(1, nb)], form="int")
        bs = [r.randint(1, nb) for _ in range(r.randint(1, 4))]
        if k < 0.5:
            bs[r.randrange(len(bs))] = r.choice([0, nb + 1, -1, nb + 5])
        return dict(op="bands", h=h, bands=bs, form=r.choice(["list", "tuple"]))

    def g_where(self):
        r = self.rng
        h = self.pick(lambda dt, nv, sh: dt in ("b1", "u1", "i1", "i2", "i4", "i8", "u2"))
        if h is None:
            return self.g_newbool()

        def branch():
            k = r.random()
            if k < 0.5:
                return dict(k="h", h=self.same_shape(h))
            if k < 0.65:
                return dict(k="none")
            return dict(k="s", dt="i8", v=r.choice([0, 1, 2, 5, 100, 255, -1]), np=0) if r.random() < 0.6 else \
                dict(k="s", dt="f8", v=float(r.choice([0, 1, 5, -7])), np=0)
        a, b = branch(), branch()
        if a["k"] == "none" and b["k"] == "none":
            b = dict(k="h", h=self.same_shape(h))
        form = "method" if a["k"] == "h" and r.random() < 0.4 else "func"
        return dict(op="where", h=h, a=a, b=b, form=form)

    def g_remap(self):
        r = self.rng
        h = self.pick(lambda dt, nv, sh: dt not in ("b1",))
        if h is None:
            return self.new(dt="i2")
        dt = self.s.info(h)[0]
        pool = sorted(set(INTS[dt] + [v + 1 for v in INTS[dt]] + [v - 1 for v in INTS[dt]]))
        pool = [v for v in pool if abs(v) < 2000]
        rs = []
        for _ in range(r.randint(1, 4)):
            lo, hi = sorted(r.sample(pool, 2))
            if r.random() < 0.1:
                lo = "-inf"
            elif r.random() < 0.1:
                hi = "inf"
            to = None if r.random() < 0.25 else r.choice([0, 1, 2, 5, 9, 100, -1])
            if to is not None and r.random() < 0.2:
                to = float(to)
            rs.append([lo, hi, to])
        return dict(op="remap", h=h, rs=rs, inc=r.choice(["left", "left", "right", "both", "none"]),
                    form=r.choice(["default", "one"]), meth=r.randint(0, 1))

    def g_reclass(self):
        r = self.rng
        h = self.pick(lambda dt, nv, sh: dt not in ("b1", "f2"))
        if h is None:
            return self.new(dt="i2")
        dt = self.s.info(h)[0]
        pool = [v for v in INTS[dt] if abs(v) < 2000]
        ks = r.sample(pool, min(len(pool), r.randint(1, 5)))
        mp = [[k, None if r.random() < 0.25 else r.choice([0, 1, 2, 5, 9, 100, -1])] for k in ks]
        hs = [h]
        if r.random() < 0.5:
            o = self.pick(lambda d, nv, sh: d not in ("b1", "f2"))
            hs.append(o)
        return dict(op="reclass", hs=hs, mp=mp, un=int(r.random() < 0.3), meth=r.randint(0, 1))


def execute(case):
    """Runs a session case; fills in its script."""
    s = Session()
    if "script" in case:
        for c in case["script"]:
            s.do(c)
    else:
        rng = random.Random(case["seed"])
        g = Gen(rng, s, case["profile"])
        script = []
        for c in g.first():
            script.append(c)
            s.do(c)
        for _ in range(case["n"]):
            if len(s.h) > 9:
                break
            c = g.step()
            script.append(c)
            s.do(c)
        case["script"] = script
    if case.get("obs", 1):
        s.observe()
    return [{"op": "reset", "exc": "", "inplace": 0}] + s.ev
