"""Session programs generated from MC_RasterSession."""
from . import emit
from .enc import NAN, NINF, NONE, PINF

SPECIAL = {NAN: "nan", PINF: "inf", NINF: "-inf"}


def _v(v):
    return None if v == NONE else SPECIAL.get(v, v)


def start(scratch, tier, seed):
    return emit.start("MC_RasterSession", "MC_RasterSession_emit.cfg", scratch,
                      num=150 if tier == "quick" else 2500, depth=8, seed=seed)


def _call(c):
    c = dict(c)
    op = c["op"]
    if op == "new":
        r = c["r"]
        c["r"] = dict(dt=r["dt"], nv=_v(r["nv"]), nb=r["nb"], h=r["h"], w=r["w"], d=[_v(v) for v in r["d"]],
                      m=r["m"] if r["nv"] != NONE else None, g=[0.0, 40.0, 2.0, 2.0, "EPSG:5070"], c=None, load=0)
    elif op == "setnv":
        c["v"] = _v(c["v"])
    elif op == "bin":
        c["form"] = "in" if c["inplace"] else "op"
    elif op == "remap":
        c["rs"] = [[_v(q["lo"]), _v(q["hi"]), _v(q["to"])] for q in c["rs"]]
    elif op == "reclass":
        c["mp"] = [[_v(q["from"]), _v(q["to"])] for q in c["mp"]]
        c["hs"] = [c.pop("h")]
    return c


def cases(proc, tier):
    return [dict(profile="model", script=[_call(c) for c in hist], obs=1) for hist in emit.finish(proc)]
