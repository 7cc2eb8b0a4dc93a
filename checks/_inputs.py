"""Operands of the calls of the catalogue, before and after."""
from checks import _calls
from vt import catalog
from vt.harness import call

TRACE = "InputsTrace"
IMPORTS = ["general", "focal", "surface", "zonal", "rasterize", "clipping", "distance.proximity", "distance.cost_distance", "line_stats", "warp"]
MODELS = []


def PLAN(tier):
    return dict(cases=110 if tier == "quick" else 6000, seconds=60 if tier == "quick" else 600)


def generate(rng, k, tier):
    c = _calls.case(rng, 1)
    c["configs"] = c["configs"][1:]
    if rng.random() < 0.75:
        # aliasing shows in data that is in memory
        c["configs"][0]["load"] = list("ABL")
    # several calls on the same operands
    c["more"] = [[rng.choice(["binary", "inplace", "ufunc", "null", "bands", "where", "remap", "local", "pad", "clip", "xy", "quadrants", "reduce", "create", "points", "bandwise"]),
                  [rng.randrange(60) for _ in range(7)]] for _ in range(2)]
    return c


def SHARD(case):
    return case["call"]


def execute(case):
    cfg = case["configs"][0]
    with _calls.scratch() as d:
        S = _calls.hold(case, cfg, d, 0)
        evs = [dict(op="new", call="", about=_calls.summary(case), held=catalog.held(S), exc="", msg="")]
        for name, p in [[case["call"], case["p"]], *case["more"]]:
            S.p, S.k = p, S.k + 1
            res, exc = call(catalog.CALLS[name], S)
            evs.append(event("call", name, case, S, exc))
            if exc:
                continue
            _, exc = call(catalog.parts_of, res, S.A)
            evs.append(event("compute", name, case, S, exc))
            if name != "xy":
                call(catalog.disturb, res)
                evs.append(event("disturb", name, case, S, ""))
    return evs


def event(op, name, case, S, exc):
    h, e2 = call(catalog.held, S)
    return dict(op=op, call=name, about=dict(_calls.summary(case), call=name, p=S.p), held=[] if e2 else h, exc=exc.split(":")[0], msg=(e2 or exc)[:200])
