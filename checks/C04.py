"""The same call on the same rasters, held in different ways (chunks, loaded, partitions, schedulers)."""
from checks import _calls

TRACE = "CallTrace"
IMPORTS = ["general", "focal", "surface", "zonal", "rasterize", "clipping", "distance.proximity", "distance.cost_distance", "line_stats", "warp"]
MODELS = [("MC_Chunking", "MC_Chunking.cfg", dict(workers=2)), ("MC_Chunking", "MC_Chunking_deep.cfg", dict(workers=4, tier="thorough"))]


def PLAN(tier):
    return dict(cases=170 if tier == "quick" else 9000, seconds=60 if tier == "quick" else 700)


def generate(rng, k, tier):
    return _calls.case(rng, 3 if tier == "quick" else 6)


def SHARD(case):
    return case["call"]


def execute(case):
    evs = [dict(op="case", call=case["call"], about=_calls.summary(case), parts=[], exc="", msg="", cfg={})]
    with _calls.scratch() as d:
        for k, cfg in enumerate(case["configs"]):
            S = _calls.hold(case, cfg, d, k)
            parts, exc = _calls.outcome(case, S, cfg)
            evs.append(dict(op="call", call=case["call"], about=_calls.summary(case), cfg=dict(cfg), parts=parts, exc=exc.split(":")[0], msg=exc[:200]))
    return evs
