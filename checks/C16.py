from checks._feat import SHARD, execute, make  # noqa: F401

TRACE = "FeatureTrace"
IMPORTS = ["zonal", "rasterize"]
MODELS = [("MC_Reduce", "MC_Reduce.cfg", dict(workers=1)), ("MC_Reduce", "MC_Reduce_deep.cfg", dict(workers=4, tier="thorough"))]
PLAN, generate = make("zonal", 220, 6000)
