from checks._feat import SHARD, execute, make  # noqa: F401

TRACE = "FeatureTrace"
IMPORTS = ["clipping", "rasterize"]
MODELS = [("MC_Features", "MC_Features.cfg", dict(workers=1)), ("MC_Features", "MC_Features_deep.cfg", dict(workers=4, tier="thorough"))]
PLAN, generate = make("clip", 300, 9000)
