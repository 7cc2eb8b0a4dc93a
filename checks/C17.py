from checks._feat import SHARD, execute, make  # noqa: F401

TRACE = "FeatureTrace"
IMPORTS = ["zonal", "rasterize"]
MODELS = []
PLAN, generate = make("points", 350, 9000)
