from checks._neigh import SHARD, execute, make  # noqa: F401

TRACE = "NeighbourTrace"
IMPORTS = ["general"]
MODELS = [("MC_Reduce", "MC_Reduce.cfg", dict(workers=1)), ("MC_Reduce", "MC_Reduce_deep.cfg", dict(workers=4, tier="thorough"))]
PLAN, generate = make(["agg"], 220, 6000)
