from checks._neigh import SHARD, execute, make  # noqa: F401

TRACE = "NeighbourTrace"
IMPORTS = ["focal"]
MODELS = [("MC_Neighbour", "MC_Neighbour.cfg", dict(workers=2)), ("MC_Neighbour", "MC_Neighbour_deep.cfg", dict(workers=4, tier="thorough"))]
PLAN, generate = make(["focal"], 160, 6000)
