from checks import _neigh
from checks._neigh import SHARD, execute, make  # noqa: F401

TRACE = "NeighbourTrace"
IMPORTS = ["general"]
MODELS = [("MC_Reduce", "MC_Reduce.cfg", dict(workers=1)), ("MC_Reduce", "MC_Reduce_deep.cfg", dict(workers=4, tier="thorough"))]
PLAN, generate = make(["local", "local", "reduce"], 240, 9000)


def FIXED(tier):
    import random
    rng = random.Random(5)
    out = []
    for nb in (255, 256, 257):
        for nv in (None, -1):
            for stat in ("unique", "maxband", "minband"):
                r = _neigh.ras(rng, ["i2"], (nb, 1, 1))
                r.update(d=rng.sample(range(nb), nb), m=None, nv=nv)
                out.append(dict(op="local", r=r, stat=stat))
    return out
