from checks import _mosaic
from checks._mosaic import execute  # noqa: F401

TRACE = "MosaicTrace"
IMPORTS = ["general"]
MODELS = [("MC_Mosaic", "MC_Mosaic.cfg", dict(workers=1)),
          ("MC_Mosaic", "MC_Mosaic_deep.cfg", dict(workers=4, tier="thorough"))]


def PLAN(tier):
    return dict(cases=170 if tier == "quick" else 8000, seconds=60 if tier == "quick" else 700)


def generate(rng, k, tier):
    return _mosaic.gen(rng, ["mosaic"])
