"""Shared by the checks decided by RasterSession.tla."""
from vt import modelsession
from vt.gensession import execute  # noqa: F401

MODELS = [("MC_RasterSession", "MC_RasterSession.cfg", dict(workers=2)),
          ("MC_RasterSession", "MC_RasterSession_deep.cfg", dict(workers=4, tier="thorough"))]


def make(pid, quick, thorough, obs=1, model=True):
    d = dict(
        TRACE="RasterSessionTrace", IMPORTS=["general"], MODELS=MODELS, execute=execute,
        PLAN=lambda tier: dict(cases=quick if tier == "quick" else thorough, seconds=60 if tier == "quick" else 700),
        generate=lambda rng, k, tier: dict(seed=rng.random(), profile=pid, n=rng.randint(2, 7), obs=obs))
    if model:
        d["MODELSTART"] = modelsession.start
        d["MODELCASES"] = modelsession.cases
    return d
