"""Bands: session programs (selection, splitting) and stacks / concatenations."""
from types import SimpleNamespace as NS

from checks import _mosaic
from checks._session import make

PARTS = [NS(**make("C05", 260, 8000, obs=0, model=False)),
         NS(TRACE="MosaicTrace", IMPORTS=["general"], MODELS=[], execute=_mosaic.execute,
            PLAN=lambda tier: dict(cases=110 if tier == "quick" else 5000, seconds=60 if tier == "quick" else 700),
            generate=lambda rng, k, tier: _mosaic.gen(rng, ["stack", "stack", "concat"]))]
