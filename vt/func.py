"""Helpers for the checks of single operations."""
import numpy as np

from .enc import DUMMY, proj
from .harness import call
from .session import build


def rasters(specs):
    return [build(s) for s in specs]


def result(f, *a, pr=proj, **k):
    """(abstract result, exception)"""
    res, exc = call(f, *a, **k)
    if exc:
        return DUMMY, exc
    out, exc = call(pr, res)
    return (DUMMY if exc else out), exc


def lattice(r, res):
    """Row and column of the first cell on the lattice of a resolution."""
    x, y = np.asarray(r.x), np.asarray(r.y)
    c0 = (float(x[0]) / res) - 0.5
    r0 = (-float(y[0]) / res) - 0.5
    n = 999999
    ok = abs(c0 - round(c0)) < 1e-6 and abs(r0 - round(r0)) < 1e-6
    if len(x) > 1:
        ok = ok and np.allclose(np.diff(x), res)
    if len(y) > 1:
        ok = ok and np.allclose(np.diff(y), -res)
    return (round(r0), round(c0)) if ok else (n, n)
