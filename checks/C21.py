"""The frontier of the cost distance: sequences of operations."""
import math

from vt.enc import OTHER, enc
from vt.harness import call

TRACE = "FrontierTrace"
IMPORTS = ["distance._heap"]
MODELS = [("MC_Frontier", "MC_Frontier.cfg", dict(workers=2)),
          ("MC_Frontier", "MC_Frontier_deep.cfg", dict(workers=4, tier="thorough"))]


def PLAN(tier):
    return dict(cases=500 if tier == "quick" else 12000, seconds=60 if tier == "quick" else 700)


def generate(rng, k, tier):
    if k % 25 == 24:
        return dict(cap=rng.choice([0, -1, 1, 4]), maxv=rng.choice([0, -3]), ops=[])
    cap = rng.choice([1, 1, 2, 3, 4, 5, 8, 9])
    maxv = rng.choice([1, 2, 3, 5, 8, 13, 30, 70 if tier == "quick" else 200])
    nk = rng.choice([1, 2, 4, 50])
    ops = []
    held = []      # only to aim at held values
    for _ in range(rng.randint(1, 4)):
        grow = rng.choice([0.95, 0.7, 0.5])
        for phase in (grow, 1 - grow, rng.random()):
            for _ in range(rng.randint(0, 2 * maxv + 4 if maxv < 20 else maxv)):
                if rng.random() < phase:
                    key = "inf" if rng.random() < 0.03 else rng.randint(-nk, nk)
                    r = rng.random()
                    v = rng.choice([-1, maxv + 1, -5, maxv + 7]) if r < 0.03 else \
                        rng.choice([0, maxv]) if r < 0.1 else \
                        rng.choice(held) if held and r < 0.35 else rng.randint(0, maxv)
                    held.append(v)
                    held = held[-4:]
                    ops.append([rng.choice(["push", "lower"]), key, v])
                else:
                    ops.append(["pop"])
    ops += [["pop"]] * rng.choice([0, maxv + 3])
    return dict(cap=cap, maxv=maxv, ops=ops)


def num(k):
    return math.inf if k == "inf" else float(k)


def execute(case):
    from raster_tools.distance import _heap as H
    st, exc = call(H.init_heap_data, case["cap"], case["maxv"])
    want = "ValueError" if case["cap"] < 1 or case["maxv"] < 1 else ""
    evs = [dict(op="init", cap=case["cap"], maxv=case["maxv"], exc=exc.split(":")[0], want=want,
                count=-1 if exc else int(st[3][0]["count"]))]
    if exc:
        return evs
    for o in case["ops"]:
        if o[0] == "pop":
            *st, k, v = H.pop(*st)
            ev = dict(op="pop", k=enc(k) if k == math.inf or k == int(k) else OTHER, v=int(v))
        else:
            f = H.push if o[0] == "push" else H.push_if_lower
            *st, flag = f(*st, num(o[1]), o[2])
            ev = dict(op=o[0], k=enc(num(o[1])), v=o[2], flag=int(flag))
        evs.append(dict(ev, count=int(st[3][0]["count"])))
    return evs
