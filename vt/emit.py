"""Programs generated by TLC: simulation of a design model that writes every
complete behaviour (a JSON value) to a file, one per line."""
import json
import os

from . import tlc


def start(module, cfg, scratch, num, depth, seed, heap="2g"):
    out = os.path.join(scratch, module + "-emit.ndjson")
    p = tlc.start(module, cfg, scratch, env={"VT_EMIT": out}, heap=heap, name=module + " (simulation)",
                  extra=("-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)))
    p.vt_emit = out
    return p


def finish(p, timeout=400):
    ok, text, st = tlc.finish(p, timeout)
    if not ok or not os.path.exists(p.vt_emit):
        raise tlc.TLCError(f"simulation of {p.vt_module} failed:\n" + text[-3000:])
    seen = {}
    with open(p.vt_emit) as f:
        for line in f:
            if line.strip():
                seen.setdefault(line, json.loads(line))
    return list(seen.values())
