"""Batch scripts: random programs run by the parser and by Batch.tla."""
import os
import tempfile

from vt.enc import DUMMY, enc, proj
from vt.func import rasters
from vt.harness import call
from vt.session import raster_spec

TRACE = "BatchTrace"
IMPORTS = ["batch"]
MODELS = [("MC_Batch", "MC_Batch.cfg", dict(workers=2)), ("MC_Batch", "MC_Batch_deep.cfg", dict(workers=4, tier="thorough"))]
ESRI = {"+": "esriRasterPlus", "-": "esriRasterMinus", "*": "esriRasterMultiply", "/": "esriRasterDivide", "%": "esriRasterMode", "**": "esriRasterPower"}
POOL = {"u1": [0, 1, 2, 3, 5, 8, 100], "i2": [-7, 0, 1, 2, 4, 6, 12], "i4": [-6, 0, 1, 2, 3, 9, 30], "f4": [-4, 0, 1, 2, 3, 6, 50], "f8": [-4, 0, 1, 2, 3, 6, 50],
        "u2": [0, 1, 2, 3, 4, 12, 40], "i8": [-5, 0, 1, 2, 4, 8, 100]}
BAD = ["a", "a = ", "a = b", "FOO(x)", "= OPENRASTER({f})", "a = FOO({f})", "a = OPENRASTER({f}", "a = REMAP({f})", "a = REMAP({f};1:2)", "a = REMAP({f};1:x:3)",
       "a = REMAP({f};1:2:3;4:5:6)", "a = NULLTOVALUE({f})", "a = NULLTOVALUE({f};x)", "a = NULLTOVALUE({f};1;2)", "a = EXTRACTBAND({f};x)", "a = EXTRACTBAND({f};1.5)",
       "a = EXTRACTBAND({f};)", "a = ARITHMETIC({f};1)", "a = ARITHMETIC({f})", "a = ARITHMETIC({f};1;+;2)", "a = COMPOSITE({f})", "a = SETNULL({f};1)", "a = SETNULL({f};1-2-3)",
       "a = SETNULL({f};a-b)", "a = SETNULL({f};-1-2)", "a = SAVEFUNCTIONRASTER({f};o)", "a = SAVEFUNCTIONRASTER({f};o;{d};PNG)", "a = SAVEFUNCTIONRASTER({f};o;{d};TIFF;0;16;16;16)",
       "a = SAVEFUNCTIONRASTER({f};o;{d};TIFF;x)", "a = SETNULL({f};'u'-'v')", "a = OPENRASTER()", "a == OPENRASTER({f})", "a = OPENRASTER({f}) x", "a = REMAP({f};1:2:3,)"]


def PLAN(tier):
    return dict(cases=260 if tier == "quick" else 9000, seconds=60 if tier == "quick" else 700)


def generate(rng, k, tier):
    n = rng.randint(1, 3)
    shape = (rng.randint(2, 4), rng.randint(2, 4))
    g = rng.choice([[0.0, 0.0, 1.0, 1.0, None], [0.0, 40.0, 2.0, 2.0, "EPSG:5070"]])
    files = []
    for i in range(n):
        dt = rng.choice(list(POOL))
        files.append(dict(n=rng.choice(["f%d.tif", "sub/g%d.tif", "ABS%d.tif"]) % i,
                          r=raster_spec(rng, dt=dt, shape=(rng.choice([1, 1, 2, 3]),) + shape, g=g, pool=POOL[dt], nan_ok=False, explicit=0.0, load=True)))
    names = ["a", "b", "out1", "A", "x-y", "my r"]
    if rng.random() < 0.3:
        names += [files[0]["n"]]       # a name that hides a file
    prog = []
    nb = {f["n"]: f["r"]["nb"] for f in files}
    known = list(nb)
    ints = {f["n"]: f["r"]["dt"] for f in files}
    m = rng.randint(0, 8) if rng.random() < 0.3 else rng.randint(1, 6)
    for j in range(m):
        def ref(nbs=None):
            u = rng.random()
            if u < 0.03:
                return "nosuch"
            pool = [q for q in known if nbs is None or nb[q] == nbs]
            recent = [q for q in pool if q in nb][-3:]
            return rng.choice(recent if rng.random() < 0.5 else pool) if pool else "nosuch"
        s = dict(dst=rng.choice(names))
        op = rng.choice(["ARITHMETIC", "ARITHMETIC", "COMPOSITE", "EXTRACTBAND", "NULLTOVALUE", "REMAP", "REMAP", "SETNULL", "OPENRASTER", "SAVEFUNCTIONRASTER"])
        s["op"] = op
        a = ref()
        n1 = nb.get(a, 1)
        s["l"] = a
        if op == "ARITHMETIC":
            s["sym"] = rng.choice(["+", "-", "*", "/", "%", "**"]) if rng.random() < 0.97 else rng.choice(["//", "plus", "esriRasterplus"])
            if s["sym"] == "**":
                s["r"] = rng.choice([0, 1, 2, 3])
            else:
                s["r"] = rng.choice([-3, 0, 1, 2, 4, 10]) if rng.random() < 0.5 else ref(n1)
                if isinstance(s["r"], int) and rng.random() < 0.4:
                    s["l"], s["r"] = s["r"], s["l"]
            s["esri"] = int(rng.random() < 0.5)
        elif op == "COMPOSITE":
            s["rs"] = [ref() for _ in range(rng.choice([1, 2, 2, 2, 3, 3]) if rng.random() < 0.3 else rng.choice([2, 2, 3]))]
            n1 = sum(nb.get(q, 1) for q in s["rs"])
            if n1 > 6:
                continue
        elif op == "EXTRACTBAND":
            hi = n1 if rng.random() < 0.94 else n1 + 1
            s["bands"] = [rng.randint(1 if rng.random() < 0.97 else 0, hi) for _ in range(rng.randint(1, 3))]
            n1 = len(s["bands"])
        elif op == "NULLTOVALUE":
            s["v"] = rng.choice([0, 3, -9, 255, 2])
        elif op == "REMAP":
            s["ranges"] = [[lo, lo + rng.choice([1, 2, 3, 20]) if rng.random() < 0.98 else lo, rng.choice([0, 2, 7, -1, 30])]
                           for lo in (rng.choice([-7, 0, 1, 2, 3, 6]) for _ in range(rng.randint(1, 3)))]
        elif op == "SETNULL":
            s["ranges"] = [[lo, lo + rng.choice([1, 2, 3, 20]) if rng.random() < 0.98 else lo, None] for lo in (rng.choice([0, 1, 2, 3, 6]) for _ in range(rng.randint(1, 3)))]
        elif op == "SAVEFUNCTIONRASTER":
            s["v"] = rng.choice([None, 0, -9, 3])
            s["file"] = "s%d" % j
            s["block"] = [] if s["v"] is None else rng.choice([[], [16], [16, 32]])
        if s["dst"] not in known:
            known.append(s["dst"])
        nb[s["dst"]] = n1
        prog.append(s)
    bad = None
    if k % 4 == 1:
        bad = [rng.randint(0, len(prog)), BAD[(k // 4) % len(BAD)]]
    return dict(files=files, prog=prog, bad=bad, style=rng.random())


def num(rng, v):
    return rng.choice([str(v), "%.1f" % v, "%de0" % v])


def render(case, d):
    """(text, statements)"""
    import random
    rng = random.Random(case["style"])
    fn = {f["n"]: os.path.join(d, f["n"]) if f["n"].startswith("ABS") else f["n"] for f in case["files"]}

    def name(x):
        return fn.get(x, x)

    def operand(x):
        return dict(k="num", v=x) if not isinstance(x, str) else dict(k="ref", n=x)

    def txt(x):
        return name(x) if isinstance(x, str) else num(rng, x)
    lines, stmts = [], []
    prog = list(case["prog"])
    if case["bad"]:
        prog.insert(case["bad"][0], case["bad"][1])
    for s in prog:
        while rng.random() < 0.25:
            lines.append(rng.choice(["", "   ", "# a comment", "  # a = OPENRASTER(nothing)", "\t"]))
        if isinstance(s, str):
            f = case["files"][0]["n"]
            lines.append(s.replace("{f}", name(f)).replace("{d}", d))
            stmts.append(dict(line=len(lines), dst="", op="BAD"))
            continue
        op = s["op"]
        st = dict(line=len(lines) + 1, dst=s["dst"], op=op)
        sp = lambda: rng.choice(["", "", " ", "  "])  # noqa: E731
        if op == "COMPOSITE":
            args = [name(q) for q in s["rs"]]
            st["rs"] = [operand(q) for q in s["rs"]]
        else:
            args = [txt(s["l"])]
            st["l"] = operand(s["l"])
        if op == "ARITHMETIC":
            args += [txt(s["r"]), ESRI.get(s["sym"], s["sym"]) if s["esri"] else s["sym"]]
            st.update(r=operand(s["r"]), sym=s["sym"])
        elif op == "EXTRACTBAND":
            args += [str(b) for b in s["bands"]]
            st["bands"] = s["bands"]
        elif op == "NULLTOVALUE":
            args += [num(rng, s["v"])]
            st["v"] = enc(s["v"])
        elif op == "REMAP":
            args += [("," + sp()).join(sp() + (sp() + ":" + sp()).join(num(rng, v) for v in q) for q in s["ranges"])]
            st["ranges"] = [dict(lo=q[0], hi=q[1], to=q[2]) for q in s["ranges"]]
        elif op == "SETNULL":
            args += [sp() + rng.choice(["%d", "%d.0"]) % q[0] + sp() + "-" + sp() + str(q[1]) for q in s["ranges"]]
            st["ranges"] = [dict(lo=q[0], hi=q[1], to=0) for q in s["ranges"]]
        elif op == "SAVEFUNCTIONRASTER":
            args += [s["file"], d, "TIFF"] + ([] if s["v"] is None else [num(rng, s["v"])]) + [str(b) for b in s["block"]]
            st.update(v=0 if s["v"] is None else s["v"], kind="int" if s["v"] is None else "float", file=s["file"],
                      block=[] if not s["block"] else [s["block"][-1], s["block"][0]])
        f = rng.choice([op, op, op.lower(), op.capitalize()])
        lines.append(sp() + name(s["dst"]) + sp() + "=" + sp() + f + "(" + sp() + (sp() + ";" + sp()).join(args) + sp() + ")" + sp() + rng.choice(["", "", "# done", "  #x=1"]))
        stmts.append(st)
    return "\n".join(lines) + rng.choice(["", "\n"]), stmts


def block(p):
    import rasterio as rio
    with rio.open(p) as ds:
        return list(ds.block_shapes[0])


def execute(case):
    from raster_tools import Raster
    from raster_tools.batch import parse_batch_script
    with tempfile.TemporaryDirectory(prefix="vt_c25_") as d:
        os.mkdir(os.path.join(d, "sub"))
        files = []
        seen = {}
        for f, r in zip(case["files"], rasters([f["r"] for f in case["files"]])):
            p = os.path.join(d, f["n"])
            r.save(p)
            seen[f["n"]] = proj(Raster(p))
            files.append(dict(n=f["n"], r=seen[f["n"]]))
        text, stmts = render(case, d)
        path = os.path.join(d, "script.bch")
        with open(path, "w") as fd:
            fd.write(text)
        ev = dict(op="script" if case["bad"] is None else "bad", text=text, files=files, stmts=stmts, exc="", eline=0, env=[], final=DUMMY, direct=DUMMY, saved=[], again=1)
        unabs = {os.path.join(d, n): n for n in seen}

        def run():
            st = parse_batch_script(path)
            env = [dict(n=unabs.get(n, n), r=proj(r)) for n, r in st.rasters.items()]
            return env, proj(st.final_raster)
        res, exc = call(run)
        if exc:
            ev["exc"] = exc.split(":")[0]
            msg = exc.split(": ", 1)[1] if ": " in exc else ""
            if msg.startswith("Script Line "):
                num_ = msg[len("Script Line "):].split(":")[0]
                ev["eline"] = int(num_) if num_.isdigit() else 0
            return [ev]
        ev["env"], ev["final"] = res
        for s in sorted(q for q in os.listdir(d) if q.startswith("s") and q.endswith(".tif")):
            ev["saved"].append(dict(n=s[:-4], r=proj(Raster(os.path.join(d, s))), block=block(os.path.join(d, s))))
            os.unlink(os.path.join(d, s))
        res, exc = call(lambda: proj(Raster(path)))
        if not exc:
            ev["direct"] = res
        ev["again"] = int(all(proj(Raster(os.path.join(d, n))) == r for n, r in seen.items()))
        return [ev]
