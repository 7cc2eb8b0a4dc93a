"""Running TLC."""
import json, os, re, subprocess, tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"


def classpath():
    d = os.path.dirname(JAR)
    jars = [JAR] + [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar") and f != "tla2tools.jar"]
    return ":".join(jars)


class TLCError(Exception):
    pass


def start(module, cfg, scratch, env=None, workers=1, extra=(), heap="1500m", name=None):
    """Starts TLC; returns the process with its output file."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    out = os.path.join(meta, "out.txt")
    cfgp = cfg
    if "\n" in cfg:
        cfgp = os.path.join(meta, "MC.cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           f"-Xmx{heap}", "-Xss64m", "-XX:TieredStopAtLevel=4", f"-DTLA-Library={SPEC}", "-cp", classpath(), "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(meta, "states"),
           "-config", cfgp, "-deadlock", *extra, os.path.join(SPEC, module + ".tla")]
    with open(out, "w") as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=meta)
    p.vt_out = out
    p.vt_module = name or module
    return p


def finish(p, timeout=None):
    """Waits; returns (ok, text, stats)."""
    try:
        p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise TLCError(f"TLC on {p.vt_module} timed out")
    text = "\n".join(t for t in open(p.vt_out).read().splitlines()
                     if t.strip() and not t.startswith(("Parsing file", "Semantic processing", "Linting of")))
    st = {}
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
    if m:
        st["transitions"], st["states"] = int(m[-1][0]), int(m[-1][1])
    m = re.search(r"The depth of the complete state graph search is (\d+)", text)
    if m:
        st["depth"] = int(m.group(1))
    return p.returncode == 0, text, st


def verdict(p, path, timeout=None):
    ok, text, st = finish(p, timeout)
    if not ok or not os.path.exists(path):
        raise TLCError(f"TLC failed on {p.vt_module}:\n" + text[:1500] + '\n...\n' + text[-1500:])
    with open(path) as f:
        return json.load(f)[0], st
