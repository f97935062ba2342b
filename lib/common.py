"""Building the code under test, running TLC and writing evidence."""
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("YAGA_DIR", "/repo")
BUILD = os.path.join(VERIF, "build")
TLA = "/opt/veriftools/tla"
START = time.time()
NCPU = os.cpu_count() or 8


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_java():
    out = os.path.join(BUILD, "java")
    srcs = sorted(glob.glob(os.path.join(VERIF, "java", "*.java")))
    stamp = os.path.join(out, "stamp")
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in srcs)).hexdigest()
    if os.path.exists(stamp) and open(stamp).read() == h:
        return out
    os.makedirs(out, exist_ok=True)
    r = run(["javac", "-nowarn", "-cp", TLA + "/tla2tools.jar", "-d", out] + srcs)
    if r.returncode:
        raise RuntimeError(r.stdout)
    open(stamp, "w").write(h)
    return out


def build_harness(targets=None):
    """Builds yaga from the working tree together with the drivers. Returns {target: path or None}."""
    d = os.path.join(BUILD, "h")
    os.makedirs(d, exist_ok=True)
    r = run(["cmake", "-S", os.path.join(VERIF, "harness"), "-B", d, "-G", "Ninja", "-DYAGA_DIR=" + REPO])
    if r.returncode:
        raise RuntimeError("cmake failed\n" + r.stdout)
    names = ["smt", "sat"] + sorted(os.path.splitext(os.path.basename(f))[0]
                                    for f in glob.glob(os.path.join(VERIF, "harness", "drv_*.cpp")))
    if targets is not None:
        names = [n for n in names if n in targets]
    r = run(["ninja", "-C", d, "-k", "0"] + names)
    out = {}
    for n in names:
        ok = r.returncode == 0
        if not ok:
            # is this one up to date nevertheless?
            ok = run(["ninja", "-C", d, n]).returncode == 0
        out[n] = os.path.join(d, n) if ok else None
    if r.returncode:
        log(r.stdout[-3000:])
    return out


class TlcResult:
    def __init__(self):
        self.viol = []      # tuples printed as <<"VIOL", ...>>
        self.notes = []
        self.other = {}     # tag -> list of tuples
        self.states = 0
        self.distinct = 0
        self.ok = False
        self.text = ""


def parse_tuple(line):
    """<<"A", "b", 3, <<1, 2>>, ...>> printed by PrintT -> Python list"""
    s = line.replace("<<", "[").replace(">>", "]").replace("TRUE", "true").replace("FALSE", "false")
    try:
        return json.loads(s)
    except ValueError:
        return None


def tlc(module, cfg, env=None, workers=1, timeout=None, extra=(), mem="3g", spec_dir=None, tmp=None):
    jd = build_java()
    sd = spec_dir or os.path.join(VERIF, "spec")
    meta = os.path.join(BUILD, "tlc", "%s-%d-%d" % (module, os.getpid(), int(time.time() * 1e6) % 10**9))
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + mem,
           "-Dtlc2.TLC.ide=x", "-Djava.io.tmpdir=" + meta, "-cp", ":".join([jd, TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"]),
           "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config",
           os.path.join(sd, cfg), *extra, os.path.join(sd, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    res = TlcResult()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=meta, env=e, timeout=timeout)
        res.text = p.stdout
        res.ok = p.returncode == 0
        res.rc = p.returncode
    except subprocess.TimeoutExpired as x:
        res.text = (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or "")
        res.rc = -1
    shutil.rmtree(meta, ignore_errors=True)
    # PrintT may wrap long tuples over several lines
    buf = None
    for line in res.text.splitlines():
        if buf is not None:
            buf += " " + line.strip()
        elif line.startswith("<<"):
            buf = line
        if buf is not None and buf.count("<<") == buf.count(">>"):
            t = parse_tuple(buf)
            buf = None
            if t:
                if t[0] == "VIOL":
                    res.viol.append(t[1:])
                elif t[0] == "NOTE":
                    res.notes.append(t[1:])
                else:
                    res.other.setdefault(t[0], []).append(t[1:])
        m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
        if m:
            res.states, res.distinct = int(m.group(1)), int(m.group(2))
    return res


def tier():
    return os.environ.get("VERIF_TIER", "quick")


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1
