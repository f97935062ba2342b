"""End-to-end engine: scripts run by the real smt binary, judged by SmtJudge.tla."""
import json
import os
import random
import re
import shutil
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

import common
import gen_smt
import smtio

OPTIONS = [[], ["--prop-rational"], ["--deduce-bounds"], ["--phase", "negative"], ["--phase", "cache"],
           ["--prop-rational", "--deduce-bounds"], ["--phase", "negative", "--prop-rational", "--deduce-bounds"],
           ["--phase", "positive"], ["--print-stats"]]


def record(smt, script, opts, jid, tmp, cpu=10):
    text, back = gen_smt.styled(script) if script.get("style") else (gen_smt.plain_text(script), {})
    path = os.path.join(tmp, jid.replace("/", "_") + ".smt2")
    with open(path, "w") as f:
        f.write(text)
    stdout, rc, end = smtio.execute([smt, *opts, path], "", cpu)
    if "--print-stats" in opts:
        stdout = re.sub(r"^[A-Z][A-Za-z ]* = [0-9]+\n", "", stdout, flags=re.M)
    out, end = smtio.smt_outputs(stdout, rc, end, back)
    return {"id": jid, "cmds": smtio.tla_cmds(script), "out": out, "end": end,
            "phase": opts[opts.index("--phase") + 1] if "--phase" in opts else "positive"}


def judge(jobs, chunks=None, module="SmtJudge", timeout=None, workers=1, mem="3g", budget=None):
    """-> list of (job id, pos, rule), notes, stats. What TLC cannot decide within budget seconds is in stats["failed"]."""
    begin = time.time()
    budget = budget or (3000 if common.tier() == "thorough" else max(30, min(300, 600 - (begin - common.START))))
    n = min(chunks or common.NCPU, max(1, len(jobs)))
    parts = [jobs[i::n] for i in range(n)]
    tmp = tempfile.mkdtemp(prefix="judge", dir=common.BUILD)
    viol, notes, states, distinct, failed, other, said = [], [], 0, 0, [], {}, False

    def one(i, part):
        path = os.path.join(tmp, "%d.ndjson" % i)
        with open(path, "w") as f:
            for j in part:
                f.write(json.dumps(j) + "\n")
        left = timeout or (budget if i < 1000 else 30)
        return common.tlc(module, module + ".cfg", env={"TRACE": path}, workers=workers, timeout=left, mem=mem), part

    try:
        with ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(lambda a: one(*a), enumerate(parts)))
        # a chunk that TLC could not evaluate is split until the inputs at fault are found
        while rs:
            retry = []
            for r, part in rs:
                if r.ok and r.other.get("DONE"):
                    viol += r.viol
                    notes += r.notes
                    states += r.states
                    distinct += r.distinct
                    for k, v in r.other.items():
                        other.setdefault(k, []).extend(v)
                    continue
                if "Parsing or semantic analysis failed" in r.text:
                    raise RuntimeError("specification does not parse\n" + r.text[-1500:])
                viol += r.viol
                if len(part) == 1:
                    failed.append((part[0]["id"], r.rc, ("TIMEOUT " if r.rc == -1 else "") + r.text[-800:]))
                elif time.time() - begin > budget + 60:
                    failed.append((part[0]["id"], -1, "TIMEOUT and %d more inputs" % (len(part) - 1)))
                elif len(failed) < 8:
                    k = max(1, (len(part) + 7) // 8)
                    retry += [part[i:i + k] for i in range(0, len(part), k)]
                    if not said:
                        said = True
                        common.log("TLC did not finish a chunk:\n" + r.text[-600:])
            with ThreadPoolExecutor(common.NCPU) as ex:
                rs = list(ex.map(lambda a: one(1000 + a[0], a[1]), enumerate(retry)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return viol, notes, {"states": states, "distinct": distinct, "failed": failed, "other": other}


def run(plan, seed, smt):
    """plan: list of (profile, count, overrides, options list or None for a random one)"""
    tmp = tempfile.mkdtemp(prefix="e2e", dir=common.BUILD)
    todo = []
    rng = random.Random("opts/%d" % seed)
    for profile, count, over, opts in plan:
        for i in range(count):
            s = gen_smt.make(profile, seed * 100003 + i, **over)
            if rng.random() < .25:
                s["style"] = "%s-%d-%d" % (profile, seed, i)
            for k, o in enumerate(opts if opts is not None else [rng.choice(OPTIONS)]):
                todo.append((s, o, "%s-%d-%d%s" % (profile, seed, i, "-".join([""] + [x.strip("-") for x in o]))))
    slow = []

    def one(t):
        if len(slow) >= 16:       # the code under test hangs: enough evidence
            return None
        r = record(smt, t[0], t[1], t[2], tmp)
        if r["end"] == "timeout":
            slow.append(t[2])
        return r
    try:
        with ThreadPoolExecutor(common.NCPU) as ex:
            jobs = [j for j in ex.map(one, todo) if j]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return jobs, {t[2]: (t[0], t[1]) for t in todo}
