#!/usr/bin/env python3
"""For every rule of Mcsat: does a search that may break it (and only it) violate a property in McsatMC?"""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common
from concurrent.futures import ThreadPoolExecutor

RULES = """propagation-level reason-without-literal reason-not-unit reason-invalid no-reason constraint-value constraint-level level-range assigned-twice
conflict-not-false conflict-invalid conflict-out-of-place learned-not-false learned-empty learned-false-for-ever learned-not-implied learned-order
learned-top-literals learned-mixed learned-out-of-place restart-asked-out-of-place restart-ignored backjump-too-far backjump-too-short split-level
learned-not-unit learned-level no-progress restart-not-asked asserted-changed learned-changed learned-lost clause-false clause-unit constraint-missing
constraint-wrong interval-empty congruence decision-value decision-level sat-unassigned-bool sat-unassigned-real sat-clause sat-out-of-place
unsat-not-implied unsat-without-conflict picked-assigned""".split()


def one(r):
    res = design("1, 2, 3, 4, 5, 8", 1, 2, "TRUE", [r], "PROPERTY Ends", 1, 300)
    m = re.search(r"Error: (Invariant \w+ is violated|Deadlock reached|Temporal properties were violated|[^\n]*)", res.text)
    return r, "ok" if res.ok else (m.group(1)[:70] if m else "time limit")


def design(problems, restarts, learn, strict, off, prop, workers, timeout):
    d = os.path.join(common.BUILD, "design")
    os.makedirs(d, exist_ok=True)
    cfg = os.path.join(d, "%s.cfg" % "-".join(off or ["none"]))
    with open(cfg, "w") as f:
        f.write("CONSTANTS Problems = {%s}\n MaxRestarts = %d\n MaxLearn = %d\n Strict = %s\n Off = {%s}\nSPECIFICATION Spec\n"
                "INVARIANTS TrailOk ReasonsOk ConstraintsOk LearnedImplied ReasonsImplied SatRight UnsatRight\n%s\n"
                % (problems, restarts, learn, strict, ", ".join('"%s"' % x for x in off), prop))
    return common.tlc("McsatMC", cfg, workers=workers, timeout=timeout)


if __name__ == "__main__":
    with ThreadPoolExecutor(3) as ex:
        for r, t in ex.map(one, sys.argv[1:] or RULES):
            print("%-28s %s" % (r, t), flush=True)
