"""Which engines decide which property, and with which bounds."""
import json
import os
import random
import tempfile

import common
import e2e
import gen_clauses
import gen_cnf
import gen_cons
import gen_order
import gen_rational
import gen_restart
import gen_search
import gen_smt
import gen_terms
import gen_trail
import smtio
import traces
from concurrent.futures import ThreadPoolExecutor

COMMON_ASSUMPTIONS = [
    "TLC, the Json/IOUtils community modules and the BigInteger evaluation of Rationals.tla are correct",
    "the exact simplex evaluating LinArith!Feasible agrees with its definition (checked exhaustively for small systems by LinArithMC)",
    "generated inputs stay in the supported syntax described in DESIGN.md",
]
ASSUMPTIONS = {}
_bins = {}


def binary(name):
    """path of a program built from the working tree, None when it does not build"""
    if name not in _bins:
        _bins.update(common.build_harness([name]))
    return _bins.get(name)


# ---------------------------------------------------------------- engines
VERDICT = ["verdict-sat", "verdict-unsat", "no-answer", "end-*", "error-output", "extra-output", "unreadable"]
MODEL = ["model-value", "model-form", "no-model", "verdict-sat", "unreadable", "end-*", "error-output"]


def scripts(name, plan, rules):
    """plan(tier) -> list of (profile, count, overrides, options)"""
    return {"kind": "scripts", "name": name, "plan": plan, "rules": rules}


def run_scripts(e, seed, tier):
    smt = binary("smt")
    res = {"states": 0, "transitions": 0, "traces": 0, "samples": [], "viol": [], "payload": {}, "notes": []}
    if not smt:
        res["notes"].append("smt does not build")
        return res
    jobs, src = e2e.run(e["plan"], seed, smt)
    viol, notes, st = e2e.judge(jobs)
    bad = {}
    for v in viol:
        bad.setdefault(v[0], []).append(v)
    for j, rc, text in st["failed"]:
        if "OutOfMemory" not in text and "TIMEOUT" not in text:
            bad.setdefault(j, []).append([j, 0, "unreadable"])
        res["notes"].append("could not be evaluated: %s" % j)
    # a rejection is confirmed by running the same script once more
    if bad:
        tmp = tempfile.mkdtemp(prefix="again", dir=common.BUILD)
        again = [e2e.record(smt, src[j][0], src[j][1], j, tmp, 20) for j in list(bad)[:40]]
        v2, _, st2 = e2e.judge(again)
        sure = {(v[0], v[2]) for v in v2} | {(j, "unreadable") for j, _, _ in st2["failed"]}
        for j, vs in bad.items():
            for v in vs:
                if (j, v[2]) in sure:
                    res["viol"].append((v[2], j, v[1]))
        for j in bad:
            res["payload"][j] = {"options": src[j][1], "script": gen_smt.script_text(src[j][0])}
    res["states"] = st["distinct"]
    res["transitions"] = st["states"]
    res["traces"] = len(jobs) - len(st["failed"])
    if notes:
        res["notes"].append("%d checks left undecided by the exploration bound" % len(notes))
    ans = {}
    for j in jobs:
        for o in j["out"]:
            if o["o"] == "answer":
                ans[o["a"]] = ans.get(o["a"], 0) + 1
    res["extra"] = {"answers": ans, "undecided": len(notes)}
    for j in jobs[:2]:
        res["samples"].append({"options": src[j["id"]][1], "script": gen_smt.script_text(src[j["id"]][0])[:1500],
                               "answers": [o.get("a", o["o"]) for o in j["out"]]})
    return res


# Inputs run by one of the drivers in harness/; each JSON line it writes is judged by a module of spec/.
def recorded(name, drv, module, plan, rules, cpu=10):
    """plan(seed) -> list of (id, input lines)"""
    return {"kind": "recorded", "name": name, "drv": drv, "module": module, "plan": plan, "rules": rules, "cpu": cpu}


def parse_lines(lines):
    out = []
    for x in lines:
        try:
            out.append(json.loads(x))
        except ValueError:
            pass
    return out


def run_recorded(e, seed, tier):
    drv = binary(e["drv"])
    res = {"states": 0, "transitions": 0, "traces": 0, "samples": [], "viol": [], "payload": {}, "notes": []}
    if not drv:
        res["notes"].append("%s does not build against this tree" % e["drv"])
        return res
    problems = e["plan"](seed)
    jobs = parse_lines(traces.record(drv, problems, e["cpu"]))
    if len(jobs) < len(problems):
        res["notes"].append("%d of %d inputs were not run" % (len(problems) - len(jobs), len(problems)))
    viol, notes, st = e2e.judge(jobs, module=e["module"])
    src = dict(problems)
    bad = {}
    for v in viol:
        bad.setdefault(v[0], []).append(v)
    for j, rc, text in st["failed"]:
        if "TIMEOUT" not in text:
            bad.setdefault(j, [])
        res["notes"].append("could not be evaluated: %s %s" % (j, text[-300:]))
    if bad:
        # a rejection counts when running the same input again is rejected for the same reason
        some = sorted(bad, key=lambda j: (len(bad[j]) == 0, str(j)))
        rules = {}
        for j in some:
            for v in bad[j]:
                rules.setdefault(v[2], []).append(j)
        pick = {j for js in rules.values() for j in js[:8]} | {j for j in some if not bad[j]}
        again = parse_lines(traces.record(drv, [(j, src[j]) for j in list(pick)[:64]], 3 * e["cpu"]))
        v2, _, st2 = e2e.judge(again, module=e["module"])
        sure = {(v[0], v[2]) for v in v2}
        broken = {j for j, _, text in st2["failed"] if "OutOfMemory" not in text and "TIMEOUT" not in text}
        for j in some:
            for v in bad[j]:
                if (j, v[2]) in sure:
                    res["viol"].append((v[2], j, v[1]))
            if not bad[j] and j in broken:
                res["viol"].append(("unreadable", j, 0))
            res["payload"][j] = {"driver": e["drv"], "module": e["module"], "input": src[j]}
    res["states"] = st["distinct"]
    res["transitions"] = st["states"]
    res["traces"] = len(jobs) - len(st["failed"])
    kinds = {}
    for j in jobs:
        for ev in j.get("ev", []):
            if "e" in ev:
                kinds[ev["e"]] = kinds.get(ev["e"], 0) + 1
    res["extra"] = {"inputs": len(problems), "events": kinds}
    for t in st["other"].get("COUNT", []):
        res["extra"].setdefault("counts", {}).setdefault(t[0], 0)
        res["extra"]["counts"][t[0]] += t[1]
    for j in jobs[:2]:
        res["samples"].append({"input": src.get(j["id"], [])[:30], "recorded": json.dumps(j)[:1500]})
    return res


def cnfs(name, count, size, rules):
    return {"kind": "cnfs", "name": name, "count": count, "size": size, "rules": rules}


def run_cnfs(e, seed, tier):
    sat = binary("sat")
    res = {"states": 0, "transitions": 0, "traces": 0, "samples": [], "viol": [], "payload": {}, "notes": []}
    if not sat:
        res["notes"].append("sat does not build")
        return res
    tmp = tempfile.mkdtemp(prefix="cnf", dir=common.BUILD)
    slow = []

    def one(i, cpu=20, again=False):
        if len(slow) >= 8 and not again:
            return None
        lines = gen_cnf.make(seed, i, e["size"])
        path = os.path.join(tmp, "%d.cnf" % i)
        with open(path, "w") as f:
            f.write(gen_cnf.text(lines, "%d/%d" % (seed, i)))
        out, rc, end = smtio.execute([sat, path], "", cpu)
        if end == "timeout":
            slow.append(i)
        ans = out.split("\n")[0].strip()
        if end == "ok" and ans not in ("SAT", "UNSAT"):
            ans = "none"
        conflicts = [int(x.split("=")[1]) for x in out.split("\n") if x.startswith("conflicts =")]
        os.unlink(path)
        return {"id": "cnf-%d-%d" % (seed, i), "lines": lines, "ans": ans, "end": end, "conflicts": (conflicts or [0])[0]}
    with ThreadPoolExecutor(common.NCPU) as ex:
        jobs = [j for j in ex.map(one, range(e["count"])) if j]
        viol, notes, st = e2e.judge(jobs, module="SatJudge")
        bad = [int(v[0].split("-")[-1]) for v in viol][:40]
        again = list(ex.map(lambda i: one(i, 60, True), bad))
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    if again:
        v2, _, _ = e2e.judge(again, module="SatJudge")
        res["viol"] = [(v[2], v[0], v[1]) for v in v2]
        res["payload"] = {j["id"]: {"cnf": gen_cnf.text(j["lines"], "replay"), "answer": j["ans"], "end": j["end"]} for j in again}
    for j, rc, text in st["failed"]:
        res["notes"].append("could not be evaluated: %s" % j)
    res["states"] = st["distinct"]
    res["transitions"] = st["states"]
    res["traces"] = len(jobs)
    res["extra"] = {"sat": sum(j["ans"] == "SAT" for j in jobs), "unsat": sum(j["ans"] == "UNSAT" for j in jobs),
                    "conflicts": sum(j["conflicts"] for j in jobs), "most_conflicts": max(j["conflicts"] for j in jobs)}
    res["samples"] = [{"cnf": gen_cnf.text(j["lines"], "x")[:800], "answer": j["ans"]} for j in jobs[:2]]
    return res


# A specification explored by TLC on its own, without the code: what the rules checked on the code imply.
def design(module, config, timeout=300):
    """config: text of the configuration file"""
    return {"kind": "design", "name": "design-" + module, "module": module, "config": config, "rules": [], "timeout": timeout}


def mcsat(problems, restarts, learn, ends=False, timeout=300):
    """all searches keeping the rules of Mcsat.tla; liveness needs the graph without a view"""
    return design("McsatMC", """CONSTANTS Problems = {%s}
 MaxRestarts = %d
 MaxLearn = %d
 Strict = TRUE
 Off = {}
SPECIFICATION Spec
%s
INVARIANTS TrailOk ReasonsOk ConstraintsOk LearnedImplied ReasonsImplied SatRight UnsatRight
""" % (problems, restarts, learn, "PROPERTY Ends" if ends else "VIEW View"), timeout)


def run_design(e, seed, tier):
    res = {"states": 0, "transitions": 0, "traces": 0, "samples": [], "viol": [], "payload": {}, "notes": []}
    d = tempfile.mkdtemp(prefix="design", dir=common.BUILD)
    cfg = os.path.join(d, e["module"] + ".cfg")
    with open(cfg, "w") as f:
        f.write(e["config"])
    r = common.tlc(e["module"], cfg, workers=common.NCPU, timeout=e["timeout"], mem="6g")
    os.unlink(cfg)
    os.rmdir(d)
    res["states"], res["transitions"] = r.distinct, r.states
    if not r.ok:
        # says nothing about the code: the design is what it is
        res["notes"].append("exploration of %s did not finish: %s" % (e["module"], r.text[-400:]))
    res["extra"] = {"complete": r.ok, "config": " ".join(e["config"].split())}
    return res


def run_engine(e, seed, tier):
    return globals()["run_" + e["kind"]](e, seed, tier)


# ---------------------------------------------------------------- plans
def q(tier, quick, thorough):
    return quick if tier == "quick" else thorough


def searches(rules, *parts, name="traces"):
    """parts: (kind, number of problems, size, fixed settings)"""
    return recorded(name, "drv_trace", "McsatTrace", lambda seed: traces.problems(parts, seed), rules)


KEPT = ["constraint-changed", "constraint-literal", "constraint-not-shared", "constraint-value", "constraint-wrong"]
ENDS = ["end-*", "unreadable"]
STATE = ["assigned-set", "value-changed", "level-without-value", "level-changed", "reason-changed", "reason-without-value",
         "decision-level-changed", "trail-changed", "level-range", "assigned-twice"]
PROPAGATE = ["propagation-level", "reason-*", "no-reason", "constraint-value", "constraint-level", "real-propagated", "no-value",
             "level-range", "propagation-out-of-place", "level-changed", "reason-changed"]
COMPLETE = ["clause-false", "clause-unit", "constraint-missing", "constraint-wrong", "interval-empty", "conflict-dropped", "sat-clause"]
CONFLICT = ["conflict-*"]
LEARN = ["learned-*", "resolved-with-non-reason", "backjump-*", "split-*", "no-progress", "unsat-not-implied", "unsat-without-conflict"]
DATABASE = ["asserted-*", "learned-changed", "learned-lost", "learned-not-implied", "reason-invalid", "conflict-invalid"]
DECISION = ["picked-assigned", "pick-out-of-place", "decided-other-variable", "decision-*", "sat-*", "no-value", "order-first",
            "assigned-twice"]
PROGRESS = ["no-progress", "backjump-*", "split-*", "learned-not-unit", "learned-level", "learned-empty", "learned-mixed", "learned-top-literals",
            "conflict-dropped", "pick-out-of-place"]
BOUNDS = ["excluded-value-*", "lower-bound-unsound", "upper-bound-unsound", "bound-missing", "interval-empty", "decision-value", "conflict-invalid",
          "conflict-not-false", "reason-invalid"]
FUNCTIONS = ["congruence", "function-model", "conflict-invalid", "conflict-not-false", "reason-invalid", "unsat-not-implied"]
ORDER = ["order-*", "picked-assigned", "sat-unassigned-*"]
RESTART = ["restart-*"]


def big(profile, n, opts=None):
    """scripts of a hundred and more constants, and in the thorough tier of several hundred"""
    return [(profile, max(4, n // 2), {}, opts)] + ([(profile, n // 10, {"size": 4}, opts)] if n >= 200 else [])


def lra(n, opts=None):
    return [(p, n, {}, opts) for p in ("bool", "lra_conj", "lra_mixed", "lra_ite", "lra_let", "lra_big", "lra_word", "define", "long", "wide", "wider", "ite_long")] + big("big_lra", n, opts)


def ufs(n, opts=None):
    return [(p, n, {}, opts) for p in ("uf_r", "uf_b", "uf_n", "cong", "cong_n", "cong_w", "uf_long")] + big("big_uf", n, opts)


def mixed(n, big, size=1.0, **kv):
    return [("prop", n, size, kv), ("lra", n, size, kv), ("uf", n, size, kv), ("ufc", n, size, kv)]


def deep(t, n):
    """arguments of the trace engine in the two tiers: n small searches of each kind, and more of other sizes"""
    return deep_of(t, *[(k, n) for k in ("prop", "lra", "uf", "ufc")])


def deep_of(t, *ks):
    """ordinary searches, and searches with random decisions and backjumps"""
    out = []
    for k, n in ks:
        w = {"wild": 1}
        if t == "quick":
            out += [(k, n, 1.0, {}), (k, n // 2, 2.5, w), (k, n // 4, 1.0, w)]
        else:
            out += [(k, n * 10, 1.0, {}), (k, n * 4, 2.0, {}), (k, n * 8, 2.5, w), (k, n * 4, 4.0, w), (k, n * 4, 1.0, w)]
    return out


PLANS = {
    "C01": lambda t: [design("CnfMC", "CONSTANT K = %d\nINIT Init\nNEXT Next\nINVARIANT Agree\nCHECK_DEADLOCK FALSE\n" % 3)] + [cnfs("cnf", q(t, 1500, 20000), q(t, 1.0, 1.5), ["verdict-*", "no-answer", "end-*"]),
                      searches(["unsat-*", "sat-*"] + ENDS, *deep_of(t, ("prop", 400)))],
    "C02": lambda t: q(t, [], [design("LinArithMC", "CONSTANTS K = 3\n N = 6\nINIT Init\nNEXT Next\nINVARIANTS Agree Sound\nCHECK_DEADLOCK FALSE\n")]) + [scripts("scripts", lra(q(t, 60, 2000)), VERDICT),
                      searches(["unsat-*", "sat-*"] + ENDS, *deep_of(t, ("lra", 200), ("points", 100)))],
    "C03": lambda t: [scripts("scripts", ufs(q(t, 110, 3000)), VERDICT),
                      searches(["unsat-*", "sat-*", "congruence", "conflict-invalid", "constraint-missing"] + ENDS, *deep_of(t, ("uf", 100), ("ufc", 150), ("ufp", 100)))],
    "C04": lambda t: [scripts("scripts", lra(q(t, 40, 1000)) + ufs(q(t, 60, 1500)), MODEL),
                      searches(["sat-*", "function-model"] + ENDS, *deep_of(t, ("lra", 60), ("uf", 60), ("ufc", 60), ("ufp", 60)))],
    "C05": lambda t: [scripts("scripts", lra(q(t, 8, 200), e2e.OPTIONS) + ufs(q(t, 12, 300), e2e.OPTIONS), VERDICT + MODEL),
                      searches(["unsat-*", "sat-*"] + ENDS, *deep(t, 100))],
    "C06": lambda t: [recorded("trail", "drv_trail", "TrailTrace",
                               lambda seed: gen_trail.designed(*q(t, (2, 1, 3), (2, 2, 4))) + [gen_trail.make(seed, i) for i in range(q(t, 300, 6000))], None),
                      searches(STATE + ENDS, *deep(t, 200))],
    "C07": lambda t: [searches(PROPAGATE + ENDS, *deep(t, 190), *q(t, [("propl", 30, 1.0, {})], [("propl", 500, 1.0, {})]))],
    "C08": lambda t: [searches(COMPLETE + ENDS, *deep(t, 180), *deep_of(t, ("points", 60)), *q(t, [("propl", 50, 1.0, {}), ("propl", 40, 1.0, {"wild": 1})], [("propl", 1500, 1.0, {}), ("propl", 500, 1.0, {"wild": 1}), ("propl", 300, 2.0, {})]))],
    "C09": lambda t: [searches(CONFLICT + ["reason-invalid"] + ENDS, *deep_of(t, ("prop", 100), ("lra", 400), ("uf", 100), ("ufc", 150), ("ufp", 150)))],
    "C10": lambda t: q(t, [mcsat("1, 2, 3, 4, 5, 8", 1, 2)], [mcsat("1, 2, 3, 4, 5, 8", 2, 2), mcsat("6, 7", 0, 1, timeout=600)]) + [searches(LEARN + ENDS, *deep(t, 200), *q(t, [("prop", 60, 3.5, {}), ("propl", 40, 1.0, {})], [("prop", 2000, 3.5, {}), ("propl", 1000, 1.0, {}), ("prop", 500, 5.0, {})]))],
    "C11": lambda t: [recorded("simplification", "drv_subsume", "ClausesTrace",
                               lambda seed: [gen_clauses.make(seed, i) for i in range(q(t, 1500, 30000))], None),
                      searches(DATABASE + ENDS, *deep_of(t, ("prop", 450), ("lra", 200), ("uf", 50)), *q(t, [("propl", 50, 1.0, {}), ("propl", 40, 1.0, {"wild": 1})], [("propl", 1500, 1.0, {}), ("propl", 500, 1.0, {"wild": 1}), ("propl", 300, 2.0, {})]))],
    "C12": lambda t: [searches(DECISION + ENDS, *deep(t, 160), *deep_of(t, ("points", 150))),
                      scripts("settings", [("phase", q(t, 50, 1000), {"nb": n}, [["--phase", "negative"], ["--phase", "positive"], ["--phase", "cache"], []]) for n in (3, 12)],
                              ["model-phase", "no-model", "end-*"])],
    "C13": lambda t: [mcsat("1, 2, 3, 4, 5, 8", q(t, 1, 2), 2, True, timeout=q(t, 120, 600))] + [searches(PROGRESS + ENDS, *deep(t, 230), *deep_of(t, ("points", 100)))],
    "C14": lambda t: [searches(BOUNDS + ENDS, *deep_of(t, ("lra", 300), ("uf", 60), ("ufc", 100), ("lrad", 300), ("points", 100)))],
    "C15": lambda t: [searches(KEPT + ENDS, *deep_of(t, ("lra", 200), ("lrad", 100))),
                      recorded("repository", "drv_cons", "ConsTrace",
                               lambda seed: [gen_cons.make(seed, i) for i in range(q(t, 800, 15000))], None),
                      scripts("scripts", [(p, q(t, 40, 1000), {}, None) for p in ("lra_mixed", "lra_big", "lra_conj")], VERDICT + MODEL)],
    "C16": lambda t: [searches(FUNCTIONS + ENDS, *deep_of(t, ("uf", 150), ("ufc", 250), ("ufp", 300)))],
    "C17": lambda t: [recorded("terms", "drv_terms", "TermsTrace",
                               lambda seed: [gen_terms.make(seed, i) for i in range(q(t, 300, 6000))], None),
                      scripts("scripts", [(p, q(t, 50, 1200), {}, None) for p in ("bool", "lra_ite", "lra_mixed", "lra_let", "wide")] + big("big_lra", q(t, 50, 1000)), VERDICT + MODEL)],
    "C18": lambda t: [scripts("scripts", [("define", q(t, 150, 3000), {}, None), ("shadow", q(t, 150, 3000), {}, None), ("lra_let", q(t, 100, 2000), {}, None)] + big("big_uf", q(t, 40, 800)), VERDICT + MODEL)],
    "C19": lambda t: [scripts("scripts", [("steps", q(t, 200, 4000), {}, None), ("steps_uf", q(t, 150, 3000), {}, None), ("cong_steps", q(t, 100, 3000), {}, None)]
                              + big("big_steps_lra", q(t, 40, 800)) + big("big_steps_uf", q(t, 40, 800)), VERDICT + MODEL + ["not-repeatable"]),
                      searches(["unsat-*", "sat-*", "asserted-*", "learned-*", "function-model"] + ENDS, *deep(t, 100))],
    "C20": lambda t: [recorded("registers", "drv_rational", "RationalTrace",
                               lambda seed: [gen_rational.make(seed, i) for i in range(q(t, 600, 12000))] + gen_rational.singles(seed)
                               + [x for k in range(q(t, 2, 8)) for x in gen_rational.pairs(seed, (k + seed) % 8, 8)], None),
                      scripts("scripts", [(p, q(t, 60, 1500), {}, None) for p in ("lra_big", "lra_word")], VERDICT + MODEL)],
    "C21": lambda t: [recorded("policies", "drv_restart", "RestartTrace",
                               lambda seed: [gen_restart.make(seed, i) for i in range(q(t, 400, 8000))], None),
                      searches(RESTART, *deep_of(t, ("prop", 400), ("lra", 150)))],
    "C22": lambda t: [recorded("orders", "drv_order", "OrderTrace",
                               lambda seed: [gen_order.make(seed, i) for i in range(q(t, 400, 8000))], None),
                      searches(ORDER + ENDS, *deep(t, 150))],
}
TECHNIQUE = {}
LEVEL_NOTE = {}
NOT_APPLICABLE = []


def write_manifest():
    ids = [json.loads(l)["id"] for l in open(os.path.join(common.VERIF, "properties.jsonl"))]
    checks = []
    for i in ids:
        if i in PLANS:
            checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                           "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                           "evidence_file": "evidence/%s.json" % i,
                           "technique": TECHNIQUE.get(i, "TLA+ specification, TLC validates recorded runs of the real code"),
                           "level": "model_checking",
                           "level_note": LEVEL_NOTE.get(i, "generated inputs run through the real code; every recorded step is checked by TLC against the specification")})
    na = list(NOT_APPLICABLE) + [{"property": i, "reason": "check under construction"} for i in ids
                                 if i not in PLANS and i not in [x["property"] for x in NOT_APPLICABLE]]
    m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
         "notes": "Specification in spec/ (TLA+, TLC). Drivers in harness/ build /repo's sources; no hooks in /repo."}
    with open(os.path.join(common.VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


def replay(path):
    d = json.load(open(path))
    print(json.dumps(d, indent=1))
    return 0
