#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] | setup | replay <file> | manifest

Decides one property of yaga on the working tree of /repo: builds the code, records its behaviour, and lets
TLC judge the recording against the specification in spec/.  Exit 0 when everything conforms, 1 with a line
VIOLATION property=<id> replay=<path> otherwise."""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common  # noqa: E402
import plans  # noqa: E402


def known_findings():
    path = os.path.join(common.VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=<id> key=<engine:job:rule> <text>
                f = dict(x.split("=", 1) for x in line.split()[1:3])
                out.append((f["property"], f["key"], line.split(None, 3)[3] if len(line.split(None, 3)) > 3 else ""))
    return out


def main(prop, tier):
    os.environ["VERIF_TIER"] = tier
    t0 = time.time()
    seed = common.seed()
    os.makedirs(os.path.join(common.VERIF, "evidence"), exist_ok=True)
    os.makedirs(common.BUILD, exist_ok=True)
    engines = plans.PLANS[prop](tier)
    states = transitions = traces = 0
    samples, viol, notes, engine_stats = [], [], [], []
    for e in engines:
        te = time.time()
        r = plans.run_engine(e, seed, tier)
        states += r["states"]
        transitions += r["transitions"]
        traces += r["traces"]
        samples += r["samples"][:3]
        notes += r.get("notes", [])
        keep = [v for v in r["viol"] if e["rules"] is None or any(v[0] == x or (x.endswith("*") and v[0].startswith(x[:-1])) for x in e["rules"])]
        other = len(r["viol"]) - len(keep)
        for v in keep:
            viol.append((e, v, r["payload"].get(v[1])))
        engine_stats.append({"engine": e["name"], "states": r["states"], "transitions": r["transitions"],
                             "traces": r["traces"], "violations": len(keep), "violations_of_other_properties": other,
                             "wall_s": round(time.time() - te, 1), **r.get("extra", {})})
        common.log("%s %s: %s" % (prop, e["name"], engine_stats[-1]))
    known = [k for k in known_findings() if k[0] == prop]
    seen, bad, found = set(), 0, set()
    for e, v, payload in viol:
        key = "%s:%s:%s" % (e["name"], v[1], v[0])
        if key in seen:
            continue
        seen.add(key)
        k = next((k for k in known if k[1] == key), None)
        if k:
            found.add(k)
            continue
        bad += 1
        if bad <= 5:
            d = os.path.join(common.VERIF, "replay", prop)
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s-%s.json" % (e["name"], "".join(c if c.isalnum() or c in "-_" else "_" for c in str(v[1])), "".join(c if c.isalnum() or c in "-_" else "_" for c in v[0])))
            with open(path, "w") as f:
                json.dump({"property": prop, "engine": e["name"], "seed": seed, "rule": v[0], "where": v[1:], "input": payload}, f, indent=1)
            print("VIOLATION property=%s replay=%s rule=%s at=%s" % (prop, path, v[0], json.dumps(v[1:])[:300]), flush=True)
    for k in found:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": states, "transitions": transitions, "traces_validated_against_impl": traces,
                       "samples": samples[:8] or ["none"], "engines": engine_stats, "notes": notes[:40]},
          "assumptions": plans.ASSUMPTIONS.get(prop, []) + plans.COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": bad}
    with open(os.path.join(common.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if bad:
        return 1
    print("OK property=%s states=%d traces=%d wall=%.1fs" % (prop, states, traces, time.time() - t0))
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "setup":
        common.build_java()
        common.build_harness()
        sys.exit(0)
    if sys.argv[1] == "manifest":
        plans.write_manifest()
        sys.exit(0)
    if sys.argv[1] == "replay":
        sys.exit(plans.replay(sys.argv[2]))
    tier = common.tier()
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    sys.exit(main(sys.argv[1], tier))
