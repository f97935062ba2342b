"""Histories of the assignment trail: the transitions of TrailsMC.tla, and longer random ones."""
import json
import random

import common


def designed(nb, nr, levels):
    """one history for every step of the model: a shortest path and the step"""
    import os
    import tempfile
    d = tempfile.mkdtemp(prefix="trail", dir=common.BUILD)
    cfg = os.path.join(d, "TrailsMC.cfg")
    with open(os.path.join(common.VERIF, "spec", "TrailsMC.cfg")) as f:
        text = f.read()
    for k, v in (("NB", nb), ("NR", nr), ("MaxLevel", levels), ("Paths", "TRUE")):
        text = "\n".join(line.split(k + " =")[0] + "%s = %s" % (k, v) if k + " =" in line else line for line in text.split("\n"))
    with open(cfg, "w") as f:
        f.write(text)
    r = common.tlc("TrailsMC", cfg)
    os.unlink(cfg)
    os.rmdir(d)
    out = []
    for line in r.text.splitlines():
        line = line.strip().strip('"')
        if line.startswith("PATH "):
            ops = ["size %d %d" % (nb, nr)]
            for o in json.loads(line[5:].replace('\\"', '"')):
                ops.append({"dec": "dec %(x)d %(v)d", "prop": "prop %(x)d %(v)d %(l)d %(r)d", "back": "back %(l)d", "clear": "clear"}[o["o"]] % o)
            i = "step-%d.%d.%d-%d" % (nb, nr, levels, len(out))
            out.append((i, ["P " + i] + ops + ["END"]))
    return out


def make(seed, i):
    rng = random.Random("trail/%s/%s" % (seed, i))
    nb, nr = rng.choice([0, 1, 3, 8]), rng.choice([0, 1, 3, 8])
    lev = {}
    level = 0
    out = ["size %d %d" % (nb, nr)]

    def value(x):
        return rng.randrange(2) if x > 0 else rng.randrange(-9, 10)
    for _ in range(rng.choice([20, 60, 150])):
        free = [x for x in list(range(1, nb + 1)) + [-k for k in range(1, nr + 1)] if x not in lev]
        r = rng.random()
        if r < .35 and free:
            x = rng.choice(free)
            level += 1
            lev[x] = level
            out.append("dec %d %d" % (x, value(x)))
        elif r < .75 and free:
            x = rng.choice(free)
            lev[x] = level if rng.random() < .5 else rng.randrange(level + 1)
            out.append("prop %d %d %d %d" % (x, value(x), lev[x], rng.randrange(10) if x > 0 else 0))
        elif r < .88:
            level = max(0, level - rng.choice([0, 1, 1, 1, 2, 3]))
            lev = {x: l for x, l in lev.items() if l <= level}
            out.append("back %d" % level)
        elif r < .91:
            level, lev = 0, {}
            out.append("clear")
        elif r < .95:
            nb, nr = nb + rng.randrange(3), nr + rng.randrange(3)
            out.append("size %d %d" % (nb, nr))
        elif lev:
            x = rng.choice(list(lev))
            out.append("set %d %d" % (x, value(x)))
    i = "trail-%s-%d" % (seed, i)
    return i, ["P " + i] + out + ["END"]
