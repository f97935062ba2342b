"""Histories for the restart policies."""
import random


def levels(rng, mean):
    n = min(100, max(1, int(rng.gauss(mean, mean / 3))))
    return " ".join(str(rng.randrange(100) if rng.random() < .3 else rng.randrange(max(2, n))) for _ in range(n))


def make(seed, i):
    rng = random.Random("restart/%s/%s" % (seed, i))
    out = []
    if i % 4 == 0:
        out.append("use luby")
        for _ in range(rng.choice([5, 40, 300])):
            if rng.random() < .2:
                a = rng.randrange(1, 1 << rng.choice([4, 8, 12, 16, 20]))
                out.append("seq %d %d" % (a, a + rng.randrange(1, 60)))
            if rng.random() < .25:
                out.append("learn %d %s" % (rng.choice([1, 5, 549, 550, 1100]), levels(rng, 3)))
            if rng.random() < .9:
                out.append("until 100000000 %s" % levels(rng, 3))
            # several clauses learned from one conflict, or a policy whose advice is delayed
            if rng.random() < .4:
                out.append("learn %d %s" % (rng.choice([1, 2, 7, 550, 600]), levels(rng, 3)))
            out.append("restart")
        if i % 40 == 0:
            out += ["until 100000000 1", "restart"] * 1500
    else:
        m = rng.choice([0, 1, 2, 5, 10, 50, 200])
        s = rng.choice([0, 1, 3, 5, 8, 13, 15])
        f = rng.choice([0, 1, 2, 5, 5, 5, 13])
        t = rng.choice(["1", "1.1", "1.3", "1.3", "1.5", "2", "0.5", "3"])
        out.append("use glucose" if rng.random() < .3 else "use glucose %d %d %d %s" % (m, s, f, t))
        mean = rng.choice([2, 4, 8])
        for _ in range(rng.choice([10, 40, 120])):
            if rng.random() < .3:
                mean = rng.choice([1, 2, 3, 4, 6, 10, 20, 60])
            r = rng.random()
            if r < .6:
                out.append("learn %d %s" % (rng.choice([1, 1, 2, 3, 10]), levels(rng, mean)))
            elif r < .8:
                out.append("until %d %s" % (rng.choice([5, 20, 80]), levels(rng, mean)))
            else:
                out.append("restart")
    i = "restart-%s-%d" % (seed, i)
    return i, ["P " + i] + out + ["END"]
