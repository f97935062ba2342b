"""Histories for the variable orders and their queue."""
import random


def queue(rng):
    n = rng.choice([3, 6, 20, 60])
    codes = list(range(1, n + 1)) + [-i for i in range(1, n // 2 + 1)]
    inside = set()
    sc = {}
    out = []
    pool = rng.choice([[0, 1, 2], [0, .5, 1, 1.5, 3, 7, 1e10, 3e34], None])

    def score():
        return repr(rng.choice(pool)) if pool else "%.9g" % (rng.random() * 10 ** rng.randint(-10, 34))
    for v in rng.sample(codes, rng.randint(1, len(codes))):
        out.append("q push %d %s" % (v, score()))
        inside.add(v)
    for _ in range(rng.choice([20, 80])):
        r = rng.random()
        free = [v for v in codes if v not in inside]
        if r < .25 and free:
            v = rng.choice(free)
            out.append("q push %d %s" % (v, score()))
            inside.add(v)
        elif r < .45 and inside:
            # which variable leaves is known to the queue only: refill from an emptied queue later
            out.append("q drain" if rng.random() < .1 else "q update %d %s" % (rng.choice(codes), score()))
            if out[-1] == "q drain":
                inside.clear()
        elif r < .55:
            out.append("q rescale %s" % rng.choice(["2", "1e35", "3", "1e10", "1e38"]))
        elif inside:
            out.append("q update %d %s" % (rng.choice(sorted(inside)), score()))
    out.append("q drain")
    # pops in between: push everything again in another order
    for v in rng.sample(codes, len(codes)):
        out.append("q push %d %s" % (v, score()))
    for _ in range(rng.randint(0, len(codes) // 2)):
        out.append("q pop")
        if rng.random() < .4:
            out.append("q update %d %s" % (rng.choice(codes), score()))
        if rng.random() < .1:
            out.append("q rescale 1e20")
    out.append("q drain")
    return out


def history(rng):
    kind = rng.choice(["evsids", "gvsids", "gvsids", "gvsids", "first"])
    nb = rng.choice([1, 3, 6, 12, 25])
    nr = 0 if kind == "evsids" else rng.choice([0, 1, 3, 6, 15])
    out = ["use %s %d %d" % (kind, nb, nr)]

    def cons():
        nonlocal nb
        if nr:
            nb += 1
            out.append("cons " + " ".join(map(str, rng.sample(range(1, nr + 1), rng.randint(1, min(nr, 3))))))
    for _ in range(rng.randint(0, 8)):
        cons()
    lev = {}
    dl = 0

    def lits():
        k = rng.randint(1, min(nb, rng.choice([1, 2, 3, 6])))
        return " ".join(str(v * rng.choice([1, -1])) for v in rng.sample(range(1, nb + 1), k))
    for _ in range(rng.randint(0, 10)):
        out.append("assert " + lits())
    out.append("init")
    big = rng.random() < .25
    for _ in range(rng.choice([30, 80, 160])):
        r = rng.random()
        free = [v for v in list(range(1, nb + 1)) + [-i for i in range(1, nr + 1)] if v not in lev]
        if r < .12:
            out.append("learn %d %s" % (rng.choice([1, 1, 1, 2, 20] + [400] * big), lits()))
        elif r < .22:
            out.append("resolve %d %s" % (rng.choice([1, 1, 2]), lits()))
        elif r < .45:
            out.append("pick")
        elif r < .65 and free:
            v = rng.choice(free)
            dl += 1
            lev[v] = dl
            out.append("decide %d" % v)
        elif r < .8 and free:
            v = rng.choice(free)
            if v < 0 and rng.random() < .5:
                continue
            lev[v] = rng.choice([dl, dl, rng.randint(0, dl)])
            out.append("prop %d %d" % (lev[v], v))
        elif r < .92 and dl > 0:
            to = rng.randint(0, dl - 1) if rng.random() < .9 else -1
            out.append("back %d" % to)
            lev = {v: k for v, k in lev.items() if k <= to}
            dl = max(to, 0)
        elif r < .94:
            out.append("grow %d %d" % ((1, 0) if kind == "evsids" else rng.choice([(1, 0), (0, 1), (2, 1)])))
            b, g = map(int, out[-1].split()[1:])
            nb, nr = nb + b, nr + g
        elif r < .96:
            cons()
        elif r < .97:
            out.append("back -1")
            lev, dl = {}, 0
            out.append("init")
        else:
            v, w = (rng.choice(range(1, nb + 1)) for _ in range(2))
            out.append("before %d %d" % (v, w))
        if rng.random() < .03:
            # assign everything the order picks
            out.append("pick")
            for v in rng.sample(free, len(free)):
                if v not in lev:
                    lev[v] = dl
                    out.append("prop %d %d" % (dl, v))
                    if rng.random() < .3:
                        out.append("pick")
    out.append("pick")
    return out


def make(seed, i):
    rng = random.Random("order/%s/%s" % (seed, i))
    out = queue(rng) if i % 4 == 0 else history(rng)
    i = "order-%s-%d" % (seed, i)
    return i, ["P " + i] + out + ["END"]
