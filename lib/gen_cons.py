"""Programs for harness/drv_cons.cpp."""
import random
from fractions import Fraction

import gen_rational


def num(rng):
    r = rng.random()
    if r < .5:
        return Fraction(rng.choice([-3, -2, -1, -1, 1, 1, 2, 3]))
    if r < .75:
        return Fraction(rng.randint(-6, 6), rng.choice([1, 2, 3, 4, 5]))
    return gen_rational.value(rng)


def make(seed, i, length=40):
    rng = random.Random("cons/%s/%d" % (seed, i))
    nr = rng.choice([1, 2, 3, 4, 6, 8])
    out = ["NR %d" % nr]
    made = []
    nb = 0
    if rng.random() < .3:
        nb = rng.randint(1, 3)
        out.append("resize %d" % nb)
    for _ in range(length):
        r = rng.random()
        if r < .65 or not made:
            if made and rng.random() < .55:
                # another form of an earlier constraint, or something close to it
                co, p, rhs = rng.choice(made)
                co = dict(co)
                k = rng.choice([Fraction(1), Fraction(-1), Fraction(2), Fraction(-1, 3), num(rng) or Fraction(1)])
                if k == 0:
                    k = Fraction(-1)
                co = {v: c * k for v, c in co.items()}
                rhs = rhs * k
                q = rng.random()
                if q < .3:
                    # negation: swap lt/leq with the opposite sign
                    if p != "eq":
                        co = {v: -c for v, c in co.items()}
                        rhs = -rhs
                        p = "leq" if p == "lt" else "lt"
                elif q < .45:
                    p = rng.choice(["eq", "lt", "leq"])
                elif q < .55:
                    rhs += rng.choice([1, -1, Fraction(1, 2)])
                elif q < .65:
                    v = rng.choice(list(co))
                    co[v] = co[v] + rng.choice([0, 1, -1])
                elif q < .75 and len(co) > 1:
                    a, b = rng.sample(list(co), 2)
                    co[a], co[b] = co[b], co[a]
            else:
                k = rng.randint(1, nr) if rng.random() < .8 else nr
                co = {v: num(rng) for v in rng.sample(range(nr), k)}
                p = rng.choice(["lt", "leq", "leq", "eq"])
                rhs = num(rng) if rng.random() < .7 else Fraction(0)
            if rng.random() < .2:
                for v in range(nr):
                    if v not in co and rng.random() < .4:
                        co[v] = Fraction(0)
            items = list(co.items())
            rng.shuffle(items)
            if not any(c for _, c in items) and rng.random() < .7:
                continue
            out.append("make %s %s %s" % (p, rhs, " ".join("%d %s" % x for x in items)))
            made.append((co, p, rhs))
        elif r < .95:
            k = rng.randrange(len(made))
            co, p, rhs = made[k]
            vals = [num(rng) for _ in range(nr)]
            if rng.random() < .4:
                # on the boundary
                nz = [v for v in co if co[v]]
                if nz:
                    v = rng.choice(nz)
                    vals[v] = (rhs - sum(co[u] * vals[u] for u in co if u != v)) / co[v] + rng.choice([0, 0, Fraction(1, 2 ** 40), -1])
            out.append("eval %d %s" % (k, " ".join(map(str, vals))))
        else:
            out.append("all")
    out.append("all")
    i = "cons-%s-%d" % (seed, i)
    return i, ["P " + i] + out + ["END"]
