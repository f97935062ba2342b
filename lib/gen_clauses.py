"""Clause databases and assignments for the simplification of clauses."""
import random


def make(seed, i):
    rng = random.Random("clauses/%s/%s" % (seed, i))
    n = rng.choice([2, 3, 5, 8, 20, 70, 200])
    out = ["vars %d" % n]
    db = []

    def clause(k=None):
        k = k or rng.choice([1, 2, 2, 3, 3, 4, 6])
        k = min(k, n)
        return [v * rng.choice([1, -1]) for v in rng.sample(range(1, n + 1), k)]

    def related():
        """a clause close to one of the database: subset, superset, equal up to order, one literal flipped"""
        if not db or rng.random() < .25:
            return clause()
        c = list(rng.choice(db[-12:]))
        r = rng.random()
        free = [v for v in range(1, n + 1) if v not in map(abs, c)]
        if r < .3 and len(c) > 1:
            c = rng.sample(c, rng.randint(1, len(c) - 1))
        elif r < .6 and free:
            c += [v * rng.choice([1, -1]) for v in rng.sample(free, min(len(free), rng.randint(1, 3)))]
        elif r < .8:
            k = rng.randrange(len(c))
            c[k] = -c[k]
            if rng.random() < .6 and free:
                c.append(rng.choice(free) * rng.choice([1, -1]))
        rng.shuffle(c)
        return c
    for _ in range(rng.randint(0, 8)):
        c = related()
        db.append(c)
        out.append("assert " + " ".join(map(str, c)))
    if i % 2 == 0:
        for _ in range(rng.choice([2, 5, 10])):
            for _ in range(rng.choice([0, 1, 3, 8, 25])):
                c = related()
                db.append(c)
                out.append("learn " + " ".join(map(str, c)))
            if rng.random() < .15:
                n += rng.choice([1, 5])
                out.append("vars %d" % n)
            if rng.random() < .1:
                out.append("init")
            out.append("restart")
    else:
        val, lev, dl = {}, {}, 0
        for _ in range(rng.choice([10, 30, 60])):
            free = [v for v in range(1, n + 1) if v not in val]
            r = rng.random()
            if r < .2 and free:
                v = rng.choice(free)
                dl += 1
                val[v], lev[v] = rng.choice([1, -1]), dl
                out.append("decide %d" % (v * val[v]))
            elif r < .65 and free:
                v = rng.choice(free)
                s = rng.choice([1, -1])
                ks = rng.sample(sorted(val), min(len(val), rng.choice([0, 1, 1, 2, 2, 3, 5])))
                if not ks and rng.random() < .5:
                    continue
                r = [s * v] + [-val[k] * k for k in ks]
                if rng.random() < .5:
                    rng.shuffle(r)
                val[v], lev[v] = s, max([lev[k] for k in ks], default=0)
                if rng.random() < .1:
                    out.append("prop %d %d" % (lev[v], s * v))
                else:
                    out.append("prop %d %d %s" % (lev[v], s * v, " ".join(map(str, r))))
            elif r < .7 and dl:
                to = rng.randrange(dl)
                out.append("back %d" % to)
                val = {v: x for v, x in val.items() if lev[v] <= to}
                lev = {v: x for v, x in lev.items() if v in val}
                dl = to
            elif val:
                ks = rng.sample(sorted(val), rng.randint(1, min(len(val), rng.choice([2, 4, 8, 20]))))
                out.append("min " + " ".join(str(-val[k] * k) for k in ks))
    i = "clauses-%s-%d" % (seed, i)
    return i, ["P " + i] + out + ["END"]
