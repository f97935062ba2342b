"""CNF files for the sat binary."""
import random

import gen_search


def rnd(rng, n, m, ks):
    return [[v if rng.random() < .5 else -v for v in rng.sample(range(1, n + 1), min(n, rng.choice(ks)))] for _ in range(m)]


def php(p, h):
    v = lambda a, b: a * h + b + 1
    c = [[v(a, b) for b in range(h)] for a in range(p)]
    for b in range(h):
        for x in range(p):
            for y in range(x):
                c.append([-v(x, b), -v(y, b)])
    return p * h, c


def xors(rng, n, m, width=3, consistent=None):
    """m xor equations over n variables; right-hand sides from a hidden assignment unless consistent is False"""
    hidden = [rng.randint(0, 1) for _ in range(n + 1)]
    c = []
    for i in range(m):
        vs = rng.sample(range(1, n + 1), width)
        s = sum(hidden[v] for v in vs) % 2
        if consistent is False and i == m - 1:
            s ^= 1
        for mask in range(1 << width):
            if bin(mask).count("1") % 2 != s:
                c.append([-x if mask >> j & 1 else x for j, x in enumerate(vs)])
    return n, c


def coloring(rng, nodes, edges, k):
    v = lambda a, c: a * k + c + 1
    out = [[v(a, c) for c in range(k)] for a in range(nodes)]
    for _ in range(edges):
        a, b = rng.sample(range(nodes), 2)
        for c in range(k):
            out.append([-v(a, c), -v(b, c)])
    return nodes * k, out


def planted(rng, n, m):
    hid = [rng.random() < .5 for _ in range(n + 1)]
    out = []
    while len(out) < m:
        vs = rng.sample(range(1, n + 1), 3)
        c = [v if rng.random() < .5 else -v for v in vs]
        if any(hid[abs(x)] == (x > 0) for x in c):
            out.append(c)
    return n, out


def chain(rng, n):
    """implication chains which need propagation at level 0"""
    c = [[1]] + [[-i, i + 1] for i in range(1, n)]
    if rng.random() < .5:
        c.append([-n, -rng.randint(1, n)])
    vs = list(range(1, n + 1))
    rng.shuffle(vs)
    m = dict(zip(range(1, n + 1), vs))
    return n, [[m[x] if x > 0 else -m[-x] for x in cl] for cl in c]


def core(rng, size):
    kind = rng.choice(["tiny", "tiny", "tiny", "small", "small", "three", "three", "three", "php", "xor", "xor", "color", "planted", "chain", "mixed", "long", "long"])
    if kind == "long":
        return gen_search.long_clauses(rng, size, {})
    if kind == "tiny":
        n = rng.randint(1, 5)
        return n, rnd(rng, n, rng.randint(0, 4 * n), [1, 2, 2, 3])
    if kind == "small":
        n = rng.randint(4, 14)
        return n, rnd(rng, n, int(n * rng.uniform(1, 5)), rng.choice([[2, 3], [1, 2, 3, 3, 4], [3], [2]]))
    if kind == "three":
        n = rng.randint(20, int(70 * size))
        return n, rnd(rng, n, int(n * rng.uniform(3.9, 4.6)), [3])
    if kind == "php":
        h = rng.randint(2, 5 if size <= 1 else 6)
        return php(h + rng.choice([0, 1, 1]), h)
    if kind == "xor":
        n = rng.randint(5, int(22 * size))
        return xors(rng, n, int(n * rng.uniform(.7, 1.1)), consistent=rng.random() < .4)
    if kind == "color":
        k = rng.choice([2, 3, 3])
        n = rng.randint(4, int(18 * size))
        return coloring(rng, n, int(n * rng.uniform(1.2, 2.4 if k == 3 else 1.3)), k)
    if kind == "planted":
        n = rng.randint(30, int(150 * size))
        return planted(rng, n, int(n * rng.uniform(3.5, 5)))
    if kind == "chain":
        return chain(rng, rng.randint(3, int(60 * size)))
    n = rng.randint(15, int(45 * size))
    return n, rnd(rng, n, int(n * rng.uniform(2.2, 3.4)), [2, 3, 3, 4])


def make(seed, i, size=1.0):
    rng = random.Random("cnf/%s/%d" % (seed, i))
    n, cl = core(rng, size)
    cl = [list(c) for c in cl]
    if rng.random() < .5:
        # the answer depends neither on names and polarities nor on order and repetition
        perm = list(range(1, n + 1))
        rng.shuffle(perm)
        sg = [rng.choice([1, -1]) for _ in range(n)]
        cl = [[(perm[abs(x) - 1] * sg[abs(x) - 1]) * (1 if x > 0 else -1) for x in c] for c in cl]
        for c in cl:
            rng.shuffle(c)
        rng.shuffle(cl)
    if cl and rng.random() < .3:
        for _ in range(rng.randint(1, 3)):
            c = rng.choice(cl)
            k = rng.random()
            if k < .35 and c:
                c.insert(rng.randint(0, len(c)), rng.choice(c))
            elif k < .6:
                cl.insert(rng.randint(0, len(cl)), list(c))
            elif k < .85 and c:
                d = list(c)
                d.insert(rng.randint(0, len(d)), -rng.choice(c))
                cl.insert(rng.randint(0, len(cl)), d)
            elif n <= 14:
                cl.insert(rng.randint(0, len(cl)), [rng.choice([1, -1]) * rng.randint(1, n)])
    if i % 25 == 0:       # next to nothing: the ends of the format
        n = rng.randint(1, 3)
        cl = [[rng.choice([1, -1]) * rng.randint(1, n) for _ in range(rng.choice([0, 1, 1, 2]))] for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
    elif rng.random() < .03:
        cl.insert(rng.choice([0, len(cl), rng.randint(0, len(cl))]), [])
    if rng.random() < .15:
        n += rng.randint(1, 3)
    lines = []
    if rng.random() < .3:
        lines.append({"k": "c"})
    lines.append({"k": "p", "n": n, "m": len(cl)})
    style = rng.choice(["one", "one", "split", "join"])
    toks = [x for c in cl for x in c + [0]]
    if style == "one":
        for c in cl:
            lines.append({"k": "l", "t": c + [0]})
            if rng.random() < .02:
                lines.append({"k": "c"})
    else:
        while toks:
            k = rng.randint(1, 4 if style == "split" else 12)
            lines.append({"k": "l", "t": toks[:k]})
            toks = toks[k:]
    return lines


def text(lines, seed):
    rng = random.Random("txt/%s" % seed)
    out = []
    for l in lines:
        if l["k"] == "c":
            out.append("c a comment 1 -2 0")
        elif l["k"] == "p":
            out.append("p cnf %d %d" % (l["n"], l["m"]))
        else:
            out.append(" " * rng.choice([0, 0, 0, 1, 3]) + rng.choice([" ", " ", "  ", "\t"]).join(map(str, l["t"])) + rng.choice(["", "", " "]))
    return "\n".join(out) + "\n"
