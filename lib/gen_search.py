"""Inputs for harness/drv_trace.cpp: problems given clause by clause, or scripts."""
import random
from fractions import Fraction

import gen_smt

ORDERS = ["vsids", "first", "rfirst"]
PHASES = ["positive", "negative", "cache"]
RESTARTS = ["none", "none", "luby", "every:1", "every:3", "glucose:2:4:2:1.1", "glucose:1:3:1:0.9", "glucose"]


def header(rng, jid, logic, **kv):
    o = {"logic": logic, "order": rng.choice(ORDERS[:2] if logic == "prop" else ORDERS), "phase": rng.choice(PHASES),
         "restart": rng.choice(RESTARTS)}
    o["cmp"] = rng.choice([1, 1, 1, 2, 0])
    if logic != "prop":
        o["prat"] = rng.choice([0, 0, 1])
        o["ded"] = rng.choice([0, 0, 1])
    if kv.pop("wild", 0):
        # random decisions and backjumps that no heuristic would make
        o["order"] = rng.choice(["random", "random", "random", "vsids", "rfirst" if logic != "prop" else "first"])
        o["restart"] = rng.choice(["none", "none", "random:10", "random:30"])
        o["jumps"] = rng.choice([10, 30, 60])
        o["jrate"] = rng.choice([4, 10, 25, 40])
        o["flip"] = rng.choice([0, 50, 50, 100])
        o["seed"] = rng.randrange(1 << 30)
        o["cmp"] = rng.choice([1, 1, 1, 2])
        o["cut"] = rng.choice([300, 600, 1000])
    o.update(kv)
    return "P %s %s" % (jid, " ".join("%s=%s" % x for x in o.items()))


def cnf(rng, n, m, k):
    out = []
    for _ in range(m):
        kk = k if isinstance(k, int) else rng.choice(k)
        vs = rng.sample(range(1, n + 1), min(kk, n))
        out.append([v if rng.random() < .5 else -v for v in vs])
    return out


def php(h):
    """h+1 pigeons, h holes"""
    v = lambda p, q: p * h + q + 1
    c = [[v(p, q) for q in range(h)] for p in range(h + 1)]
    for q in range(h):
        for a in range(h + 1):
            for b in range(a):
                c.append([-v(a, q), -v(b, q)])
    return (h + 1) * h, c


def parity(rng, n):
    """inconsistent system of xors of three variables"""
    c = []
    for i in range(n):
        a, b, d = rng.sample(range(1, n + 1), 3)
        s = rng.randint(0, 1)
        for m in range(8):
            if bin(m).count("1") % 2 != s:
                c.append([x if not m >> j & 1 else -x for j, x in enumerate((a, b, d))])
    return n, c


def long_clauses(rng, size, kv):
    """an inconsistent core whose clauses carry literals of variables that are decided first"""
    n = rng.randint(8, int(14 + 4 * size))
    sign = 1 if kv.setdefault("phase", rng.choice(["positive", "negative"])) == "positive" else -1
    if "order" not in kv and not kv.get("wild"):
        kv["order"] = rng.choice(["first", "first", "first", "vsids"])
    m = rng.randint(2, 4)
    core = cnf(rng, m, int(m * rng.uniform(3.5, 6)), [2, 2, 3]) if rng.random() < .7 else php(2)[1]
    cl = []
    for c in core:
        pad = [-sign * v if rng.random() < .98 else sign * v for v in rng.sample(range(1, n + 1), min(n, rng.choice([1, 2, 3, 4, 6, 8])))]
        cl.append(pad + [x + n if x > 0 else x - n for x in c])
    for _ in range(rng.choice([0, 0, 2, 5])):
        a, b = rng.sample(range(1, n + 1), 2)
        cl.append([sign * a, -sign * b])
    for c in cl:
        rng.shuffle(c)
    return n + 6, cl


def prop(rng, jid, size=1.0, **kv):
    t = rng.random()
    if t < .15:
        n, cl = long_clauses(rng, size, kv)
    elif t < .62:
        n = rng.randint(3, int(4 + 10 * size))
        cl = cnf(rng, n, int(n * rng.uniform(2.5, 5.5)), rng.choice([3, 3, [2, 3], [1, 2, 3, 3, 4], [2, 3, 4]]))
    elif t < .72:
        n, cl = php(rng.choice([2, 3] if size <= 1 else [2, 3, 4]))
        rng.shuffle(cl)
    elif t < .85:
        n, cl = parity(rng, rng.randint(4, int(5 + 3 * size)))
        rng.shuffle(cl)
    else:
        n = rng.randint(2, 5)
        cl = cnf(rng, n, n * 3, [1, 2, 2, 3])
        cl = [c + ([rng.choice(c)] if rng.random() < .2 else []) + ([-rng.choice(c)] if rng.random() < .1 else []) for c in cl]
    lines = [header(rng, jid, "prop", **kv), "NB %d" % n]
    cut = rng.sample(range(1, len(cl)), 1) if len(cl) > 3 and rng.random() < .25 else []
    for i, c in enumerate(cl):
        if i in cut:
            lines.append("CHK")
        lines.append("C " + " ".join("b%d" % x if x > 0 else "-b%d" % -x for x in c))
    lines.append("CHK")
    if rng.random() < .1:
        lines.append("CHK")
    return lines + ["END"]


def num(rng, kind):
    if kind == "small":
        return Fraction(rng.choice([-3, -2, -1, -1, 1, 1, 2, 3]))
    if kind == "frac":
        return Fraction(rng.choice([-3, -2, -1, 1, 2, 3]), rng.choice([1, 2, 3, 5]))
    b = rng.choice([31, 32, 40, 63, 64, 90])
    return Fraction(rng.choice([-1, 1]) * rng.randint(2 ** (b - 1), 2 ** b), rng.choice([1, 1, 3, 2 ** 31 - 1, 2 ** 40 + 1]))


def lra(rng, jid, size=1.0, **kv):
    nr = rng.randint(1, 4 if size <= 1 else 5)
    nl = rng.randint(3, int(5 + 5 * size))
    nb = rng.randint(0, 3)
    kind = rng.choice(["small"] * 5 + ["frac", "frac", "big"])
    shape = rng.choice(["any", "any", "diff", "interval", "dense", "planted"])
    if rng.random() < .12:
        shape, nr, kind = "long", rng.randint(5, 9), rng.choice(["small", "small", "frac"])
    lines = [header(rng, jid, "lra", **kv), "NB %d" % nb, "NR %d" % nr]
    point = [Fraction(rng.randint(-3, 3), rng.choice([1, 1, 2])) for _ in range(nr)]
    preds = ["lt", "leq", "leq", "eq"]
    for _ in range(nl):
        p = rng.choice(preds)
        if shape == "diff" and nr >= 2:
            a, b = rng.sample(range(nr), 2)
            co = {a: Fraction(1), b: Fraction(-1)}
            if rng.random() < .2:
                co = {a: Fraction(rng.choice([1, -1]))}
        elif shape == "interval":
            co = {rng.randrange(nr): num(rng, kind)}
            if rng.random() < .3 and nr >= 2:
                a, b = rng.sample(range(nr), 2)
                co = {a: num(rng, kind), b: num(rng, kind)}
        else:
            k = nr if shape == "dense" else rng.randint(1, nr) if shape == "long" else rng.choice([1, 1, 2, 2, 3])
            co = {v: num(rng, kind) for v in rng.sample(range(nr), min(k, nr))}
        rhs = Fraction(rng.randint(-4, 4)) if kind != "big" else num(rng, kind) * rng.choice([0, 1, 1])
        if shape == "planted" or rng.random() < .25:
            rhs = sum(c * point[v] for v, c in co.items()) + rng.choice([0, 0, 0, 1, -1])
        items = list(co.items())
        rng.shuffle(items)
        lines.append("L %s %s %s" % (p, rhs, " ".join("%d %s" % x for x in items)))
    atoms = ["l%d" % (i + 1) for i in range(nl)] + ["b%d" % (i + 1) for i in range(nb)]
    m = rng.randint(2, int(5 + 7 * size))
    width = rng.choice([[1], [1, 1, 2], [1, 2, 2], [2], [2, 3], [1, 2, 3]])
    cut = rng.randrange(1, m) if m > 3 and rng.random() < .3 else -1
    for i in range(m):
        if i == cut:
            lines.append("CHK")
        lits = rng.sample(atoms, min(len(atoms), rng.choice(width)))
        lines.append("C " + " ".join(("-" if rng.random() < .4 else "") + x for x in lits))
    lines.append("CHK")
    return lines + ["END"]


def lrad(rng, jid, size=1.0, **kv):
    """chains of bounds deduced from one another, with values of auxiliary variables"""
    kv.setdefault("ded", 1)
    if rng.random() < .25:
        return lra(rng, jid, size, **kv)
    nr = rng.randint(3, 6)
    nb = rng.randint(1, 4)
    out = []
    for _ in range(rng.randint(5, int(6 + 4 * size))):
        k = rng.choice([1, 2, 2, 2, 3, 3, 4])
        vs = rng.sample(range(nr), min(k, nr))
        co = [rng.choice([-2, -1, -1, 1, 1, 2]) for _ in vs]
        out.append("L %s %d %s" % (rng.choice(["leq", "leq", "lt", "eq", "eq"]), rng.randint(-4, 4),
                                   " ".join("%d %d" % x for x in zip(vs, co))))
    atoms = ["l%d" % (i + 1) for i in range(len(out))]
    free = list(atoms)
    rng.shuffle(free)
    lines = [header(rng, jid, "lra", **kv), "NB %d" % nb, "NR %d" % nr] + out
    for a in free:
        b = "b%d" % rng.randint(1, nb)
        r = rng.random()
        s = "-" if rng.random() < .3 else ""
        if r < .2:
            lines.append("C " + s + a)
        elif r < .6:
            lines.append("C %s %s%s" % (rng.choice(["", "-"]) + b, s, a))
        else:
            o = rng.choice(atoms)
            lines.append("C %s%s %s%s" % (s, a, rng.choice(["", "-"]), o))
    lines.append("CHK")
    return lines + ["END"]


def uf(rng, jid, size=1.0, **kv):
    profile = rng.choice(["uf_r", "uf_r", "uf_b", "uf_n", "cong_w", "cong_w", "steps_uf", "lra_ite", "lra_let", "define"])
    s = gen_smt.make(profile, "%s/%s" % (jid, rng.random()))
    text = gen_smt.script_text(s).replace("(get-model)\n", "")
    text = " ".join(text.split("\n")[1:])
    return [header(rng, jid, "uf", **kv), "T " + text, "END"]


def ufc(rng, jid, size=1.0, **kv):
    """many equalities between applications: congruence conflicts"""
    nx = rng.randint(2, 4)
    sums = rng.random() < .5
    xs = ["x%d" % i for i in range(nx)]
    decl = " ".join("(declare-fun %s () Real)" % x for x in xs)
    decl += " (declare-fun f (Real) Real) (declare-fun g (Real Real) Real) (declare-fun q (Real) Bool) (declare-fun h (Bool Real) Real) (declare-fun p () Bool)"
    many = rng.random() < .4
    if many:
        decl += " (declare-fun w (Real Real Real Real) Real) (declare-fun v (Bool Real Real) Bool)"

    def term(d):
        r = rng.random()
        if d == 0 or r < .3:
            return rng.choice(xs) if rng.random() < .85 else str(rng.randint(0, 2))
        if many and r < .6:
            return "(w %s %s %s %s)" % tuple(term(0 if rng.random() < .9 else d - 1) for _ in range(4))
        if r < .55:
            return "(f %s)" % term(d - 1)
        if r < .7:
            return "(g %s %s)" % (term(d - 1), term(d - 1))
        if r < .78:
            return "(h p %s)" % term(d - 1)
        r = rng.random()
        if r < .5 or not sums:
            return "(+ %s %d)" % (term(d - 1), rng.choice([1, 0, 1, 2]))
        if r < .65:
            return "(* %d %s)" % (rng.choice([2, 3]), term(d - 1))
        if r < .75:
            return "(- %s)" % term(d - 1)
        ts = [term(d - 1) for _ in range(rng.choice([2, 2, 3]))]
        return "(%s %s)" % ("+" if len(ts) > 2 else rng.choice("+-"), " ".join(ts))

    def atom():
        r = rng.random()
        if many and r < .15:
            return "(v %s %s %s)" % (rng.choice(["p", "p", "(q %s)" % xs[0], "(not p)"]), term(0), term(1))
        if r < .15:
            return "(q %s)" % term(1)
        if r < .2:
            return "p"
        return "(%s %s %s)" % (rng.choice(["=", "=", "=", "<=", "<"]), term(2), term(2))

    def lit():
        a = atom()
        return "(not %s)" % a if rng.random() < .45 else a
    out = []
    for _ in range(rng.randint(3, int(4 + 5 * size))):
        k = rng.choice([1, 1, 2])
        ls = [lit() for _ in range(k)]
        out.append("(assert %s)" % (ls[0] if k == 1 else "(or %s)" % " ".join(ls)))
        if rng.random() < .08:
            out.append("(check-sat)")
    return [header(rng, jid, "uf", **kv), "T " + decl + " " + " ".join(out) + " (check-sat)", "END"]


def ufp(rng, jid, size=1.0, **kv):
    """applications to sums, over variables that take few different values"""
    nx = rng.choice([2, 3, 3, 4, 4, 5])
    xs = ["x%d" % i for i in range(nx)]
    decl = " ".join("(declare-fun %s () Real)" % x for x in xs)
    decl += " (declare-fun f (Real) Real) (declare-fun g (Real Real) Real) (declare-fun q (Real) Bool)"
    many = rng.random() < .25
    if many:
        decl += " (declare-fun w (Real Real Real) Real)"

    def arg():
        r = rng.random()
        if r < .2:
            return rng.choice(xs)
        if r < .75:
            ys = rng.sample(xs, min(nx, rng.choice([2, 2, 3, 4, 5])))
            return "(%s %s)" % (rng.choice("++-" if len(ys) == 2 else "+"), " ".join(ys))
        if r < .9:
            return "(* %d %s)" % (rng.choice([2, 3]), rng.choice(xs))
        return "(f %s)" % rng.choice(xs)

    def app():
        if many and rng.random() < .5:
            return "(w %s %s %s)" % (arg(), rng.choice(xs), rng.choice(xs))
        return "(f %s)" % arg() if rng.random() < .65 else "(g %s %s)" % (arg(), arg())
    apps = [app() for _ in range(rng.randint(2, 4))]
    out = []
    for x in xs:
        if rng.random() < .8:
            a, b = rng.sample(range(3), 2)
            out.append("(assert (or (= %s %d) (= %s %d)))" % (x, a, x, b))
    for _ in range(rng.randint(2, int(3 + 4 * size))):
        ls = []
        for _ in range(rng.choice([2, 2, 3])):
            r = rng.random()
            if r < .12:
                a = "(q %s)" % arg()
            elif r < .65:
                a = "(%s %s %d)" % (rng.choice(["=", "<=", ">="]), rng.choice(apps), rng.randint(0, 2))
            elif r < .85:
                a = "(%s %s %s)" % (rng.choice(["=", "<="]), rng.choice(apps), rng.choice(apps))
            else:
                a = "(= %s %s)" % (rng.choice(apps), rng.choice(xs))
            ls.append("(not %s)" % a if rng.random() < .4 else a)
        out.append("(assert (or %s))" % " ".join(ls))
    return [header(rng, jid, "uf", **kv), "T " + decl + " " + " ".join(out) + " (check-sat)", "END"]


def points(rng, jid, size=1.0, **kv):
    """intervals whose end points, middles and integers are excluded one by one"""
    from fractions import Fraction as F
    nr = rng.randint(1, 3)
    nb = rng.randint(1, 3)
    out = []
    forced = []

    def add(pred, vs, rhs, sign):
        d = 1
        for f in [rhs] + [c for _, c in vs]:
            d = d * f.denominator // __import__("math").gcd(d, f.denominator)
        d *= rng.choice([1, 1, 1, 2]) * (rng.choice([1, -1]) if pred == "eq" else 1)
        out.append("L %s %d %s" % (pred, rhs * d, " ".join("%d %d" % (v, c * d) for v, c in vs)))
        forced.append(sign + "l%d" % len(out))
    for x in range(nr):
        width = rng.choice([F(1, 3), F(1, 2), F(2, 3), F(1), F(2), F(5), F(40)])
        lo = F(rng.randint(-8, 8), rng.choice([1, 1, 2, 3, 4]))
        hi = lo + width
        # values of the other variables may move the interval
        other = [(y, F(rng.choice([-1, 1]))) for y in range(nr) if y != x and rng.random() < .3]
        kind = rng.choice(["both"] * 5 + ["lower", "upper", "none"])
        # an upper bound or its negation, a lower bound or its negation
        if kind in ("both", "upper"):
            if rng.random() < .5:
                add(rng.choice(["leq", "leq", "lt"]), [(x, F(1))] + other, hi, "")
            else:
                add(rng.choice(["leq", "lt"]), [(x, F(-1))] + [(y, -c) for y, c in other], -hi, "-")
        if kind in ("both", "lower"):
            if rng.random() < .5:
                add(rng.choice(["leq", "leq", "lt"]), [(x, F(-1))] + [(y, -c) for y, c in other], -lo, "")
            else:
                add(rng.choice(["leq", "lt"]), [(x, F(1))] + other, lo, "-")
        mid = [lo + (hi - lo) * F(k, m) for m in (1, 2, 4, 8) for k in range(m + 1)]
        ints = [F(k) for k in range(-(-lo.numerator // lo.denominator), hi.numerator // hi.denominator + 1)][:8] + [F(0), F(1), F(-1)]
        half = [hi]
        while len(half) < 5:
            half.append((half[-1] + lo) / 2)
        ex = {F(0)} if rng.random() < .8 else set()
        for group, prob in ((ints, .8), (half, .8), (mid, .25)):
            if rng.random() < .75:
                ex |= {v for v in group if rng.random() < prob}
        for v in sorted(ex):
            add("eq", [(x, F(1))] + other, v, "-")
    rng.shuffle(forced)
    lines = [header(rng, jid, "lra", **kv), "NB %d" % nb, "NR %d" % nr] + out
    for a in forced:
        lines.append("C %s%s" % ("" if rng.random() < .8 else rng.choice(["", "-"]) + "b%d " % rng.randint(1, nb), a))
    lines.append("CHK")
    return lines + ["END"]


def propl(rng, jid, size=1.0, **kv):
    """clauses learned here have several tens of literals"""
    n = rng.randint(int(16 * size), int(40 * size))
    sign = rng.choice([1, -1])
    kv.setdefault("phase", "positive" if sign == 1 else "negative")
    kv.setdefault("order", rng.choice(["first", "first", "vsids"]))
    if kv.get("wild"):
        # go back often and decide the same values again
        kv.setdefault("flip", rng.choice([0, 0, 2]))
        kv.setdefault("restart", rng.choice(["none", "none", "none", "random:10"]))
        kv.setdefault("jrate", rng.choice([2, 3, 5]))
    else:
        kv.setdefault("restart", rng.choice(["every:1", "every:3", "every:1", "luby", "none", "glucose"]))
    m = rng.randint(2, 4)
    core = cnf(rng, m, int(m * rng.uniform(3.5, 6)), [2, 2, 3]) if rng.random() < .7 else php(2)[1]
    cl = []
    for c in core:
        pad = [-sign * v if rng.random() < .995 else sign * v for v in rng.sample(range(1, n + 1), min(n, rng.choice([4, 8, 12, 20, 30])))]
        cl.append(pad + [x + n if x > 0 else x - n for x in c])
    # pads that follow from one another
    for _ in range(rng.choice([0, 0, 3, 8])):
        a, b = rng.sample(range(1, n + 1), 2)
        cl.append([-sign * a, sign * b])
    for c in cl:
        rng.shuffle(c)
    lines = [header(rng, jid, "prop", **kv), "NB %d" % (n + 6)]
    for c in cl:
        lines.append("C " + " ".join("b%d" % x if x > 0 else "-b%d" % -x for x in c))
    return lines + ["CHK", "END"]


KINDS = {"propl": propl, "points": points, "ufp": ufp, "lrad": lrad, "prop": prop, "lra": lra, "uf": uf, "ufc": ufc}


def make(kind, seed, i, size=1.0, **kv):
    jid = "%s-%s-%d" % (kind, seed, i)
    return jid, KINDS[kind](random.Random("%s/%s/%d" % (kind, seed, i)), jid, size, **kv)
