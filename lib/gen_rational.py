"""Programs for harness/drv_rational.cpp. The generator follows the values so that it never divides by zero."""
import random
from fractions import Fraction
from math import ceil, floor, gcd, lcm

EDGE = sorted({s * (2 ** k + d) for k in (0, 1, 15, 16, 30, 31, 32, 33, 47, 62, 63, 64, 65, 96, 127) for d in (-1, 0, 1) for s in (1, -1)} | {0, 3, -3, 10, 12, 6})
SMALL = [e for e in EDGE if abs(e) <= 2 ** 33]


def value(rng):
    r = rng.random()
    if r < .25:
        return Fraction(rng.randint(-6, 6), rng.choice([1, 1, 2, 3, 4, 6]))
    if r < .6:
        return Fraction(rng.choice(EDGE), rng.choice([1, 1, 1, abs(rng.choice(EDGE)) or 1]))
    if r < .8:
        return Fraction(rng.choice(SMALL), abs(rng.choice(SMALL)) or 1)
    k = rng.choice([8, 20, 31, 32, 40, 64, 100])
    return Fraction(rng.choice([1, -1]) * rng.getrandbits(k), 1 + rng.getrandbits(rng.choice([1, 8, 31, 32, 40, 64])))


def whole(rng):
    r = rng.random()
    return rng.randint(-12, 12) if r < .3 else rng.choice(EDGE) if r < .7 else rng.choice([1, -1]) * rng.getrandbits(rng.choice([8, 31, 32, 40, 64]))


def load(rng, d, q, out):
    """one of the ways to create the value q"""
    if q.denominator == 1 and 0 <= q.numerator < 2 ** 32 and rng.random() < .25:
        out.append("uint %d %d" % (d, q.numerator))
    elif q.denominator == 1 and -2 ** 31 <= q.numerator < 2 ** 31 and rng.random() < .5:
        out.append("int %d %d" % (d, q.numerator))
    elif -2 ** 31 < q.numerator < 2 ** 31 and q.denominator < 2 ** 32 and rng.random() < .5:
        k = rng.choice([1, 1, 2, 3])
        if abs(q.numerator) * k < 2 ** 31 and q.denominator * k < 2 ** 32:
            out.append("make %d %d %d" % (d, q.numerator * k, q.denominator * k))
        else:
            out.append("parse %d %s" % (d, q))
    else:
        k = rng.choice([1, 1, 2, 6])
        if q.denominator == 1 and k == 1:
            out.append("parse %d %d" % (d, q.numerator))
        else:
            out.append("parse %d %d/%d" % (d, q.numerator * k, q.denominator * k))


def make(seed, i, length=60):
    rng = random.Random("rat/%s/%d" % (seed, i))
    reg = [Fraction(0)] * 8
    out = []
    for r in range(8):
        reg[r] = value(rng)
        load(rng, r, reg[r], out)
    for _ in range(length):
        r = rng.random()
        d, a, b = rng.randrange(8), rng.randrange(8), rng.randrange(8)
        if r < .12:
            reg[d] = value(rng)
            load(rng, d, reg[d], out)
        elif r < .45:
            op = rng.choice(["add", "sub", "mul", "div"])
            if op == "div" and reg[b] == 0:
                op = "sub"
            x, y = reg[a], reg[b]
            reg[d] = x + y if op == "add" else x - y if op == "sub" else x * y if op == "mul" else x / y
            out.append("%s %d %d %d" % (op, d, a, b))
        elif r < .65:
            op = rng.choice(["addto", "subto", "multo", "divto"])
            if op == "divto" and reg[a] == 0:
                op = "addto"
            x, y = reg[d], reg[a]
            reg[d] = x + y if op == "addto" else x - y if op == "subto" else x * y if op == "multo" else x / y
            out.append("%s %d %d" % (op, d, a))
        elif r < .8:
            op = rng.choice(["neg", "negate", "inv", "inverse", "floor", "ceil", "num", "den", "copy", "move", "swap"])
            if op in ("inv", "inverse") and reg[a] == 0:
                op = "neg"
            x = reg[a]
            if op == "swap":
                reg[a], reg[d] = reg[d], reg[a]
            else:
                reg[d] = {"neg": lambda: -x, "negate": lambda: -x, "inv": lambda: 1 / x, "inverse": lambda: 1 / x, "floor": lambda: Fraction(floor(x)),
                          "ceil": lambda: Fraction(ceil(x)), "num": lambda: Fraction(x.numerator), "den": lambda: Fraction(x.denominator),
                          "copy": lambda: x, "move": lambda: x}[op]()
            out.append("%s %d %d" % (op, d, a))
        elif r < .86:
            # operations on integers, rounding, absolute values
            op = rng.choice(["gcd", "lcm", "fdiv", "exact", "mod", "mod", "abs", "round", "common"])
            if op in ("abs", "round"):
                reg[d] = abs(reg[a]) if op == "abs" else Fraction(floor(reg[a] + Fraction(1, 2)))
                out.append("%s %d %d" % (op, d, a))
            elif op == "common":
                if sum(x.denominator.bit_length() for x in reg[:a + 1]) < 400:
                    reg[d] = Fraction(lcm(*[x.denominator for x in reg[:a + 1]]))
                    out.append("common %d %d" % (d, a))
            else:
                x, y = whole(rng), whole(rng)
                if y == 0 and op not in ("gcd", "lcm"):
                    y = 3
                if op == "exact":
                    x = rng.choice([x, y, -y, x // y * y, y * rng.choice([2, -3, 65537])])
                    x = x // y * y
                a, b = rng.sample(range(8), 2)
                for i, v in ((a, x), (b, y)):
                    if reg[i] != v:
                        reg[i] = Fraction(v)
                        load(rng, i, reg[i], out)
                reg[d] = Fraction({"gcd": lambda: gcd(x, y), "lcm": lambda: lcm(x, y), "fdiv": lambda: x // y, "exact": lambda: x // y, "mod": lambda: x % y}[op]())
                out.append("%s %d %d %d" % (op, d, a, b))
        elif r < .93:
            out.append("cmp %d %d" % (a, b))
        else:
            out.append("info %d" % a)
        if max(abs(reg[d].numerator).bit_length(), reg[d].denominator.bit_length()) > 400:
            reg[d] = value(rng)
            load(rng, d, reg[d], out)
    for r in range(8):
        out.append("info %d" % r)
    return "rat-%s-%d" % (seed, i), ["P rat-%s-%d" % (seed, i)] + out + ["END"]


def pairs(seed, part, parts, values=None):
    """every operation on every pair of edge values (in parts)"""
    rng = random.Random("edges/%s" % seed)
    vals = values or sorted({Fraction(n) for n in EDGE} | {Fraction(n, d) for n in (1, -1, 3, -5, 2 ** 31 - 1, -2 ** 31, 2 ** 31, 2 ** 32 - 1, 2 ** 64 + 1)
                                                 for d in (2, 3, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 64 - 1)})
    out = []
    todo = [(x, y) for x in vals for y in vals][part::parts]
    res = []
    for k, (x, y) in enumerate(todo):
        load(rng, 0, x, out)
        load(rng, 1, y, out)
        out.append("cmp 0 1")
        for op in ("add", "sub", "mul", "div"):
            if op != "div" or y != 0:
                out.append("%s 2 0 1" % op)
        if x.denominator == y.denominator == 1:
            for op in ("gcd", "lcm", "fdiv", "mod", "exact"):
                if op in ("gcd", "lcm") or y != 0 and (op != "exact" or x % y == 0):
                    out.append("%s 2 0 1" % op)
        op = rng.choice(["addto", "subto", "multo", "divto"])
        if op != "divto" or y != 0:
            out.append("copy 3 0")
            out.append("%s 3 1" % op)
            out.append("info 3")
        if k % 40 == 39 or k == len(todo) - 1:
            i = "edge-%d-%d" % (part, k)
            res.append((i, ["P " + i] + out + ["END"]))
            out = []
    return res


def singles(seed):
    rng = random.Random("one/%s" % seed)
    out = []
    for n in EDGE:
        for d in [1, 2, 3] + [abs(e) for e in EDGE if e > 3]:
            q = Fraction(n, d)
            load(rng, 0, q, out)
            for op in ["neg", "floor", "ceil", "round", "abs", "num", "den"] + (["inv"] if q else []):
                out.append("%s 1 0" % op)
            out.append("info 0")
    res = []
    cut = [0]
    for k, l in enumerate(out):
        if l == "info 0" and k - cut[-1] > 200:
            cut.append(k + 1)
    for a, b in zip(cut, cut[1:] + [len(out)]):
        i = "one-%d" % a
        res.append((i, ["P " + i] + out[a:b] + ["END"]))
    return res
