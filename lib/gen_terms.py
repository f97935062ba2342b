"""Programs for harness/drv_terms.cpp."""
import random

NUMS = ["0", "1", "2", "3", "7", "10", "2147483647", "2147483648", "4294967296", "9223372036854775808", "123456789012345678901234567890"]
FRACS = ["-", "-", "-", "0", "5", "25", "50", "000", "125", "3333333333", "05", "00001", "750", "0000000000000625", "123456789012345678901"]


class Gen:
    def __init__(self, rng):
        self.rng, self.out, self.sort, self.const, self.size, self.vars = rng, [], [], [], [], []
        self.funs = {}
        self.free = []

    def add(self, line, sort, const=False, size=1):
        self.out.append(line)
        self.sort.append(sort)
        self.const.append(const)
        self.size.append(size)
        k = len(self.sort) - 1
        w = line.split()
        # registers of the variables below this one
        self.free.append({k} if w[0] == "var" else set() if w[0] == "num" else
                         set().union(*[self.free[int(x)] for x in (w[2:] if w[0] in ("op", "app") else w[1:])]))
        return len(self.sort) - 1

    def pick(self, sort, cap=14):
        c = [i for i, s in enumerate(self.sort) if s == sort and self.size[i] <= cap]
        r = self.rng.random()
        if r < .35:
            c = c[-6:]
        return self.rng.choice(c)

    def op(self, name, args, sort):
        return self.add("op %s %s" % (name, " ".join(map(str, args))), sort,
                        sort == "Real" and name in "+-*/" and all(self.const[a] for a in args), 1 + sum(self.size[a] for a in args))

    def negate(self, a):
        return self.op("not", [a], "Bool")


def make(seed, i, length=40):
    rng = random.Random("terms/%s/%d" % (seed, i))
    g = Gen(rng)
    wide = i % 10 == 7
    for k in range(rng.randint(5, 9) if wide else rng.randint(1, 4)):
        g.vars.append(g.add("var x%d Real" % k, "Real"))
    for k in range(rng.randint(8, 20) if wide else rng.randint(1, 4)):
        g.vars.append(g.add("var b%d Bool" % k, "Bool"))
    for k in range(rng.choice([0, 0, 1, 2])):
        sig = [rng.choice(["Real", "Real", "Bool"]) for _ in range(rng.randint(1, 3))]
        ret = rng.choice(["Real", "Bool"])
        g.funs["f%d" % k] = (sig, ret)
        g.out.append("fun f%d %s %s" % (k, ret, " ".join(sig)))
    g.add("num 0 -", "Real", True)
    g.add("num 1 -", "Real", True)
    # true and false only arise from simplification
    b = g.pick("Bool")
    if rng.random() < .6:
        n = g.negate(b)
        g.op("or", [b, n], "Bool")
        g.op("and", [n, b], "Bool")
    done = []
    if wide:
        wide_terms(g, rng)
        length = 6
    for _ in range(length):
        r = rng.random()
        if r < .08:
            g.add("num %s %s" % (rng.choice(NUMS) if rng.random() < .5 else str(rng.randint(0, 99)), rng.choice(FRACS)), "Real", True)
            continue
        if r < .16 and done:
            # something built before, again, perhaps with other arguments in one place
            name, args, sort = rng.choice(done)
            args = list(args)
            if name in ("or", "and", "+", "distinct", "=", "xor") and rng.random() < .6:
                rng.shuffle(args)
            g.op(name, args, sort)
            continue
        if r < .22 and g.funs:
            f = rng.choice(list(g.funs))
            sig, ret = g.funs[f]
            a = [g.pick(s) for s in sig]
            g.add("app %s %s" % (f, " ".join(map(str, a))), ret, False, 1 + sum(g.size[x] for x in a))
            continue
        if r < .31:
            xs = rng.sample(g.vars, rng.randint(1, min(2, len(g.vars))))
            clean = [k for k in range(len(g.sort)) if g.size[k] <= 6]
            pairs = []
            for x in xs:
                # values do not mention the variables that are replaced
                c = [k for k in clean if g.sort[k] == g.sort[x] and not g.free[k] & set(xs)]
                if c:
                    pairs += [x, rng.choice(c)]
            if pairs:
                t = rng.randrange(len(g.sort))
                some = [k for k in range(len(g.sort)) if g.free[k] & set(xs) and 1 < g.size[k] <= 30]
                if some and rng.random() < .8:
                    t = rng.choice(some)
                g.add("subst %d %s" % (t, " ".join(map(str, pairs))), g.sort[t], g.const[t], g.size[t] + 2)
            continue
        if r < .62:
            name = rng.choice(["+", "+", "-", "-", "*", "*", "/", "ite"])
            if name == "+":
                args = [g.pick("Real") for _ in range(rng.choice([1, 2, 2, 2, 3, 4, 6]))]
            elif name == "-":
                args = [g.pick("Real") for _ in range(rng.choice([1, 1, 1, 2, 2, 2, 3, 4]))]
            elif name in "*/":
                c = [k for k in range(len(g.sort)) if g.const[k]]
                if name == "/":
                    c = [k for k in c if g.out_nonzero(k)]
                args = [rng.choice(c), g.pick("Real")] if c else None
                if args and (name == "/" or rng.random() < .5):
                    args.reverse()
                if args and rng.random() < .2:
                    args.append(rng.choice(c))
                    if name == "*":
                        rng.shuffle(args)
            else:
                args = [g.pick("Bool"), g.pick("Real"), g.pick("Real")]
            sort = "Real"
        else:
            name = rng.choice([">=", "<=", "<", ">", "=", "=", "or", "or", "and", "and", "=>", "not", "xor", "ite", "ite", "distinct", "ite"])
            sort = "Bool"
            if name in (">=", "<=", "<", ">"):
                args = [g.pick("Real") for _ in range(rng.choice([2] * 8 + [3, 3, 4]))]
            elif name == "=":
                s = rng.choice(["Real", "Real", "Bool"])
                args = [g.pick(s), g.pick(s)]
            elif name == "distinct":
                s = rng.choice(["Real", "Bool"])
                args = [g.pick(s) for _ in range(rng.choice([2, 2, 3]))]
            elif name in ("or", "and"):
                args = [g.pick("Bool", 8) for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 4, 7, 12, 18]))]
            elif name == "not":
                args = [g.pick("Bool")]
            elif name == "ite":
                c = g.pick("Bool")
                args = [c, g.pick("Bool"), g.pick("Bool")]
                q = rng.random()
                if q < .5:
                    k = rng.choice([1, 2])
                    args[k] = rng.choice([c, args[3 - k]])
                    if rng.random() < .5:
                        args[k] = g.negate(args[k])
            else:
                args = [g.pick("Bool") for _ in range(rng.choice([2] * 6 + [3, 4]))]
        if args is None:
            continue
        g.op(name, args, sort)
        if len(args) > 0:
            done.append((name, args, sort))
    g.out.append("again")
    return "terms-%s-%d" % (seed, i), ["P terms-%s-%d" % (seed, i)] + g.out + ["END"]


def wide_terms(g, rng):
    """operators with many different arguments"""
    for _ in range(5):
        bools = [v for v in g.vars if g.sort[v] == "Bool"]
        lits = [g.negate(v) if rng.random() < .3 else v for v in rng.sample(bools, rng.randint(6, len(bools)))]
        if rng.random() < .4:
            lits += rng.sample(lits, rng.randint(1, 2))
        if rng.random() < .2:
            lits.append(g.op(">=", rng.sample([v for v in g.vars if g.sort[v] == "Real"], 2), "Bool"))
        rng.shuffle(lits)
        g.op(rng.choice(["or", "and"]), lits, "Bool")
        if rng.random() < .6:
            rng.shuffle(lits)
            g.op(rng.choice(["or", "and"]), lits[:rng.randint(len(lits) - 1, len(lits))], "Bool")
        reals = [v for v in g.vars if g.sort[v] == "Real"]
        g.op("+", [rng.choice(reals) for _ in range(rng.randint(4, 12))], "Real")


def _nonzero(self, k):
    # the line of register k: only literal numbers are used as divisors
    lines = [x for x in self.out if not x.startswith(("fun ", "again"))]
    w = lines[k].split()
    return w[0] == "num" and (set(w[1]) | (set() if w[2] == "-" else set(w[2]))) != {"0"}


Gen.out_nonzero = _nonzero
