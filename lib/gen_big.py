"""Scripts of a hundred and more constants and assertions.

Assertions are drawn so that one hidden assignment satisfies them; later a small contradiction may be added. The check commands
carry the hidden assignment ("w") or the positions of the contradictory assertions ("core") as hints: the specification
evaluates them itself and relies on no claim made here.
"""
import random
from fractions import Fraction

import gen_smt

N = gen_smt.N
FUNCTIONS = [("f", ["Real"], "Real"), ("g", ["Real", "Real"], "Real"), ("q", ["Real"], "Bool"), ("h", ["Bool", "Real"], "Real")]


def num(v):
    v = Fraction(v)
    return {"k": "num", "p": v.numerator, "q": v.denominator}


def var(n):
    return {"k": "var", "n": n}


class Big(gen_smt.Gen):
    def __init__(self, rng, size, uf):
        super().__init__(rng, uf=FUNCTIONS if uf else [], consts=3, dens=[1, 1, 2], ite=.1, let=.08, eqbias=.4, define=0, depth=2)
        r = rng
        self.bools = ["p%d" % i for i in range(r.randint(10, int(100 * size)))]
        self.reals = ["x%d" % i for i in range(r.randint(10, int(50 * size)))]
        palette = [Fraction(r.randint(-6, 6), r.choice([1, 1, 1, 2, 3])) for _ in range(max(3, len(self.reals) // 3))]
        self.palette = palette
        self.val = {n: r.random() < .5 for n in self.bools}
        self.val.update({n: r.choice(palette) for n in self.reals})
        self.table = {}
        self.body = {}

    def ev(self, t, loc):
        k = t["k"]
        if k in ("true", "false"):
            return k == "true"
        if k == "num":
            return Fraction(t["p"], t["q"])
        if k == "var":
            return loc[t["n"]] if t["n"] in loc else self.val[t["n"]] if t["n"] in self.val else self.ev(self.body[t["n"]][1], {})
        if k == "let":
            vs = [self.ev(b["t"], loc) for b in t["b"]]
            return self.ev(t["t"], {**loc, **{b["n"]: v for b, v in zip(t["b"], vs)}})
        a = [self.ev(x, loc) for x in t["a"]]
        if k == "app":
            if t["n"] in self.body:
                ps, body = self.body[t["n"]]
                return self.ev(body, dict(zip(ps, a)))
            key = (t["n"], tuple(a))
            if key not in self.table:
                real = [s for n, _, s in FUNCTIONS if n == t["n"]][0] == "Real"
                self.table[key] = self.r.choice(self.palette) if real else self.r.random() < .5
            return self.table[key]
        pairs = list(zip(a, a[1:]))
        return {"not": lambda: not a[0], "and": lambda: all(a), "or": lambda: any(a), "imp": lambda: a[-1] or not all(a[:-1]),
                "xor": lambda: sum(a) % 2 == 1, "eqb": lambda: all(x == y for x, y in pairs), "eqr": lambda: all(x == y for x, y in pairs),
                "disb": lambda: len(set(a)) == len(a), "disr": lambda: len(set(a)) == len(a),
                "iteb": lambda: a[1] if a[0] else a[2], "iter": lambda: a[1] if a[0] else a[2],
                "le": lambda: all(x <= y for x, y in pairs), "lt": lambda: all(x < y for x, y in pairs),
                "ge": lambda: all(x >= y for x, y in pairs), "gt": lambda: all(x > y for x, y in pairs),
                "add": lambda: sum(a, Fraction(0)), "sub": lambda: a[0] - sum(a[1:], Fraction(0)), "neg": lambda: -a[0],
                "mul": lambda: self.product(a), "div": lambda: a[0] / self.product(a[1:])}[k]()

    @staticmethod
    def product(a):
        p = Fraction(1)
        for x in a:
            p *= x
        return p

    def local(self):
        r = self.r
        s = {}
        at = r.randrange(len(self.reals))
        for _ in range(r.choice([1, 2, 2, 3])):
            s[self.reals[(at + r.randint(0, 4)) % len(self.reals)] if r.random() < .8 else r.choice(self.reals)] = "Real"
        for _ in range(r.choice([1, 2, 2, 4])):
            s[r.choice(self.bools)] = "Bool"
        for n, (ps, sort) in self.constants.items():
            if r.random() < .2:
                s[n] = sort
        self.scope = [s]

    def literal(self):
        """a literal that the hidden assignment satisfies"""
        self.local()
        t = self.bool(self.r.choice([0, 1, 1, 1, 2]))
        return t if self.ev(t, {}) else N("not", t)

    def other(self):
        self.local()
        return self.bool(self.r.choice([0, 1, 1]))

    def satisfied(self):
        r = self.r
        x = r.random()
        if x < .2:
            self.local()
            t = self.bool(r.choice([2, 3]))
            return t if self.ev(t, {}) else N("not", t)
        if x < .75:
            a = [self.other() for _ in range(r.choice([1, 1, 2, 2, 3, 8]))] + [self.literal()]
            r.shuffle(a)
            return N("or", *a)
        if x < .85:
            self.local()
            n = r.choice(self.bools)
            t = self.bool(2)
            same = self.ev(t, {}) == self.val[n]
            return N("eqb", var(n), t if same else N("not", t))
        if x < .93:
            self.local()
            t = self.real(2)
            n = r.choice(self.reals)
            d = self.val[n] - self.ev(t, {})
            if r.random() < .5:
                return N("eqr", N("sub", var(n), t), num(d))
            return N(r.choice(["le", "ge"]), var(n), N("add", t, num(d)))
        if x < .96:
            k = r.choice([20, 40])
            return N("not", N("and", *[self.other() for _ in range(k)], N("not", self.literal())))
        return self.nested(r.choice([10, 30]))

    def nested(self, depth):
        """let in let"""
        r = self.r
        self.local()
        base = self.scope
        t, frames = None, []
        for i in range(depth):
            s = r.choice(["Bool", "Real"])
            nm = "l%d" % r.randint(0, 5)
            frames.append((nm, self.term(s, 1)))
            self.scope = self.scope + [{nm: s}]
        t = self.bool(2)
        for nm, b in reversed(frames):
            t = {"k": "let", "b": [{"n": nm, "t": b}], "t": t}
        self.scope = base
        return t if self.ev(t, {}) else N("not", t)

    def contradiction(self):
        r = self.r
        kind = r.choice(["cycle", "farkas", "farkas", "chain", "holes", "cases"] + (["cong"] * 4 if self.c["uf"] else []))
        if kind == "cycle":
            xs = r.sample(self.reals, r.randint(2, min(8, len(self.reals))))
            ops = [r.choice(["le", "le", "lt"]) for _ in xs]
            ops[r.randrange(len(ops))] = "lt"
            return [N(o, var(a), var(b)) for o, a, b in zip(ops, xs, xs[1:] + xs[:1])]
        if kind == "farkas":
            xs = r.sample(self.reals, r.randint(2, 4))
            rows, total, bound = [], {x: Fraction(0) for x in xs}, Fraction(0)
            for _ in range(r.randint(2, 4)):
                c = {x: Fraction(r.randint(-2, 3), r.choice([1, 1, 2])) for x in xs}
                b = Fraction(r.randint(-4, 4), r.choice([1, 2, 3]))
                rows.append((c, b))
                k = r.randint(1, 3)
                for x in xs:
                    total[x] += k * c[x]
                bound += k * b
            strict = r.random() < .5
            # sum k_i (c_i x) <= bound contradicts sum > bound, and >= bound + 1/5
            out = [N("le", self.row(c), num(b)) for c, b in rows]
            out.append(N("gt", self.row(total), num(bound)) if strict else N("ge", self.row(total), num(bound + Fraction(1, 5))))
            return out
        if kind == "chain":
            ps = r.sample(self.bools, r.randint(2, min(9, len(self.bools))))
            lits = [var(p) if r.random() < .5 else N("not", var(p)) for p in ps]
            return [lits[0]] + [N("imp", a, b) for a, b in zip(lits, lits[1:])] + [N("not", lits[-1])]
        if kind == "holes":
            ps = r.sample(self.bools, 6)
            v = [[var(ps[2 * a + b]) for b in range(2)] for a in range(3)]
            return [N("or", *v[a]) for a in range(3)] + [N("not", N("and", v[a][b], v[c][b])) for b in range(2) for a in range(3) for c in range(a)]
        if kind == "cases":
            x, y = r.sample(self.reals, 2)
            p = var(r.choice(self.bools))
            d = num(r.randint(1, 3))
            return [N("imp", p, N("lt", var(x), N("sub", var(y), d))), N("or", p, N("lt", N("add", var(x), d), var(y))), N("ge", var(x), N("sub", var(y), num(1)))]
        xs = r.sample(self.reals, r.randint(2, min(5, len(self.reals))))
        eqs = [N("eqr", a, b) if r.random() < .7 else N("and", N("le", a, b), N("ge", a, b)) for a, b in zip(map(var, xs), map(var, xs[1:]))]
        a, b = var(xs[0]), var(xs[-1])
        y = var(r.choice(self.reals))
        ap = lambda n, *z: {"k": "app", "n": n, "a": list(z)}
        how = r.choice(["f", "ff", "g", "q", "h", "fg"])
        if how == "f":
            last = N("not", N("eqr", ap("f", a), ap("f", b)))
        elif how == "ff":
            last = N("lt", ap("f", ap("f", a)), ap("f", ap("f", b)))
        elif how == "g":
            last = N("not", N("eqr", ap("g", a, y), ap("g", b, y)))
        elif how == "q":
            last = N("xor", ap("q", a), ap("q", b))
        elif how == "h":
            p = var(r.choice(self.bools))
            last = N("gt", ap("h", p, a), ap("h", p, b))
        else:
            last = N("not", N("eqr", ap("g", ap("f", a), b), ap("g", ap("f", b), a)))
        return eqs + [last]

    def row(self, c):
        ts = [var(x) if v == 1 else N("neg", var(x)) if v == -1 else N("mul", num(v), var(x)) for x, v in c.items() if v]
        return N("add", *ts) if len(ts) > 1 else ts[0] if ts else num(0)

    def witness(self):
        out = [{"n": n, "p": [], "s": "Bool", "t": {"k": "true" if self.val[n] else "false"}} for n in self.bools]
        out += [{"n": n, "p": [], "s": "Real", "t": self.value(self.val[n])} for n in self.reals]
        for f, a, s in self.c["uf"]:
            ps = [{"n": "a%d" % i, "s": q} for i, q in enumerate(a)]
            t = num(0) if s == "Real" else {"k": "false"}
            for (n, args), v in self.table.items():
                if n == f:
                    eqs = [N("eq", var(p["n"]), self.value(z)) for p, z in zip(ps, args)]
                    t = N("ite", N("and", *eqs) if len(eqs) > 1 else eqs[0], self.value(v), t)
            out.append({"n": f, "p": ps, "s": s, "t": t})
        return out

    @staticmethod
    def value(v):
        return {"k": "true" if v else "false"} if isinstance(v, bool) else num(v)

    def script(self, checks):
        r = self.r
        cmds = [{"c": "decl", "n": n, "as": [], "s": "Bool" if n in self.bools else "Real", "const": r.random() < .3} for n in self.bools + self.reals]
        r.shuffle(cmds)
        cmds += [{"c": "decl", "n": n, "as": a, "s": s} for n, a, s in self.c["uf"]]
        self.constants = {}
        for i in range(r.choice([0, 0, 3, 10])):
            ps = ["a%d" % j for j in range(r.choice([0, 1, 2]))]
            self.local()
            self.scope.append({p: "Real" for p in ps})
            s = r.choice(["Bool", "Real"])
            t = self.term(s, 2)
            n = "d%d" % i
            cmds.append({"c": "def", "n": n, "p": [{"n": p, "s": "Real"} for p in ps], "s": s, "t": t})
            self.body[n] = (ps, t)
            if ps:
                self.defs.append((n, ["Real"] * len(ps), s))
            else:
                self.constants[n] = (ps, s)
        total = r.randint(len(self.bools), 2 * (len(self.bools) + len(self.reals)))
        pos, core = 0, []
        for k in range(checks):
            batch = [self.satisfied() for _ in range(max(1, total // checks))]
            if not core and k == checks - 1 and r.random() < .5:
                bad = self.contradiction()
                at = sorted(r.sample(range(len(batch) + len(bad)), len(bad)))
                for i, t in zip(at, bad):
                    batch.insert(i, t)
                core = [pos + i + 1 for i in at]
            for t in batch:
                cmds.append({"c": "assert", "t": t})
            pos += len(batch)
            cmds.append({"c": "check", "core": core} if core else {"c": "check", "w": None})
            cmds.append({"c": "model"})
        w = self.witness()
        for c in cmds:
            if "w" in c:
                c["w"] = w
        return {"logic": "QF_UFLRA" if self.c["uf"] else "QF_LRA", "cmds": cmds}


def make(profile, seed, size=1.0):
    rng = random.Random("%s/%s" % (profile, seed))
    return Big(rng, size, "uf" in profile).script(rng.choice([2, 3, 6]) if "steps" in profile else 1)
