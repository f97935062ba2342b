"""Random SMT-LIB script generator.

A script is a JSON object the TLA+ specification (SmtScript.tla) interprets directly:
  {"logic": "QF_LRA"|"QF_UFLRA",
   "cmds": [ {"c":"decl","n":name,"as":[sorts],"s":sort},
             {"c":"def","n":name,"p":[{"n":..,"s":..}],"s":sort,"t":term},
             {"c":"assert","t":term}, {"c":"check"}, {"c":"model"} ]}
Terms are records with field "k":
  true false | num(p,q) | var(n) | app(n,a) | not and or imp xor | eqb eqr | disb disr | iteb iter
  le lt ge gt | add sub neg mul div | let(b=[{n,t}],t)
The generator only chooses inputs; it decides nothing.
"""
import random
import re
from fractions import Fraction

BIN_CMP = {"le": "<=", "lt": "<", "ge": ">=", "gt": ">"}
NARY = {"and": "and", "or": "or", "imp": "=>", "xor": "xor", "eqb": "=", "eqr": "=",
        "disb": "distinct", "disr": "distinct", "iteb": "ite", "iter": "ite", "not": "not",
        "add": "+", "sub": "-", "neg": "-", "mul": "*", "div": "/", **BIN_CMP}


def num_text(p, q):
    if q == 1:
        return str(p) if p >= 0 else "(- %d)" % -p
    if p >= 0:
        return "(/ %d %d)" % (p, q)
    return "(- (/ %d %d))" % (-p, q)


def text(t):
    k = t["k"]
    if k in ("true", "false"):
        return k
    if k == "num":
        return t.get("txt") or num_text(t["p"], t["q"])
    if k == "var":
        return t["n"]
    if k == "app":
        return "(%s %s)" % (t["n"], " ".join(text(x) for x in t["a"]))
    if k == "let":
        return "(let (%s) %s)" % (" ".join("(%s %s)" % (b["n"], text(b["t"])) for b in t["b"]), text(t["t"]))
    return "(%s %s)" % (NARY[k], " ".join(text(x) for x in t["a"]))


RESERVED = set("BINARY DECIMAL HEXADECIMAL NUMERAL STRING _ ! as let exists forall match par assert check-sat check-sat-assuming declare-const "
               "declare-datatype declare-datatypes declare-fun declare-sort define-const define-fun define-fun-rec define-funs-rec define-sort echo exit "
               "get-assertions get-assignment get-info get-model get-option get-proof get-unsat-assumptions get-unsat-core get-value pop push "
               "reset reset-assertions set-info set-logic set-option".split())
SIMPLE = re.compile(r"^[a-zA-Z~!@$%^&*_+=<>.?/-][0-9a-zA-Z~!@$%^&*_+=<>.?/-]*$")
ODD = ["x y", "a;b", "(", ")", "()", "", "let", "assert", "check-sat", "_", "!", "as", "1", "1.5", "x1", "x0", "X", "x", "~z", "a!1", "%$", "sat", "unsat",
       "#b1", "p.q", "?v", "<=>", "x->y", "two\nlines", "tab\t", "\"quoted\"", ":key", "define-fun", "model", "error", "Bool", "f", "g", "->", "e^", "&", "[1]", "{", "'", "\u00e9"]


def is_simple(name):
    return bool(SIMPLE.match(name)) and name not in RESERVED


def styled(s):
    """the same script with other names and another layout -> text, names written -> names of s"""
    rng = random.Random("style/%s" % s["style"])
    names = set()

    def collect(t):
        if "n" in t:
            names.add(t["n"])
        for b in t.get("b", []):
            names.add(b["n"])
            collect(b["t"])
        for x in t.get("a", []):
            collect(x)
        if "t" in t:
            collect(t["t"])
    for c in s["cmds"]:
        if "n" in c:
            names.add(c["n"])
        for q in c.get("p", []):
            names.add(q["n"])
        if "t" in c:
            collect(c["t"])
    names = sorted(names)
    share = rng.choice([0, .3, 1])
    odd = rng.sample(ODD, len(ODD))
    to, used = {}, set()
    for n in names:
        m = odd.pop() if odd and rng.random() < share else n
        while m in used or m in names and m != n:
            m = odd.pop() if odd else n + "~" * (1 + len(used))
        to[n] = m
        used.add(m)

    def write(n):
        m = to[n]
        return m if is_simple(m) and rng.random() < .8 else "|%s|" % m

    def change(t):
        u = {k: v for k, v in t.items() if k not in ("a", "b", "t", "n")}
        if "n" in t:
            u["n"] = write(t["n"])
        if "a" in t:
            u["a"] = [change(x) for x in t["a"]]
        if "b" in t:
            u["b"] = [{"n": write(b["n"]), "t": change(b["t"])} for b in t["b"]]
        if "t" in t:
            u["t"] = change(t["t"])
        return u
    cmds = []
    for c in s["cmds"]:
        d = dict(c)
        if "n" in c:
            d["n"] = write(c["n"])
        if "p" in c:
            d["p"] = [dict(q, n=write(q["n"])) for q in c["p"]]
        if "t" in c:
            d["t"] = change(c["t"])
        cmds.append(d)
    out = []
    loose = rng.random() < .6
    for t in re.findall(r"\(|\)|\|[^|]*\||[^\s()|]+|\n", plain_text({"logic": s["logic"], "cmds": cmds})):
        if t == "\n":
            if rng.random() < .1:
                out.append(rng.choice(["(set-info :status %s)" % rng.choice(["sat", "unsat", "unknown"]), "(set-info :source |with ( ; and\n \" in it|)",
                                       '(set-info :notes "a ""string"" ) ; |")', "(set-option :produce-models true)", "(set-info :smt-lib-version 2.6)",
                                       "(set-info :authors (|a ( b| (c 1.5) () #xF0))", "(set-info :checked)", "(set-option :x (check-sat))", "(set-info :k :v)"]))
            out.append("\n")
            continue
        out.append(t)
        if loose and rng.random() < .08:
            out.append(rng.choice(["\n", "  ", "\t", "; a comment with ( ) | \" ; in it\n", ";\n", "\r\n", ";; (check-sat)\n"]))
        else:
            out.append(" " if t != "(" else "")
    if rng.random() < .15:
        out.append("\n(exit)\n(check-sat)\n(get-model")
    return "".join(out), {v: k for k, v in to.items()}


def script_text(s):
    return styled(s)[0] if s.get("style") else plain_text(s)


def plain_text(s):
    out = ["(set-logic %s)" % s["logic"]]
    for c in s["cmds"]:
        if c["c"] == "decl":
            if not c["as"] and c.get("const"):
                out.append("(declare-const %s %s)" % (c["n"], c["s"]))
            else:
                out.append("(declare-fun %s (%s) %s)" % (c["n"], " ".join(c["as"]), c["s"]))
        elif c["c"] == "def":
            out.append("(define-fun %s (%s) %s %s)" % (
                c["n"], " ".join("(%s %s)" % (p["n"], p["s"]) for p in c["p"]), c["s"], text(c["t"])))
        elif c["c"] == "assert":
            out.append("(assert %s)" % text(c["t"]))
        elif c["c"] == "check":
            out.append("(check-sat)")
        elif c["c"] == "model":
            out.append("(get-model)")
    return "\n".join(out) + "\n"


def N(k, *a):
    return {"k": k, "a": list(a)}


class Gen:
    """cfg keys: nb nr (numbers of bool/real constants), uf (list of (name, argsorts, sort)),
    depth, nassert, let, define, ite, consts (max |numerator|), dens (denominators), eqbias"""

    def __init__(self, rng, **cfg):
        self.r = rng
        self.c = dict(nb=3, nr=3, uf=[], depth=3, nassert=3, let=0.1, define=0, ite=0.15,
                      consts=4, dens=[1, 1, 1, 2, 3], eqbias=0.3, dis=0.1, checks=1)
        self.c.update(cfg)
        self.scope = []      # stack of {name: sort}
        self.defs = []       # (name, argsorts, sort)
        self.fresh = 0

    def names(self, sort):
        seen, out = set(), []
        for fr in reversed(self.scope):
            for n, s in fr.items():
                if n not in seen:
                    seen.add(n)
                    if s == sort:
                        out.append(n)
        return out

    def num(self, nz=False):
        r = self.r
        if self.c.get("decimals") and r.random() < self.c["decimals"]:
            k = r.choice([1, 2, 3, 6, 9, 10, 12, 18, 19, 20, 30])
            whole, part = r.choice(["0", "0", "1", "7", "2147483647", "4294967296"]), "".join(r.choice("0000123456789") for _ in range(k))
            f = Fraction(whole + "." + part)
            if f or not nz:
                return {"k": "num", "p": f.numerator, "q": f.denominator, "txt": whole + "." + part}
        while True:
            p = r.randint(-self.c["consts"], self.c["consts"])
            if p or not nz:
                break
        f = Fraction(p, r.choice(self.c["dens"]))
        t = {"k": "num", "p": f.numerator, "q": f.denominator}
        if f.denominator == 2 and f >= 0 and r.random() < 0.5:
            t["txt"] = "%d.5" % (f.numerator // 2)
        return t

    def real_atom(self):
        r = self.r
        vs = self.names("Real")
        if not vs or r.random() < 0.2:
            return self.num()
        return {"k": "var", "n": r.choice(vs)}

    def apps(self, sort):
        out = [("app", n, a) for n, a, s in self.c["uf"] if s == sort]
        out += [("def", n, a) for n, a, s in self.defs if s == sort and a]
        return out

    def real(self, d):
        r = self.r
        if d <= 0:
            return self.real_atom()
        x = r.random()
        ap = self.apps("Real")
        if ap and x < 0.35:
            _, n, a = r.choice(ap)
            return {"k": "app", "n": n, "a": [self.term(s, d - 1 if r.random() < .5 else 0) for s in a]}
        x = r.random()
        if x < self.c["ite"]:
            return N("iter", self.bool(d - 1), self.real(d - 1), self.real(d - 1))
        if x < self.c["ite"] + self.c["let"]:
            return self.let("Real", d)
        y = r.random()
        if y < 0.3:
            return N("add", *[self.real(d - 1) for _ in range(r.choice([2, 2, 2, 3]))])
        if y < 0.5:
            return N("sub", *[self.real(d - 1) for _ in range(self.few())])
        if y < 0.6:
            return N("neg", self.real(d - 1))
        if y < 0.8:
            a = [self.num() for _ in range(self.few() - 1)] + [self.real(d - 1)]
            if r.random() < .3:
                r.shuffle(a)
            return N("mul", *a)
        if y < 0.88:
            return N("div", self.real(d - 1), *[{"k": "num", "p": r.choice([2, 3, 4]), "q": 1} for _ in range(self.few() - 1)])
        return self.real_atom()

    def let(self, sort, d):
        r = self.r
        n = r.choice([1, 1, 1, 1, 2, 2, 4])
        bs, frame = [], {}
        pool = ["l%d" % i for i in range(3)] + [x for f in self.scope for x in f]
        for _ in range(n):
            nm = r.choice(pool)
            if nm in frame or nm in [u[0] for u in self.c["uf"]] or nm in [u[0] for u in self.defs]:
                continue
            s = r.choice(["Bool", "Real"])
            bs.append({"n": nm, "t": self.term(s, d - 1)})
            frame[nm] = s
        if not bs:
            return self.term(sort, d - 1)
        self.scope.append(frame)
        body = self.term(sort, d - 1)
        self.scope.pop()
        return {"k": "let", "b": bs, "t": body}

    def bool_atom(self):
        r = self.r
        vs = self.names("Bool")
        if r.random() < 0.04 or not vs:
            return {"k": r.choice(["true", "false"])}
        return {"k": "var", "n": r.choice(vs)}

    def bool(self, d):
        r = self.r
        if d <= 0:
            return self.bool_atom()
        x = r.random()
        ap = self.apps("Bool")
        if ap and x < 0.2:
            _, n, a = r.choice(ap)
            return {"k": "app", "n": n, "a": [self.term(s, d - 1 if r.random() < .5 else 0) for s in a]}
        x = r.random()
        if x < self.c["let"]:
            return self.let("Bool", d)
        y = r.random()
        has_real = self.names("Real")
        if y < 0.45 and has_real:
            if r.random() < self.c["eqbias"]:
                if r.random() < self.c["dis"]:
                    return N("disr", *[self.real(d - 1) for _ in range(r.choice([2, 3]))])
                t = N("eqr", self.real(d - 1), self.real(d - 1))
                return N("not", t) if r.random() < .4 else t
            return N(r.choice(list(BIN_CMP)), *[self.real(d - 1) for _ in range(self.few())])
        if y < 0.6:
            return N("or", *[self.bool(d - 1) for _ in range(self.arity(d))])
        if y < 0.72:
            return N("and", *[self.bool(d - 1) for _ in range(self.arity(d))])
        if y < 0.8:
            return N("not", self.bool(d - 1))
        if y < 0.84:
            return N("imp", *[self.bool(d - 1) for _ in range(self.few())])
        if y < 0.88:
            return N("xor", *[self.bool(d - 1) for _ in range(self.few())])
        if y < 0.92:
            return N("eqb", self.bool(d - 1), self.bool(d - 1))
        if y < 0.93:
            return N("disb", *[self.bool(d - 1) for _ in range(2)])
        if y < 0.96:
            return N("iteb", self.bool(d - 1), self.bool(d - 1), self.bool(d - 1))
        return self.bool_atom()

    def few(self):
        return self.r.choice([2] * 8 + [3, 4])

    def arity(self, d):
        r = self.r
        if self.c.get("wide") and r.random() < self.c["wide"]:
            return r.randint(4, 14)
        return r.choice([2, 2, 3])

    # Linear constraints over many variables, and clauses with many literals.
    def long_sum(self):
        r = self.r
        names = self.names("Real")
        ts = [{"k": "var", "n": n} for n in r.sample(names, r.randint(1, len(names)))]
        ts = [N("mul", {"k": "num", "p": r.choice([2, -1, 3, -2]), "q": 1}, t) if r.random() < .4 else t for t in ts]
        if r.random() < .4:
            ts.append(self.num())
        return N("add", *ts) if len(ts) > 1 else ts[0]

    def long_var(self, n):
        r = self.r
        if self.c["ite"] and r.random() < self.c["ite"]:
            c = self.bool_atom() if r.random() < .6 else N(r.choice(["le", "lt", "eqr"]), self.long_sum(), self.num())
            return N("iter", c, self.long_sum(), self.long_sum())
        ap = self.apps("Real")
        if ap and r.random() < .3:
            _, f, a = r.choice(ap)
            return {"k": "app", "n": f, "a": [self.bool_atom() if s == "Bool" else self.real_atom() if r.random() < .6 else self.long_sum() for s in a]}
        return {"k": "var", "n": n}

    def long_lit(self):
        r = self.r
        names = self.names("Real")
        if r.random() < .15 and self.c["nb"]:
            return self.bool_atom()
        k = min(len(names), r.choice([1, 2, 3, 4, 5, 6]))
        terms = []
        for n in r.sample(names, k):
            c = r.choice([1, 1, 1, -1, -1, 2, -2, 3])
            v = self.long_var(n)
            terms.append(v if c == 1 else N("neg", v) if c == -1 else N("mul", {"k": "num", "p": c, "q": 1}, v))
        if r.random() < .3:
            terms.append(self.num())
        t = N("add", *terms) if len(terms) > 1 else terms[0]
        o = self.num() if r.random() < .7 else {"k": "var", "n": r.choice(names)}
        x = r.random()
        if x < .3:
            return N("eqr", t, o)
        if x < .38:
            return N("not", N("eqr", t, o))
        return N(r.choice(list(BIN_CMP)), t, o)

    # Boolean constants only, with literals of both signs
    def mixed_clause(self):
        r = self.r
        lits = [{"k": "var", "n": r.choice(self.names("Bool"))} for _ in range(r.choice([2, 2, 3, 4, 6]))]
        for k in range(1, len(lits)):
            if k == 1 or r.random() < .5:
                lits[k] = N("not", lits[k])
        r.shuffle(lits)
        return N("or", *lits)

    # Conjunctions and disjunctions with many arguments, near one hidden assignment.
    def wide_bool(self):
        r = self.r
        if not hasattr(self, "hidden"):
            self.hidden = {n: r.random() < .5 for n in self.names("Bool")}
            self.point = {n: r.randint(-2, 2) for n in self.names("Real")}

        def lit(want):
            # true under the hidden assignment iff want
            if self.point and r.random() < .15:
                n = r.choice(list(self.point))
                d = r.randint(-1, 1)
                op = r.choice(["le", "ge", "lt", "gt", "eqr"])
                t = N(op, {"k": "var", "n": n}, {"k": "num", "p": self.point[n] + d, "q": 1})
                holds = {"le": 0 <= d, "ge": 0 >= d, "lt": 0 < d, "gt": 0 > d, "eqr": d == 0}[op]
            else:
                n = r.choice(list(self.hidden))
                t, holds = {"k": "var", "n": n}, self.hidden[n]
            return t if holds == want else N("not", t)

        def lits(want, noise=.04):
            return [lit(want ^ (r.random() < noise)) for _ in range(r.choice([3, 6, 9, 10, 12, 14]))]
        x = r.random()
        if x < .25:
            t = N("and", *lits(True, .01))
        elif x < .4:
            t = N("not", N("or", *lits(False, .01)))
        elif x < .6:
            a = lits(False, 0)
            a[r.randrange(len(a))] = lit(r.random() < .7)
            t = N("or", *a)
        elif x < .8:
            g = lit(r.random() < .5)
            t = N(r.choice(["or", "eqb", "xor", "imp"]), g, N(r.choice(["and", "or"]), *lits(r.random() < .5)))
        else:
            t = N("or", *[lit(r.random() < .4) for _ in range(r.choice([1, 2, 2, 3]))])
        return t

    def long_bool(self):
        r = self.r
        x = r.random()
        if x < .7:
            return self.long_lit()
        a = [self.long_lit() for _ in range(r.choice([2, 2, 3, 3, 9]))]
        if x < .9:
            return N("or", *a)
        if x < .96:
            return N("not", N("and", *a))
        b = self.bool_atom()
        return N("or", b, N("and", *a))

    def term(self, sort, d):
        return self.bool(d) if sort == "Bool" else self.real(d)

    def script(self):
        r, c = self.r, self.c
        cmds = []
        glob = {}
        for i in range(c["nb"]):
            glob["p%d" % i] = "Bool"
        for i in range(c["nr"]):
            glob["x%d" % i] = "Real"
        for n, s in glob.items():
            cmds.append({"c": "decl", "n": n, "as": [], "s": s, "const": r.random() < .3})
        for n, a, s in c["uf"]:
            cmds.append({"c": "decl", "n": n, "as": a, "s": s})
        self.scope = [glob]
        for i in range(c["define"]):
            ps = [{"n": r.choice(["a%d" % j, "a%d" % j, "x%d" % j, "p%d" % j]), "s": r.choice(["Bool", "Real"])}
                  for j in range(r.choice([0, 1, 1, 2, 2, 3, 5]))]
            s = r.choice(["Bool", "Real"])
            self.scope.append({p["n"]: p["s"] for p in ps})
            t = self.term(s, min(2, c["depth"]))
            self.scope.pop()
            nm = "d%d" % i
            cmds.append({"c": "def", "n": nm, "p": ps, "s": s, "t": t})
            if ps:
                self.defs.append((nm, [p["s"] for p in ps], s))
            else:
                glob[nm] = s
        for k in range(c["checks"]):
            for _ in range(c["nassert"]):
                cmds.append({"c": "assert", "t": self.small_bool() if c.get("small") else self.long_bool() if c.get("long") else self.mixed_clause() if c.get("mixed") else self.wide_bool() if c.get("hide") else self.bool(c["depth"])})
            cmds.append({"c": "check"})
            cmds.append({"c": "model"})
        return {"logic": "QF_UFLRA" if c["uf"] else "QF_LRA", "cmds": cmds}


    # Literals over few small applications: satisfiability depends on which arguments are equal.
    def small(self, sort, d):
        r = self.r
        ap = [(n, a) for n, a, s in self.c["uf"] if s == sort]
        if sort == "Bool" and (not ap or r.random() < .5):
            return self.bool_atom()
        if ap and d > 0 and r.random() < .6:
            n, a = r.choice(ap)
            return {"k": "app", "n": n, "a": [self.small(s, d - 1) for s in a]}
        if sort == "Bool":
            return self.bool_atom()
        x = r.random()
        if x < .12:
            return self.num()
        if x < .24 and d > 0:
            return N(r.choice(["add", "sub"]), self.small("Real", d - 1), r.choice([self.num(), self.small("Real", 0)]))
        if x < .28 and d > 0:
            return N("iter", self.bool_atom(), self.small("Real", 0), self.small("Real", 0))
        return {"k": "var", "n": r.choice(self.names("Real"))}

    def small_lit(self):
        r = self.r
        x = r.random()
        preds = [(n, a) for n, a, s in self.c["uf"] if s == "Bool"]
        if preds and x < .25:
            n, a = r.choice(preds)
            t = {"k": "app", "n": n, "a": [self.small(s, 1) for s in a]}
            return N("not", t) if r.random() < .5 else t
        if x < .55:
            return N("eqr", self.small("Real", r.choice([0, 0, 1, 2])), self.small("Real", r.choice([0, 1, 2])))
        if x < .8:
            return N("not", N("eqr", self.small("Real", 2), self.small("Real", r.choice([1, 2]))))
        if x < .85 and self.c["nb"]:
            return N(r.choice(["xor", "eqb"]), self.small("Bool", 1), self.small("Bool", 1))
        return N(r.choice(list(BIN_CMP)), self.small("Real", 1), self.small("Real", 1))

    def small_bool(self):
        x = self.r.random()
        if x < .75:
            return self.small_lit()
        return N("or", *[self.small_lit() for _ in range(self.r.choice([2, 2, 3]))])


PROFILES = {
    "lra_big": dict(nb=1, nr=3, depth=2, nassert=5, ite=0, let=0, eqbias=.4, decimals=.15, consts=10**24, dens=[1, 1, 2**31 - 1, 2**33, 10**12 + 39]),
    "lra_word": dict(nb=0, nr=3, depth=2, nassert=5, ite=0, let=0, eqbias=.4, decimals=.15, consts=2**31 + 5, dens=[1, 1, 1, 3, 2**31 - 1]),
    "uf_n": dict(nb=2, nr=2, depth=4, nassert=3, ite=.1, let=.1, eqbias=.5,
                 uf=[("f", ["Real", "Bool"], "Real"), ("q", ["Bool"], "Bool"), ("r", ["Real", "Real", "Bool"], "Bool")]),
    "steps": dict(nb=2, nr=2, depth=2, nassert=1, checks=4, ite=.05, let=.05),
    "steps_uf": dict(nb=1, nr=2, depth=2, nassert=1, checks=4, ite=.05, let=.05, eqbias=.5,
                 uf=[("f", ["Real"], "Real"), ("q", ["Bool"], "Bool")]),
    "shadow": dict(nb=2, nr=2, depth=4, nassert=2, let=.4, ite=.05, define=2),
    "phase": dict(nb=6, nr=0, nassert=4, checks=2, mixed=True),
    "bool": dict(nb=4, nr=0, depth=4, nassert=4),
    "lra_conj": dict(nb=0, nr=3, depth=2, nassert=6, ite=0, let=0, eqbias=.35),
    "lra_mixed": dict(nb=2, nr=3, depth=3, nassert=4, ite=0, let=0.02),
    "lra_ite": dict(nb=2, nr=2, depth=3, nassert=3, ite=.3),
    "lra_let": dict(nb=2, nr=2, depth=4, nassert=2, let=.3, ite=.05),
    "define": dict(nb=2, nr=2, depth=3, nassert=3, define=3),
    "ite_long": dict(nb=1, nr=3, nassert=5, long=True, ite=.2, consts=3, dens=[1, 1, 2]),
    "uf_long": dict(nb=2, nr=3, nassert=9, long=True, ite=0, consts=2, dens=[1, 1, 2],
                    uf=[("f", ["Real"], "Real"), ("g", ["Real", "Bool"], "Real")]),
    "long": dict(nb=3, nr=5, nassert=14, long=True, ite=0, consts=3, dens=[1, 1, 1, 2]),
    "wide": dict(nb=6, nr=2, depth=3, nassert=4, ite=.05, let=.05, wide=.4),
    "wider": dict(nb=12, nr=2, nassert=7, hide=True),
    "cong": dict(nb=0, nr=3, nassert=6, small=True, consts=1, dens=[1],
                 uf=[("f", ["Real"], "Real"), ("q", ["Real"], "Bool")]),
    "cong_n": dict(nb=2, nr=2, nassert=7, small=True, consts=1, dens=[1],
                 uf=[("g", ["Real", "Real"], "Real"), ("h", ["Bool"], "Real"), ("q", ["Real", "Bool"], "Bool")]),
    "cong_w": dict(nb=2, nr=2, nassert=6, small=True, consts=1, dens=[1],
                 uf=[("w", ["Real", "Real", "Real", "Real"], "Real"), ("v", ["Bool", "Real", "Bool", "Real", "Real"], "Bool"), ("u", ["Real", "Bool", "Real"], "Real")]),
    "cong_steps": dict(nb=1, nr=2, nassert=2, checks=4, small=True, consts=1, dens=[1],
                 uf=[("f", ["Real"], "Real"), ("q", ["Bool"], "Bool")]),
    "uf_r": dict(nb=0, nr=3, depth=3, nassert=4, ite=0, let=.05, eqbias=.5,
                 uf=[("f", ["Real"], "Real"), ("g", ["Real", "Real"], "Real")]),
    "uf_b": dict(nb=2, nr=2, depth=3, nassert=3, ite=.1,
                 uf=[("f", ["Real"], "Real"), ("h", ["Bool"], "Real"), ("q", ["Real"], "Bool")]),
}


def make(profile, seed, **over):
    if profile.startswith("big"):
        import gen_big
        return gen_big.make(profile, seed, **over)
    rng = random.Random("%s/%s" % (profile, seed))
    cfg = dict(PROFILES[profile])
    cfg.update(over)
    return Gen(rng, **cfg).script()
