"""Running the real smt/sat binaries and turning what they print into data for the specification."""
import os
import re
import resource
import subprocess

import gen_smt

NUM = re.compile(r"^\d+(\.\d+)?$")


def tla_term(t):
    """term of gen_smt -> term of SmtTerms.tla (numbers become strings)"""
    if t["k"] == "num":
        return {"k": "num", "v": "%d" % t["p"] if t["q"] == 1 else "%d/%d" % (t["p"], t["q"])}
    o = {"k": t["k"]}
    for f in ("n",):
        if f in t:
            o[f] = t[f]
    if "a" in t:
        o["a"] = [tla_term(x) for x in t["a"]]
    if "b" in t:
        o["b"] = [{"n": b["n"], "t": tla_term(b["t"])} for b in t["b"]]
        o["t"] = tla_term(t["t"])
    return o


def tla_cmds(s):
    out = []
    for c in s["cmds"]:
        if c["c"] == "decl":
            out.append({"c": "decl", "n": c["n"], "as": c["as"], "s": c["s"]})
        elif c["c"] == "def":
            out.append({"c": "def", "n": c["n"], "p": c["p"], "t": tla_term(c["t"])})
        elif c["c"] == "assert":
            out.append({"c": "assert", "t": tla_term(c["t"])})
        elif "w" in c:
            out.append({"c": c["c"], "w": [dict(d, t=tla_term(d["t"])) for d in c["w"]]})
        elif "core" in c:
            out.append({"c": c["c"], "core": c["core"]})
        else:
            out.append({"c": c["c"]})
    return out


def tokens(text):
    return re.findall(r"\(|\)|\|[^|]*\||\"[^\"]*\"|[^\s()]+", text)


def sexprs(text):
    """list of top level expressions; None when the text is not well formed"""
    out, stack = [], []
    for t in tokens(text):
        if t == "(":
            stack.append([])
        elif t == ")":
            if not stack:
                return None
            x = stack.pop()
            (stack[-1] if stack else out).append(x)
        else:
            (stack[-1] if stack else out).append(t)
    return None if stack else out


class Bad(Exception):
    pass


def symbol(x, back):
    """the name that a printed symbol denotes"""
    if not isinstance(x, str):
        raise Bad(str(x))
    if len(x) > 1 and x[0] == x[-1] == "|":
        x = x[1:-1]
    elif not gen_smt.is_simple(x):
        raise Bad(x)
    return back.get(x, x)


def body(x):
    if isinstance(x, str):
        if x in ("true", "false"):
            return {"k": x}
        if NUM.match(x):
            from fractions import Fraction
            return {"k": "num", "v": str(Fraction(x))}
        if x[0] in "-+.0123456789":
            raise Bad(x)
        return {"k": "var", "n": x}
    if not x or not isinstance(x[0], str):
        raise Bad(str(x))
    ops = {"=": "eq", "ite": "ite", "and": "and", "or": "or", "not": "not", "+": "add", "*": "mul", "/": "div"}
    k = x[0]
    args = [body(a) for a in x[1:]]
    if not args:
        raise Bad(str(x))
    if k == "-":
        return {"k": "neg" if len(args) == 1 else "sub", "a": args}
    if k not in ops:
        raise Bad(k)
    if k == "/" and (len(args) != 2 or args[1].get("k") != "num" or args[1]["v"] == "0"):
        raise Bad("division")
    return {"k": ops[k], "a": args}


def model(x, back):
    """printed model -> list of definitions"""
    out = []
    items = x[1:] if x and x[0] == "model" else x
    for d in items:
        if not isinstance(d, list) or len(d) != 5 or d[0] != "define-fun" or d[3] not in ("Bool", "Real"):
            raise Bad(str(d))
        ps = []
        for p in d[2]:
            if not isinstance(p, list) or len(p) != 2 or p[1] not in ("Bool", "Real"):
                raise Bad(str(p))
            ps.append({"n": symbol(p[0], {}), "s": p[1]})
        if not isinstance(d[1], str) or isinstance(d[2], str):
            raise Bad(str(d))
        out.append({"n": symbol(d[1], back), "p": ps, "s": d[3], "t": body(d[4])})
    return out


def limits(cpu):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 1))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    return f


def execute(cmd, text, cpu=10):
    """-> (stdout, returncode or -signal, 'ok'|'timeout'|'crash')"""
    path = None
    try:
        p = subprocess.run(cmd, input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           timeout=cpu * 6 + 30, preexec_fn=limits(cpu))
    except subprocess.TimeoutExpired as e:
        return (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or ""), -9, "timeout"
    if p.returncode in (-24, -9):
        return p.stdout, p.returncode, "timeout"
    if p.returncode < 0 or p.returncode >= 128:
        return p.stdout, p.returncode, "crash"
    return p.stdout, p.returncode, "ok"


def smt_outputs(stdout, rc, end, back):
    """-> list of {"o": "answer"|"model", ...} and how the run ended"""
    out = []
    xs = sexprs(stdout)
    if xs is None:
        # unbalanced text: judge what can be read line by line
        xs = []
        for line in stdout.splitlines():
            y = sexprs(line)
            if y is not None:
                xs.extend(y)
            elif "define-fun" in line or line.strip() in ("(", ")"):
                if not (xs and xs[-1] == ["<bad>"]):
                    xs.append(["<bad>"])
    i = 0
    while i < len(xs):
        x = xs[i]
        if x in ("sat", "unsat", "unknown"):
            out.append({"o": "answer", "a": x})
        elif isinstance(x, list) and (not x or (isinstance(x[0], list) and x[0] and x[0][0] == "define-fun") or x[0] in ("model", "<bad>")):
            try:
                out.append({"o": "model", "ok": True, "m": model(x, back)})
            except Bad:
                out.append({"o": "model", "ok": False, "m": []})
        elif isinstance(x, list) and x and x[0] == "error":
            out.append({"o": "error"})
        elif isinstance(x, str) and x.startswith("Error"):
            out.append({"o": "error"})
            break
        else:
            out.append({"o": "junk"})
        i += 1
    if end == "ok" and rc != 0:
        end = "crash"
    return out, end
