------------------------------ MODULE SmtTerms ------------------------------
(* The meaning of SMT-LIB terms over Booleans, reals and functions.           *)
(*                                                                            *)
(* Terms are records with a field k (see lib/gen_smt.py). Values are strings: *)
(* "true", "false" or a rational. A definition is [p |-> names, t |-> term];   *)
(* G = [c |-> [name -> value], d |-> [name -> definition]] gives a meaning to   *)
(* all global names.                                                          *)
EXTENDS LinArith, TLC

Bool(b) == IF b THEN "true" ELSE "false"
IsBool(v) == IsTruth(v)
Names(ps) == {ps[i].n : i \in 1..Len(ps)}
Bind(loc, ps, vals) == [n \in Names(ps) |-> vals[CHOOSE i \in 1..Len(ps) : ps[i].n = n]] @@ loc

RECURSIVE FoldVals(_, _, _)
FoldVals(Op(_, _), s, acc) == IF s = <<>> THEN acc ELSE FoldVals(Op, Tail(s), TLCEval(Op(acc, Head(s))))

AllDistinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
AllEqual(s) == \A i \in 1..(Len(s) - 1) : s[i] = s[i + 1]

(* The operation named k applied to values. and/or/add/... take any number of *)
(* arguments; => is right associative, -, xor and / are left associative,     *)
(* comparisons and = are chained, distinct is pairwise.                       *)
Chain(s, R(_, _)) == \A i \in 1..(Len(s) - 1) : R(s[i], s[i + 1])
Apply(k, s) ==
    CASE k = "not"  -> Bool(s[1] = "false")
      [] k = "and"  -> Bool(\A i \in 1..Len(s) : s[i] = "true")
      [] k = "or"   -> Bool(\E i \in 1..Len(s) : s[i] = "true")
      [] k = "imp"  -> Bool(s[Len(s)] = "true" \/ \E i \in 1..(Len(s) - 1) : s[i] = "false")
      [] k = "xor"  -> FoldVals(LAMBDA a, b : Bool(a # b), Tail(s), Head(s))
      [] k \in {"eqb", "eqr"}   -> Bool(AllEqual(s))
      [] k \in {"disb", "disr"} -> Bool(AllDistinct(s))
      [] k \in {"iteb", "iter"} -> IF s[1] = "true" THEN s[2] ELSE s[3]
      [] k = "le"   -> Bool(Chain(s, RLe))
      [] k = "lt"   -> Bool(Chain(s, RLt))
      [] k = "ge"   -> Bool(Chain(s, LAMBDA a, b : RLe(b, a)))
      [] k = "gt"   -> Bool(Chain(s, LAMBDA a, b : RLt(b, a)))
      [] k = "add"  -> FoldVals(RAdd, s, RZero)
      [] k = "sub"  -> FoldVals(RSub, Tail(s), Head(s))
      [] k = "neg"  -> RNeg(s[1])
      [] k = "mul"  -> FoldVals(RMul, s, ROne)
      [] k = "div"  -> FoldVals(RDiv, Tail(s), Head(s))

(* value of a term; loc maps names bound by let and by definitions to values  *)
RECURSIVE Eval(_, _, _)
Call(f, vals, G) == Eval(f.t, G, Bind(<<>>, f.p, vals))
Eval(t, G, loc) ==
    CASE t.k = "true"  -> "true"
      [] t.k = "false" -> "false"
      [] t.k = "num"   -> t.v
      [] t.k = "var"   -> IF t.n \in DOMAIN loc THEN loc[t.n]
                          ELSE IF t.n \in DOMAIN G.d THEN Call(G.d[t.n], <<>>, G) ELSE G.c[t.n]
      [] t.k = "app"   -> Call(G.d[t.n], [i \in 1..Len(t.a) |-> TLCEval(Eval(t.a[i], G, loc))], G)
      [] t.k = "let"   -> LET vals == TLCEval([i \in 1..Len(t.b) |-> Eval(t.b[i].t, G, loc)])
                          IN Eval(t.t, G, Bind(loc, t.b, vals))
      [] OTHER         -> LET vals == TLCEval([i \in 1..Len(t.a) |-> Eval(t.a[i], G, loc)]) IN Apply(t.k, vals)

(* ------------------------------------------------------------------------- *)
(* Satisfiability of a list of assertions, by following every way in which    *)
(* the undetermined atoms of the assertions can be decided. A path holds the  *)
(* linear constraints cs and the Boolean facts b decided so far. Real terms   *)
(* denote linear forms [f |-> [variable -> coefficient], k |-> constant]; a    *)
(* variable is <<name, arguments>>.                                           *)
Form(f, k) == [f |-> f, k |-> k]
Const(k) == Form(<<>>, k)
IsConst(e) == DOMAIN e.f = {}
VarForm(x) == Form(x :> ROne, RZero)
FScale(a, q) == IF q = RZero THEN Const(RZero) ELSE Form([x \in DOMAIN a.f |-> RMul(q, a.f[x])], RMul(q, a.k))
FAdd(a, b) ==
    LET coef(x) == RAdd(IF x \in DOMAIN a.f THEN a.f[x] ELSE RZero, IF x \in DOMAIN b.f THEN b.f[x] ELSE RZero)
        X == {x \in DOMAIN a.f \cup DOMAIN b.f : coef(x) # RZero}
    IN Form([x \in X |-> coef(x)], RAdd(a.k, b.k))
FSub(a, b) == FAdd(a, FScale(b, "-1"))
SetToTuple(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => s[i] # s[j]
RECURSIVE ToTuple(_)
ToTuple(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o ToTuple(S \ {x})
(* the constraint  e p 0 *)
FCons(e, p) == LET xs == ToTuple(DOMAIN e.f)
               IN [v |-> xs, c |-> [i \in 1..Len(xs) |-> e.f[xs[i]]], p |-> p, r |-> RNeg(e.k)]

Val(v)  == [ok |-> TRUE, v |-> v]
Need(a) == [ok |-> FALSE, a |-> a]
EmptyPath == [cs |-> <<>>, b |-> <<>>]

(* truth of the linear atom  e p 0  on a path *)
AskLin(e, p, P) ==
    IF IsConst(e) THEN Val(Bool(PredHolds(p, RCmp(e.k, RZero))))
    ELSE LET c == FCons(e, p)
             y == Feasible(Append(P.cs, c))
             n == Feasible(Append(P.cs, NegCons(c)))
         IN IF ~y THEN Val("false") ELSE IF ~n THEN Val("true") ELSE Need([t |-> "lin", c |-> c])
AskBool(x, P) == IF x \in DOMAIN P.b THEN Val(P.b[x]) ELSE Need([t |-> "bool", x |-> x])
Assume(P, a, v) ==
    IF a.t = "bool" THEN [P EXCEPT !.b = (a.x :> Bool(v)) @@ @]
    ELSE [P EXCEPT !.cs = Append(@, IF v THEN a.c ELSE NegCons(a.c))]
Alive(P, a) == a.t = "bool" \/ Feasible(P.cs)

(* S gives the sorts: S.c[name] for constants, S.u[name] = [as, s] for          *)
(* uninterpreted functions, and S.d[name] the definitions.                     *)
RECURSIVE Sym(_, _, _, _)
RECURSIVE SymList(_, _, _, _, _)
SymList(ts, i, S, loc, P) ==
    IF i > Len(ts) THEN Val(<<>>)
    ELSE LET h == TLCEval(Sym(ts[i], S, loc, P))
         IN IF ~h.ok THEN h
            ELSE LET r == TLCEval(SymList(ts, i + 1, S, loc, P)) IN IF ~r.ok THEN r ELSE Val(<<h.v>> \o r.v)
(* left to right, stopping when the result is determined *)
RECURSIVE SymJunction(_, _, _, _, _, _)
SymJunction(ts, i, stop, S, loc, P) ==
    IF i > Len(ts) THEN Val(IF stop = "true" THEN "false" ELSE "true")
    ELSE LET h == TLCEval(Sym(ts[i], S, loc, P))
         IN IF h.ok /\ h.v # stop THEN SymJunction(ts, i + 1, stop, S, loc, P) ELSE h
(* conjunction of linear atoms *)
RECURSIVE AskAll(_, _)
AskAll(as, P) ==
    IF as = <<>> THEN Val("true")
    ELSE LET h == TLCEval(AskLin(Head(as).e, Head(as).p, P))
         IN IF h.ok /\ h.v = "true" THEN AskAll(Tail(as), P) ELSE h
Pairs(s, R(_, _), p) == [i \in 1..(Len(s) - 1) |-> [e |-> R(s[i], s[i + 1]), p |-> p]]
RECURSIVE AllPairs(_)
AllPairs(s) == IF Len(s) <= 1 THEN <<>>
               ELSE [i \in 1..(Len(s) - 1) |-> [e |-> FSub(s[1], s[i + 1]), p |-> "ne"]] \o AllPairs(Tail(s))
SymUf(f, vals, S, P) ==
    LET x == <<f, vals>> IN IF S.u[f].s = "Bool" THEN AskBool(x, P) ELSE Val(VarForm(x))
Sym(t, S, loc, P) ==
    CASE t.k = "true"  -> Val("true")
      [] t.k = "false" -> Val("false")
      [] t.k = "num"   -> Val(Const(t.v))
      [] t.k = "var"   -> IF t.n \in DOMAIN loc THEN Val(loc[t.n])
                          ELSE IF t.n \in DOMAIN S.d THEN Sym(S.d[t.n].t, S, <<>>, P)
                          ELSE IF S.c[t.n] = "Bool" THEN AskBool(<<t.n, <<>>>>, P) ELSE Val(VarForm(<<t.n, <<>>>>))
      [] t.k = "app"   -> LET vals == TLCEval(SymList(t.a, 1, S, loc, P))
                          IN IF ~vals.ok THEN vals
                             ELSE IF t.n \in DOMAIN S.d
                                  THEN Sym(S.d[t.n].t, S, Bind(<<>>, S.d[t.n].p, vals.v), P)
                                  ELSE SymUf(t.n, vals.v, S, P)
      [] t.k = "let"   -> LET vals == TLCEval(SymList([i \in 1..Len(t.b) |-> t.b[i].t], 1, S, loc, P))
                          IN IF ~vals.ok THEN vals ELSE Sym(t.t, S, Bind(loc, t.b, vals.v), P)
      [] t.k = "and"   -> SymJunction(t.a, 1, "false", S, loc, P)
      [] t.k = "or"    -> SymJunction(t.a, 1, "true", S, loc, P)
      [] t.k = "imp"   -> LET h == TLCEval(Sym(t.a[1], S, loc, P))
                          IN IF ~h.ok THEN h ELSE IF h.v = "false" THEN Val("true")
                             ELSE IF Len(t.a) = 2 THEN Sym(t.a[2], S, loc, P)
                             ELSE Sym([k |-> "imp", a |-> Tail(t.a)], S, loc, P)
      [] t.k \in {"iteb", "iter"} ->
                          LET c == TLCEval(Sym(t.a[1], S, loc, P))
                          IN IF ~c.ok THEN c ELSE Sym(t.a[IF c.v = "true" THEN 2 ELSE 3], S, loc, P)
      [] OTHER ->
           LET args == TLCEval(SymList(t.a, 1, S, loc, P))
               s == args.v
           IN IF ~args.ok THEN args
              ELSE CASE t.k \in {"not", "xor", "eqb", "disb"} -> Val(Apply(t.k, s))
                     [] t.k = "add" -> Val(FoldVals(FAdd, s, Const(RZero)))
                     [] t.k = "sub" -> Val(FoldVals(FSub, Tail(s), Head(s)))
                     [] t.k = "neg" -> Val(FScale(s[1], "-1"))
                     [] t.k = "mul" -> Val(FoldVals(LAMBDA a, b : IF IsConst(a) THEN FScale(b, a.k) ELSE FScale(a, b.k), s, Const(ROne)))
                     [] t.k = "div" -> Val(FoldVals(LAMBDA a, b : FScale(a, RDiv(ROne, b.k)), Tail(s), Head(s)))
                     [] t.k = "le"  -> AskAll(Pairs(s, FSub, "leq"), P)
                     [] t.k = "lt"  -> AskAll(Pairs(s, FSub, "lt"), P)
                     [] t.k = "ge"  -> AskAll(Pairs(s, FSub, "geq"), P)
                     [] t.k = "gt"  -> AskAll(Pairs(s, FSub, "gt"), P)
                     [] t.k = "eqr" -> AskAll(Pairs(s, FSub, "eq"), P)
                     [] t.k = "disr" -> AskAll(AllPairs(s), P)

(* Applications which occur on a path: they must agree when their arguments do *)
RECURSIVE AppsOf(_)
AppsOf(x) == IF x[2] = <<>> THEN {}
             ELSE {x} \cup UNION {IF IsBool(x[2][i]) THEN {} ELSE UNION {AppsOf(y) : y \in DOMAIN x[2][i].f} : i \in 1..Len(x[2])}
PathApps(P) == UNION {AppsOf(x) : x \in UNION {{P.cs[i].v[j] : j \in 1..Len(P.cs[i].v)} : i \in 1..Len(P.cs)}
                                        \cup DOMAIN P.b}
RECURSIVE SameArgs(_, _, _, _)
SameArgs(a, b, i, P) ==
    IF i > Len(a) THEN Val("true")
    ELSE LET h == IF IsBool(a[i]) THEN Val(Bool(a[i] = b[i]))
                  ELSE TLCEval(AskLin(FSub(a[i], b[i]), "eq", P))
         IN IF h.ok /\ h.v = "true" THEN SameArgs(a, b, i + 1, P) ELSE h

(* Results: r is "sat", "unsat" or "unknown"; n is the number of further        *)
(* branches that may be explored.                                             *)
RECURSIVE Explore(_, _, _, _)
RECURSIVE Close(_, _, _, _, _)
Branch(a, asserts, S, P, n, closing) ==
    LET go(v, m) == LET Q == TLCEval(Assume(P, a, v))
                    IN IF ~Alive(Q, a) THEN [r |-> "unsat", n |-> m]
                       ELSE IF closing THEN Close(S, Q, ToTuple(PathApps(Q)), 1, m) ELSE Explore(asserts, S, Q, m)
        r1 == TLCEval(go(TRUE, n - 1))
    IN IF n <= 0 THEN [r |-> "unknown", n |-> 0]
       ELSE IF r1.r = "sat" THEN r1
       ELSE LET r2 == TLCEval(go(FALSE, r1.n))
            IN IF r2.r = "sat" \/ r1.r = "unsat" THEN r2 ELSE [r |-> "unknown", n |-> r2.n]
(* apps = all applications of the path, i enumerates the pairs *)
Close(S, P, apps, i, n) ==
    LET m == Len(apps)
        a == apps[((i - 1) \div m) + 1]
        b == apps[((i - 1) % m) + 1]
    IN IF i > m * m THEN [r |-> "sat", n |-> n]
       ELSE IF ((i - 1) \div m) >= ((i - 1) % m) \/ a[1] # b[1] THEN Close(S, P, apps, i + 1, n)
       ELSE LET h == TLCEval(SameArgs(a[2], b[2], 1, P))
            IN IF ~h.ok THEN Branch(h.a, <<>>, S, P, n, TRUE)
               ELSE IF h.v = "false" THEN Close(S, P, apps, i + 1, n)
               ELSE IF S.u[a[1]].s = "Bool"
                    THEN LET va == AskBool(a, P) vb == AskBool(b, P)
                         IN IF va.ok /\ vb.ok /\ va.v # vb.v THEN [r |-> "unsat", n |-> n]
                            ELSE IF ~va.ok /\ vb.ok THEN Branch(va.a, <<>>, S, P, n, TRUE)
                            ELSE IF va.ok /\ ~vb.ok THEN Branch(vb.a, <<>>, S, P, n, TRUE)
                            ELSE Close(S, P, apps, i + 1, n)
               ELSE LET eq == FCons(FSub(VarForm(a), VarForm(b)), "eq")
                        Q  == TLCEval([P EXCEPT !.cs = Append(@, eq)])
                    IN IF ~Feasible(Append(P.cs, NegCons(eq))) THEN Close(S, P, apps, i + 1, n)
                       ELSE IF ~Feasible(Q.cs) THEN [r |-> "unsat", n |-> n]
                       ELSE Close(S, Q, apps, 1, n)
Explore(asserts, S, P, n) ==
    IF asserts = <<>> THEN Close(S, P, ToTuple(PathApps(P)), 1, n)
    ELSE LET h == TLCEval(Sym(Head(asserts), S, <<>>, P))
         IN IF ~h.ok THEN Branch(h.a, asserts, S, P, n, FALSE)
            ELSE IF h.v = "true" THEN Explore(Tail(asserts), S, P, n)
            ELSE [r |-> "unsat", n |-> n]
Decide(asserts, S, fuel) == Explore(asserts, S, EmptyPath, fuel).r
=============================================================================
