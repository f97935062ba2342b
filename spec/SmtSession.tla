----------------------------- MODULE SmtSession -----------------------------
(* A session with the solver: declarations, definitions, assertions, checks   *)
(* and models. Each answer depends on the assertions made so far and nothing   *)
(* else.                                                                      *)
EXTENDS SmtTerms
VARIABLES sorts,     \* [c |-> sorts of constants, u |-> signatures, d |-> definitions]
          asserted,  \* the assertions made so far
          answer     \* "none", "sat" or "unsat": the last answer, if nothing was asserted since

svars == <<sorts, asserted, answer>>
NoSorts == [c |-> <<>>, u |-> <<>>, d |-> <<>>]
SessionInit == sorts = NoSorts /\ asserted = <<>> /\ answer = "none"

Declare(n, as, s) ==
    /\ sorts' = IF as = <<>> THEN [sorts EXCEPT !.c = (n :> s) @@ @]
                ELSE [sorts EXCEPT !.u = (n :> [as |-> as, s |-> s]) @@ @]
    /\ UNCHANGED <<asserted, answer>>
Define(n, p, t) ==
    /\ sorts' = [sorts EXCEPT !.d = (n :> [p |-> p, t |-> t]) @@ @]
    /\ UNCHANGED <<asserted, answer>>
AssertTerm(t) ==
    /\ asserted' = Append(asserted, t)
    /\ answer' = "none"
    /\ UNCHANGED sorts
(* a is the answer of the solver *)
CheckSat(a) == answer' = a /\ UNCHANGED <<sorts, asserted>>

(* ---- what an answer must satisfy ------------------------------------------ *)
(* A model is a sequence of definitions [n, p, s, t]. Constants and functions  *)
(* that are not printed may have any value: dr and db.                        *)
RECURSIVE WellSorted(_, _, _)
SortOf(t, loc) == IF t.k = "var" THEN IF t.n \in DOMAIN loc THEN loc[t.n] ELSE "?"
                  ELSE IF t.k \in {"true", "false", "not", "and", "or", "eq"} THEN "Bool"
                  ELSE IF t.k \in {"num", "add", "sub", "neg", "mul", "div"} THEN "Real" ELSE "ite"
WellSorted(t, s, loc) ==
    CASE t.k \in {"true", "false"} -> s = "Bool"
      [] t.k = "num" -> s = "Real"
      [] t.k = "var" -> t.n \in DOMAIN loc /\ loc[t.n] = s
      [] t.k = "not" -> s = "Bool" /\ WellSorted(t.a[1], "Bool", loc)
      [] t.k \in {"and", "or"} -> s = "Bool" /\ \A i \in 1..Len(t.a) : WellSorted(t.a[i], "Bool", loc)
      [] t.k = "eq" -> s = "Bool" /\ Len(t.a) = 2 /\ \E q \in {"Bool", "Real"} : \A i \in 1..2 : WellSorted(t.a[i], q, loc)
      [] t.k = "ite" -> Len(t.a) = 3 /\ WellSorted(t.a[1], "Bool", loc) /\ \A i \in 2..3 : WellSorted(t.a[i], s, loc)
      [] t.k \in {"neg"} -> s = "Real" /\ WellSorted(t.a[1], "Real", loc)
      [] t.k \in {"add", "sub", "mul", "div"} -> s = "Real" /\ \A i \in 1..Len(t.a) : WellSorted(t.a[i], "Real", loc)
      [] OTHER -> FALSE
DefSorts(ps) == [i \in 1..Len(ps) |-> ps[i].s]
ModelForm(m) ==
    /\ \A i, j \in 1..Len(m) : m[i].n = m[j].n => i = j
    /\ \A i \in 1..Len(m) :
          LET d == m[i] IN
          /\ \A j, k \in 1..Len(d.p) : d.p[j].n = d.p[k].n => j = k
          /\ WellSorted(d.t, d.s, [n \in Names(d.p) |-> d.p[CHOOSE j \in 1..Len(d.p) : d.p[j].n = n].s])
          /\ IF d.p = <<>> THEN d.n \in DOMAIN sorts.c /\ sorts.c[d.n] = d.s
             ELSE d.n \in DOMAIN sorts.u /\ sorts.u[d.n].s = d.s /\ DefSorts(d.p) = sorts.u[d.n].as
(* printed bodies use = and ite for both sorts *)
RECURSIVE EvalBody(_, _)
EvalBody(t, loc) ==
    CASE t.k = "true" -> "true" [] t.k = "false" -> "false" [] t.k = "num" -> t.v
      [] t.k = "var" -> loc[t.n]
      [] t.k = "ite" -> IF EvalBody(t.a[1], loc) = "true" THEN EvalBody(t.a[2], loc) ELSE EvalBody(t.a[3], loc)
      [] t.k = "eq"  -> Bool(EvalBody(t.a[1], loc) = EvalBody(t.a[2], loc))
      [] t.k = "and" -> Bool(\A i \in 1..Len(t.a) : EvalBody(t.a[i], loc) = "true")
      [] t.k = "or"  -> Bool(\E i \in 1..Len(t.a) : EvalBody(t.a[i], loc) = "true")
      [] OTHER -> Apply(t.k, [i \in 1..Len(t.a) |-> EvalBody(t.a[i], loc)])
(* evaluation of an assertion in a model *)
RECURSIVE MEval(_, _, _)
MCall(n, vals, M) ==
    IF n \in DOMAIN sorts.d THEN MEval(sorts.d[n].t, M, Bind(<<>>, sorts.d[n].p, vals))
    ELSE IF n \in DOMAIN M THEN EvalBody(M[n].t, Bind(<<>>, M[n].p, vals))
    ELSE M["%"][IF (IF n \in DOMAIN sorts.c THEN sorts.c[n] ELSE sorts.u[n].s) = "Bool" THEN 1 ELSE 2]
MEval(t, M, loc) ==
    CASE t.k = "true" -> "true" [] t.k = "false" -> "false" [] t.k = "num" -> t.v
      [] t.k = "var"  -> IF t.n \in DOMAIN loc THEN loc[t.n] ELSE MCall(t.n, <<>>, M)
      [] t.k = "app"  -> MCall(t.n, TLCEval([i \in 1..Len(t.a) |-> MEval(t.a[i], M, loc)]), M)
      [] t.k = "let"  -> LET vals == TLCEval([i \in 1..Len(t.b) |-> MEval(t.b[i].t, M, loc)])
                         IN MEval(t.t, M, Bind(loc, t.b, vals))
      [] OTHER -> LET vals == TLCEval([i \in 1..Len(t.a) |-> MEval(t.a[i], M, loc)]) IN Apply(t.k, vals)
ModelFun(m, db, dr) == [n \in {m[i].n : i \in 1..Len(m)} |-> m[CHOOSE i \in 1..Len(m) : m[i].n = n]]
                       @@ ("%" :> <<db, dr>>)
ModelSatisfies(m) ==
    \A d \in {<<"false", "0">>, <<"true", "-7/3">>} :
        LET M == ModelFun(m, d[1], d[2]) IN \A i \in 1..Len(asserted) : MEval(asserted[i], M, <<>>) = "true"
(* Clauses over Boolean constants with literals of both signs: giving every    *)
(* constant the same value satisfies them, so neither propagation nor a        *)
(* conflict ever opposes the value that the phase setting prescribes.          *)
Literal(t) == t.k = "var" \/ (t.k = "not" /\ t.a[1].k = "var")
MixedClause(t) == /\ t.k = "or" /\ \A i \in 1..Len(t.a) : Literal(t.a[i])
                  /\ \E i, j \in 1..Len(t.a) : t.a[i].k = "var" /\ t.a[j].k = "not"
FollowsPhase(m, phase) ==
    (\A i \in 1..Len(asserted) : MixedClause(asserted[i])) =>
        \A i \in 1..Len(m) : m[i].s = "Bool" => EvalBody(m[i].t, <<>>) = (IF phase = "negative" THEN "false" ELSE "true")
TruthOf(asserts, fuel) == Decide(asserts, sorts, fuel)
Truth(fuel) == TruthOf(asserted, fuel)
=============================================================================
