------------------------------ MODULE LinArith ------------------------------
(* Linear constraints over the reals and their solutions.                     *)
(* A constraint is [v |-> <<variables>>, c |-> <<coefficients>>, p, r]: the    *)
(* sum of c[i]*v[i] is related by p in {lt, leq, eq, ne, gt, geq} to r.        *)
EXTENDS Rationals, FiniteSets

NegPred(p) == CASE p = "lt" -> "geq" [] p = "geq" -> "lt" [] p = "leq" -> "gt"
                [] p = "gt" -> "leq" [] p = "eq" -> "ne" [] p = "ne" -> "eq"
NegCons(c) == [v |-> c.v, c |-> c.c, p |-> NegPred(c.p), r |-> c.r]

PredHolds(p, cmp) == CASE p = "lt" -> cmp < 0 [] p = "leq" -> cmp <= 0 [] p = "eq" -> cmp = 0
                       [] p = "ne" -> cmp # 0 [] p = "gt" -> cmp > 0 [] p = "geq" -> cmp >= 0

(* value of the sum v.c under the assignment m *)
RECURSIVE SumFrom(_, _, _, _)
SumFrom(v, c, m, i) == IF i > Len(v) THEN RZero
                       ELSE RAdd(RMul(c[i], m[v[i]]), SumFrom(v, c, m, i + 1))
Lin(v, c, m) == SumFrom(v, c, m, 1)
Holds(c, m)  == PredHolds(c.p, RCmp(Lin(c.v, c.c, m), c.r))

VarsOf(c) == {c.v[i] : i \in {j \in 1..Len(c.v) : c.c[j] # RZero}}
CoefOf(c, x) == LET idx == {j \in 1..Len(c.v) : c.v[j] = x}
                    S[J \in SUBSET idx] == IF J = {} THEN RZero
                                           ELSE LET j == CHOOSE j \in J : TRUE IN RAdd(c.c[j], S[J \ {j}])
                IN S[idx]

(* ---- feasibility of a conjunction, defined by elimination ---------------- *)
(* rows [f |-> [variable -> coefficient], p, r] with p in {lt, leq, eq}       *)
RowSub(a, k, b) == [f |-> [x \in DOMAIN a.f |-> RSub(a.f[x], RMul(k, b.f[x]))], p |-> a.p, r |-> RSub(a.r, RMul(k, b.r))]
RowScale(a, k)  == [f |-> [x \in DOMAIN a.f |-> RMul(k, a.f[x])], p |-> a.p, r |-> RMul(k, a.r)]
Row(c, X) ==
    LET f == [x \in X |-> CoefOf(c, x)]
        a == [f |-> f, p |-> IF c.p \in {"gt", "lt"} THEN "lt" ELSE IF c.p = "eq" THEN "eq" ELSE "leq", r |-> c.r]
    IN IF c.p \in {"gt", "geq"} THEN RowScale(a, "-1") ELSE a
GroundOk(a) == PredHolds(a.p, RCmp(RZero, a.r))
RECURSIVE FeasRows(_, _)
FeasRows(R, X) ==
    IF X = {} THEN \A a \in R : GroundOk(a)
    ELSE LET x == CHOOSE x \in X : TRUE
             E == {a \in R : a.p = "eq" /\ a.f[x] # RZero}
         IN IF E # {}
            THEN LET e == CHOOSE e \in E : TRUE
                 IN FeasRows({RowSub(a, RDiv(a.f[x], e.f[x]), e) : a \in R \ {e}}, X \ {x})
            ELSE LET up == {a \in R : RSgn(a.f[x]) > 0}
                     lo == {a \in R : RSgn(a.f[x]) < 0}
                     no == {a \in R : a.f[x] = RZero}
                     comb(a, b) == LET s == RowSub(RowScale(a, RDiv(ROne, a.f[x])), "-1", RowScale(b, RDiv("-1", b.f[x])))
                                   IN [s EXCEPT !.p = IF a.p = "lt" \/ b.p = "lt" THEN "lt" ELSE "leq"]
                 IN FeasRows(no \cup {comb(a, b) : a \in up, b \in lo}, X \ {x})
(* Disequalities: the solutions of the other constraints form a convex set,   *)
(* which finitely many hyperplanes cover only if one of them contains it.     *)
FeasibleDef(S) ==
    LET cs == {S[i] : i \in 1..Len(S)}
        X  == UNION {VarsOf(c) : c \in cs}
        R  == {Row(c, X) : c \in {c \in cs : c.p # "ne"}}
    IN /\ FeasRows(R, X)
       /\ \A c \in {c \in cs : c.p = "ne"} :
            \/ FeasRows(R \cup {Row([c EXCEPT !.p = "lt"], X)}, X)
            \/ FeasRows(R \cup {Row([c EXCEPT !.p = "gt"], X)}, X)

(* S is a sequence of constraints; evaluated by java/LinArith.java with an    *)
(* exact simplex, compared with FeasibleDef by LinArithMC.                    *)
Feasible(S) == FeasibleDef(S)

Entails(S, c) == ~Feasible(Append(S, NegCons(c)))
EntailsEq(S, c) == Entails(S, [c EXCEPT !.p = "leq"]) /\ Entails(S, [c EXCEPT !.p = "geq"])
=============================================================================
