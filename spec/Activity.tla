------------------------------ MODULE Activity ------------------------------
(* Variable orders as a state machine. Booleans are 1, 2, ..; real variables   *)
(* are -1, -2, .. The state is a record o:                                      *)
(*   k       "evsids" (Booleans only), "gvsids" or "first"                      *)
(*   act     activity of each variable, in a unit that is never rescaled        *)
(*   inc     what the next bump adds                                            *)
(*   vars    real variables of each Boolean which stands for a constraint       *)
(*   lev     level of each assigned variable                                    *)
(*   dl      number of levels                                                   *)
(*   db      clauses of the problem                                             *)
EXTENDS Rationals, FiniteSets, TLC

OrderStart(k) == [k |-> k, act |-> <<>>, inc |-> ROne, vars |-> <<>>, lev |-> <<>>, dl |-> 0, db |-> <<>>]
AbsI(i) == IF i < 0 THEN -i ELSE i
Ranked(o) == {x \in DOMAIN o.act : o.k # "evsids" \/ x > 0}
Unassigned(o) == {x \in Ranked(o) : ~(x \in DOMAIN o.lev)}
Bools(o) == Cardinality({x \in DOMAIN o.act : x > 0})
Reals(o) == Cardinality({x \in DOMAIN o.act : x < 0})
AddVars(o, S) == [o EXCEPT !.act = [x \in S |-> RZero] @@ @]
Grow(o, b, r) == AddVars(o, {Bools(o) + i : i \in 1..b} \cup {-(Reals(o) + i) : i \in 1..r})

(* the activity grows by 5 % per learned clause (the number is the single-precision value of 1.05) *)
Growth == RDiv("17616077", "16777216")
Unit == "1000000000000000000000000000000"
Trunc(x) == RDiv(RFloor(RMul(x, Unit)), Unit)

(* how often a clause bumps each variable *)
Bumps(o, c, x) ==
    LET idx == DOMAIN c
    IN IF x > 0 THEN Cardinality({i \in idx : AbsI(c[i]) = x})
       ELSE IF o.k # "gvsids" THEN 0
       ELSE LET touching == {i \in idx : AbsI(c[i]) \in DOMAIN o.vars /\ \E j \in DOMAIN o.vars[AbsI(c[i])] : o.vars[AbsI(c[i])][j] = -x}
            IN Cardinality(touching)
Bump(o, c, n) == IF o.k = "first" THEN o
                 ELSE [o EXCEPT !.act = [x \in DOMAIN @ |-> LET k == Bumps(o, c, x) IN IF k = 0 THEN @[x] ELSE RAdd(@[x], RMul(RInt(k * n), o.inc))]]
Decay(o) == [o EXCEPT !.inc = Trunc(RMul(@, Growth))]
Resolved(o, c, n) == Bump(o, c, n)
RECURSIVE LearnedN(_, _, _)
LearnedN(o, c, n) == IF n = 0 THEN o ELSE LearnedN(TLCEval(Decay(Bump(o, c, 1))), c, n - 1)
RECURSIVE BumpAll(_, _, _)
BumpAll(o, cs, i) == IF i > Len(cs) THEN o ELSE BumpAll(TLCEval(Bump(o, cs[i], 1)), cs, i + 1)
Started(o) == BumpAll([o EXCEPT !.act = [x \in DOMAIN @ |-> RZero]], o.db, 1)

Decided(o, x) == [o EXCEPT !.dl = @ + 1, !.lev = (x :> o.dl + 1) @@ @]
Propagated(o, x, l) == [o EXCEPT !.lev = (x :> l) @@ @]
Undone(o, l) == [o EXCEPT !.dl = IF l < 0 THEN 0 ELSE l, !.lev = [x \in {y \in DOMAIN o.lev : o.lev[y] <= l} |-> o.lev[x]]]

(* ---- what the order reports ---------------------------------------------------- *)
(* s gives the score of each variable in single precision, up to a common factor     *)
MaxOf(f, D) == LET RECURSIVE go(_, _)
                   go(S, m) == IF S = {} THEN m ELSE LET x == CHOOSE x \in S : TRUE IN go(S \ {x}, IF RLt(m, f[x]) THEN f[x] ELSE m)
               IN go(D, RZero)
ScoresAgree(o, s) ==
    LET D == Ranked(o)
        ma == TLCEval(MaxOf(o.act, D))
        ms == TLCEval(MaxOf(s, D))
        abs(x) == IF RSgn(x) < 0 THEN RNeg(x) ELSE x
    IN IF o.k = "first" THEN TRUE
       ELSE IF ma = RZero \/ ms = RZero THEN ma = ms
       ELSE \A x \in D : RLe(abs(RSub(RMul(s[x], ma), RMul(o.act[x], ms))),
                             RAdd(RMul("1/500", RMul(o.act[x], ms)), RMul("1/1000000000000000000000000000000", RMul(ma, ms))))
(* Booleans come before real variables, lower numbers before higher ones *)
Earlier(x, y) == IF (x > 0) # (y > 0) THEN x > 0 ELSE AbsI(x) < AbsI(y)
Better(s, x, y) == RLt(s[y], s[x]) \/ (s[x] = s[y] /\ Earlier(x, y))
PickRules(o, s, x) ==
    LET U == Unassigned(o)
        bad(b, r) == IF b THEN {} ELSE {r}
    IN IF x = 0 THEN bad(U = {}, "order-nothing")
       ELSE IF ~(x \in U) THEN {"picked-assigned"}
       ELSE IF o.k = "first" THEN bad(\A y \in U : y = x \/ Earlier(x, y), "order-first")
       ELSE bad(\A y \in U : RLe(s[y], s[x]), "order-score") \cup
            bad(\A y \in U : y = x \/ s[y] # s[x] \/ Earlier(x, y), "order-tie")

(* ---- the queue -------------------------------------------------------------------- *)
(* q maps each variable in the queue to its score *)
Top(q) == IF DOMAIN q = {} THEN 0 ELSE CHOOSE x \in DOMAIN q : \A y \in DOMAIN q : y = x \/ Better(q, x, y)
Popped(q) == LET t == Top(q) IN [x \in DOMAIN q \ {t} |-> q[x]]
RECURSIVE Sorted(_)
Sorted(q) == IF DOMAIN q = {} THEN <<>> ELSE LET t == Top(q) IN <<t>> \o Sorted([x \in DOMAIN q \ {t} |-> q[x]])
=============================================================================
