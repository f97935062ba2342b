------------------------------- MODULE Theory -------------------------------
(* Clauses that hold in every interpretation of linear real arithmetic and    *)
(* uninterpreted functions.                                                   *)
(*   literal   b or -b for Boolean variable b >= 1                            *)
(*   cons      [b -> linear constraint over real variables 1, 2, ...]          *)
(*   apps      applications [f, a |-> arguments, r |-> result]; an argument or  *)
(*             result is [s |-> "R", v, c, k] (a linear term), [s |-> "B", l]    *)
(*             (a literal), [s |-> "T"] or [s |-> "F"]                          *)
EXTENDS LinArith

Abs(i) == IF i < 0 THEN -i ELSE i
LitCons(cons, l) == IF l > 0 THEN cons[l] ELSE NegCons(cons[-l])
RECURSIVE ConsOf(_, _)
(* the constraints asserted by a set of literals, as a sequence *)
ConsOf(cons, L) ==
    IF L = {} THEN <<>>
    ELSE LET l == CHOOSE l \in L : TRUE
         IN IF Abs(l) \in DOMAIN cons THEN <<LitCons(cons, l)>> \o ConsOf(cons, L \ {l}) ELSE ConsOf(cons, L \ {l})

NegC(c) == [i \in 1..Len(c) |-> RNeg(c[i])]
EqTerms(a, b) == [v |-> a.v \o b.v, c |-> a.c \o NegC(b.c), p |-> "eq", r |-> RSub(b.k, a.k)]
(* truth value of a Boolean argument under the facts B: 1, 0 or -1 (unknown) *)
BoolArg(a, B) == CASE a.s = "T" -> 1 [] a.s = "F" -> 0
                   [] a.s = "B" -> IF a.l \in B THEN 1 ELSE IF -a.l \in B THEN 0 ELSE -1
SameTerm(S, B, a, b) ==
    IF a.s = "R" THEN EntailsEq(S, EqTerms(a, b))
    ELSE a = b \/ (BoolArg(a, B) # -1 /\ BoolArg(a, B) = BoolArg(b, B))
Congruent(S, B, x, y) == x.f = y.f /\ \A i \in 1..Len(x.a) : SameTerm(S, B, x.a[i], y.a[i])
(* TRUE when constraints S and Boolean facts B have no model in which          *)
(* applications of the same function to equal arguments are equal              *)
RECURSIVE UfInfeasible(_, _, _, _)
UfInfeasible(S, B, apps, n) ==
    LET new == {ij \in (1..Len(apps)) \X (1..Len(apps)) :
                  /\ ij[1] < ij[2]
                  /\ apps[ij[1]].f = apps[ij[2]].f
                  /\ Congruent(S, B, apps[ij[1]], apps[ij[2]])
                  /\ ~SameTerm(S, B, apps[ij[1]].r, apps[ij[2]].r)}
    IN IF ~Feasible(S) THEN TRUE
       ELSE IF new = {} \/ n = 0 THEN FALSE
       ELSE LET ij == CHOOSE ij \in new : TRUE
                a == apps[ij[1]].r
                b == apps[ij[2]].r
            IN IF a.s = "R" THEN UfInfeasible(Append(S, EqTerms(a, b)), B, apps, n - 1)
               ELSE LET va == BoolArg(a, B)
                        vb == BoolArg(b, B)
                    IN IF va # -1 /\ vb # -1 THEN TRUE
                       ELSE IF va = -1 /\ vb = -1 THEN UfInfeasible(S, B \cup {a.l, b.l}, apps, n - 1)
                                                       /\ UfInfeasible(S, B \cup {-a.l, -b.l}, apps, n - 1)
                       ELSE IF va = -1 THEN UfInfeasible(S, B \cup {IF vb = 1 THEN a.l ELSE -a.l}, apps, n - 1)
                       ELSE UfInfeasible(S, B \cup {IF va = 1 THEN b.l ELSE -b.l}, apps, n - 1)
TheoryValid(cons, apps, clause) ==
    LET F == {-clause[i] : i \in 1..Len(clause)}
        S == ConsOf(cons, F)
    IN \/ \E l \in F : -l \in F
       \/ ~Feasible(S)
       \/ Len(apps) > 1 /\ UfInfeasible(S, F, apps, 4 * Len(apps) + 4)
=============================================================================
