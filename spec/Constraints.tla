----------------------------- MODULE Constraints -----------------------------
(* The repository of linear constraints: every constraint that was created has *)
(* a literal; equivalent constraints have the same literal and complementary   *)
(* constraints have complementary literals.                                    *)
EXTENDS LinArith, FiniteSets, TLC
(* Canonical form <<coefficients, predicate, right-hand side, positive>>: the   *)
(* coefficient of the smallest variable is 1 and the predicate is eq, lt or leq *)
NonZero(c) == {i \in 1..Len(c.v) : c.c[i] # RZero}
Flip(p) == CASE p = "lt" -> "leq" [] p = "leq" -> "lt" [] p = "eq" -> "eq"
GroundTrue(c) == CASE c.p = "eq" -> c.r = RZero [] c.p = "lt" -> RLt(RZero, c.r) [] c.p = "leq" -> RLe(RZero, c.r)
Canon(c) ==
    LET I == NonZero(c)
    IN IF I = {} THEN <<<<>>, "eq", RZero, GroundTrue(c)>>
       ELSE LET i0 == CHOOSE i \in I : \A j \in I : c.v[i] <= c.v[j]
                k == c.c[i0]
                f == [x \in {c.v[i] : i \in I} |-> RDiv(c.c[CHOOSE i \in I : c.v[i] = x], k)]
            IN IF RSgn(k) > 0 \/ c.p = "eq" THEN <<f, c.p, RDiv(c.r, k), TRUE>>
               ELSE <<f, Flip(c.p), RDiv(c.r, k), FALSE>>
Shape(c) == LET k == Canon(c) IN <<k[1], k[2], k[3]>>
Positive(c) == Canon(c)[4]

VARIABLES lits,   \* shape of a constraint -> the literal of its positive form
          seq     \* the constraints in the order of creation, with their literals
cvars == <<lits, seq>>
ConsInit == lits = <<>> /\ seq = <<>>
LitOf(c) == IF Positive(c) THEN lits[Shape(c)] ELSE -lits[Shape(c)]
(* constraint c is created and given literal l *)
MakeRules(c, l) ==
    LET s == Shape(c)
        p == IF Positive(c) THEN l ELSE -l
        v == IF l > 0 THEN l ELSE -l
    IN (IF s \in DOMAIN lits /\ lits[s] # p THEN {"not-shared"} ELSE {}) \cup
       (IF \E t \in DOMAIN lits : t # s /\ lits[t] \in {v, -v} THEN {"wrongly-shared"} ELSE {})
Make(c, l) == /\ lits' = IF Shape(c) \in DOMAIN lits THEN lits ELSE (Shape(c) :> (IF Positive(c) THEN l ELSE -l)) @@ lits
              /\ seq' = Append(seq, <<c, l>>)
=============================================================================
