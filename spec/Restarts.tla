------------------------------ MODULE Restarts ------------------------------
(* The restart policies as state machines. A policy is told about each learned *)
(* clause (as the sequence of levels of its literals) and about each restart;  *)
(* it is asked whether the search should restart.                              *)
EXTENDS Rationals, FiniteSets, TLC

(* ---- the Luby sequence 1 1 2 1 1 2 4 .. ------------------------------------ *)
RECURSIVE Power2Above(_, _)
Power2Above(i, p) == IF p > i THEN p ELSE Power2Above(i, 2 * p)   \* least power of 2 above i
RECURSIVE LubyElem(_)
LubyElem(i) == LET p == Power2Above(i, 1) IN IF i = p - 1 THEN p \div 2 ELSE LubyElem(i - (p \div 2) + 1)
LubyFactor == 550

LubyStart == [k |-> "luby", i |-> 1, n |-> 0]
LubyLearn(p) == [p EXCEPT !.n = @ + 1]
LubyAsks(p) == p.n >= LubyFactor * LubyElem(p.i)
LubyRestarted(p) == [p EXCEPT !.i = @ + 1, !.n = 0]

(* ---- dynamic policy ----------------------------------------------------------- *)
(* fast and slow are moving averages of the number of levels of learned clauses,   *)
(* rounded far below the precision of the implementation                           *)
Unit == "1000000000000000000000000000000"
Trunc(x) == RDiv(RFloor(RMul(x, Unit)), Unit)
Glue(lv) == RInt(Cardinality({lv[i] : i \in DOMAIN lv}))
DynamicStart(m, s, f, t) == [k |-> "glucose", m |-> m, sw |-> RPow2(-s), fw |-> RPow2(-f), t |-> t, n |-> 0, fast |-> RZero, slow |-> RZero]
Move(a, g, w) == Trunc(RAdd(a, RMul(w, RSub(g, a))))
DynamicLearn(p, lv) == LET g == Glue(lv) IN [p EXCEPT !.n = @ + 1, !.fast = Move(@, g, p.fw), !.slow = Move(@, g, p.sw)]
DynamicRestarted(p) == [p EXCEPT !.n = 0]
(* "any" where the averages are too close to the threshold for single precision     *)
Slack == "1/20000"
DynamicAsks(p) ==
    LET lim == RMul(p.t, p.slow)
        d   == RSub(p.fast, lim)
        eps == RMul(Slack, RAdd(lim, "1/1000000000000"))
    IN IF p.n < p.m THEN "no" ELSE IF p.slow = RZero THEN "any" ELSE IF RLe(eps, d) THEN "yes" ELSE IF RLe(d, RNeg(eps)) THEN "no" ELSE "any"

(* ---- any policy ------------------------------------------------------------------ *)
Learned(p, lv) == IF p.k = "luby" THEN LubyLearn(p) ELSE DynamicLearn(p, lv)
Asks(p) == IF p.k = "luby" THEN IF LubyAsks(p) THEN "yes" ELSE "no" ELSE DynamicAsks(p)
Restarted(p) == IF p.k = "luby" THEN LubyRestarted(p) ELSE DynamicRestarted(p)
(* n times the same clause: the state after it, the least and greatest number of    *)
(* "yes" answers, and the first answers that may and must be "yes" (0 for none)     *)
RECURSIVE Many(_, _, _, _)
Many(r, lv, i, n) ==
    IF i > n THEN r
    ELSE LET p == TLCEval(Learned(r.p, lv))
             a == Asks(p)
         IN Many(TLCEval([p |-> p, lo |-> r.lo + (IF a = "yes" THEN 1 ELSE 0), hi |-> r.hi + (IF a = "no" THEN 0 ELSE 1),
                          must |-> IF r.must = 0 /\ a = "yes" THEN i ELSE r.must,
                          may |-> IF a = "no" THEN r.may ELSE r.may \cup {i}]), lv, i + 1, n)
(* shortcut for the Luby policy, where thousands of clauses make one interval *)
LubyMany(p, n) ==
    LET lim == LubyFactor * LubyElem(p.i)
        q == [p EXCEPT !.n = @ + n]
        yes == IF q.n < lim THEN 0 ELSE IF p.n >= lim THEN n ELSE q.n - lim + 1
    IN [p |-> q, lo |-> yes, hi |-> yes, must |-> IF yes = 0 THEN 0 ELSE n - yes + 1, may |-> IF yes = 0 THEN {} ELSE {n - yes + 1}]
Several(p, lv, n) == IF p.k = "luby" THEN LubyMany(p, n)
                     ELSE Many([p |-> p, lo |-> 0, hi |-> 0, must |-> 0, may |-> {}], lv, 1, n)
=============================================================================
