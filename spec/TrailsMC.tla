------------------------------- MODULE TrailsMC -------------------------------
(* All histories of a small trail. Every step found is printed with the history  *)
(* that leads to it; the histories are run by the real trail (drv_trail).         *)
EXTENDS Trails, Json
CONSTANTS NB, NR, MaxLevel, Paths
VARIABLES t, hist, last
vars == <<t, hist, last>>
Init == t = Resize(Empty, NB, NR) /\ hist = <<>> /\ last = -1
Step(u, op) == /\ t' = u /\ hist' = Append(hist, op)
               /\ IF Paths THEN PrintT("PATH " \o ToJson(Append(hist, op))) ELSE TRUE
Op(o, x, v, l, r) == [o |-> o, x |-> x, v |-> v, l |-> l, r |-> r]
Next == \/ \E x \in Free(t) : Level(t) < MaxLevel /\ Step(Decide(t, x, 1), Op("dec", x, 1, 0, 0)) /\ last' = -1
        \/ \E x \in Free(t), l \in 0..Level(t), r \in {0, 1} : Step(Propagate(t, x, 0, l, r), Op("prop", x, 0, l, r)) /\ last' = -1
        \/ \E l \in 0..Level(t) : Step(Backtrack(t, l), Op("back", 0, 0, l, 0)) /\ last' = l
        \/ Step(Clear(t), Op("clear", 0, 0, 0, 0)) /\ last' = -1
View == <<t, last>>
ConsistentInv == Consistent(t)
StepwiseInv == Stepwise(t)
KeepsProp == [][last' >= 0 => Keeps(t, t', last')]_vars
===============================================================================
