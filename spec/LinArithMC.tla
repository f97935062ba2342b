----------------------------- MODULE LinArithMC -----------------------------
(* The evaluation of Feasible agrees with its definition, and Rationals with  *)
(* integer arithmetic, on every small instance.                               *)
EXTENDS LinArith, TLC, Integers
CONSTANTS K, N
VARIABLES S
Coefs == {"-1", "0", "1", "2"}
Cons == {[v |-> <<1, 2>>, c |-> <<a, b>>, p |-> p, r |-> r] :
            a \in {"0", "1", "-2"}, b \in {"0", "1", "-1"}, p \in {"lt", "leq", "eq", "ne", "geq"}, r \in {"0", "1"}}
Init == S = <<>>
Next == Len(S) < K /\ \E c \in Cons : S' = Append(S, c)
(* grids large enough to contain a solution whenever there is one are not     *)
(* needed: both evaluations are compared                                      *)
Agree == Feasible(S) = FeasibleDef(S)
(* a solution on the grid is never excluded *)
Grid == {RMake(RInt(i), "2") : i \in -2..2}
Sound == (\E x, y \in Grid : \A i \in 1..Len(S) : Holds(S[i], <<x, y>>)) => Feasible(S)
Fr == {<<n, d>> : n \in -N..N, d \in 1..N}
Q(f) == RMake(RInt(f[1]), RInt(f[2]))
ASSUME \A a, b \in Fr :
    /\ RAdd(Q(a), Q(b)) = Q(<<a[1]*b[2] + b[1]*a[2], a[2]*b[2]>>)
    /\ RSub(Q(a), Q(b)) = Q(<<a[1]*b[2] - b[1]*a[2], a[2]*b[2]>>)
    /\ RMul(Q(a), Q(b)) = Q(<<a[1]*b[1], a[2]*b[2]>>)
    /\ b[1] # 0 => RMul(RDiv(Q(a), Q(b)), Q(b)) = Q(a)
    /\ RCmp(Q(a), Q(b)) = (IF a[1]*b[2] < b[1]*a[2] THEN -1 ELSE IF a[1]*b[2] = b[1]*a[2] THEN 0 ELSE 1)
    /\ RToInt(RFloor(Q(a))) = a[1] \div a[2]
    /\ RToInt(RCeil(Q(a))) = -((-a[1]) \div a[2])
    /\ RToInt(RNum(Q(a))) * a[2] = a[1] * RToInt(RDen(Q(a)))
    /\ RGcd(RNum(Q(a)), RDen(Q(a))) = "1"
=============================================================================
