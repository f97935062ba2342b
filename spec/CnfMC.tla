-------------------------------- MODULE CnfMC --------------------------------
(* The evaluation of Satisfiable agrees with its definition.                   *)
EXTENDS Cnf
CONSTANTS K
VARIABLES S
Lits == {-3, -2, -1, 1, 2, 3}
Cls == {<<>>} \cup {<<a>> : a \in Lits} \cup {<<a, b>> : a, b \in Lits} \cup {<<a, b, c>> : a \in {-1, 1}, b \in {-2, 2}, c \in {-3, 3}}
Init == S = <<>>
Next == Len(S) < K /\ \E c \in Cls : S' = Append(S, c)
Agree == Satisfiable(S) = SatisfiableDef(S)
=============================================================================
