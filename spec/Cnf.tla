--------------------------------- MODULE Cnf ---------------------------------
(* Satisfiability of sets of clauses; a clause is a sequence of non-zero       *)
(* integers. Satisfiable is evaluated by java/Cnf.java, an independent         *)
(* backtracking procedure; CnfMC compares the two on every small instance.     *)
EXTENDS Integers, Sequences
CVar(l) == IF l < 0 THEN -l ELSE l
CVars(cls) == UNION {{CVar(cls[i][j]) : j \in 1..Len(cls[i])} : i \in 1..Len(cls)}
SatBy(cls, T) == \A i \in 1..Len(cls) : \E j \in 1..Len(cls[i]) :
                    IF cls[i][j] > 0 THEN cls[i][j] \in T ELSE -cls[i][j] \notin T
SatisfiableDef(cls) == \E T \in SUBSET CVars(cls) : SatBy(cls, T)
Satisfiable(cls) == SatisfiableDef(cls)
=============================================================================
