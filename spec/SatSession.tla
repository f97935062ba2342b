----------------------------- MODULE SatSession ------------------------------
(* What the command-line SAT solver reads and answers. A file is a sequence    *)
(* of lines: comments, the problem line and numbers. A clause ends with 0 and  *)
(* may be spread over lines.                                                   *)
EXTENDS Cnf
VARIABLES nvars,    \* number of variables, -1 before the problem line
          left,     \* clauses still to be read
          buffer,   \* literals of the clause being read
          clauses,
          answer    \* "none", "SAT" or "UNSAT"
svars == <<nvars, left, buffer, clauses, answer>>
SessionInit == nvars = -1 /\ left = 0 /\ buffer = <<>> /\ clauses = <<>> /\ answer = "none"
RECURSIVE Read(_, _, _, _)
Read(t, i, b, cs) == IF i > Len(t) THEN <<b, cs>>
                     ELSE IF t[i] = 0 THEN Read(t, i + 1, <<>>, Append(cs, b))
                     ELSE Read(t, i + 1, Append(b, t[i]), cs)
Comment == UNCHANGED svars
Problem(n, m) == /\ answer = "none" /\ nvars = -1
                 /\ nvars' = n /\ left' = m /\ UNCHANGED <<buffer, clauses, answer>>
Numbers(t) == /\ answer = "none" /\ nvars >= 0
              /\ LET r == Read(t, 1, buffer, clauses)
                 IN buffer' = r[1] /\ clauses' = r[2] /\ left' = left - (Len(r[2]) - Len(clauses))
              /\ UNCHANGED <<nvars, answer>>
Expected == IF Satisfiable(clauses) THEN "SAT" ELSE "UNSAT"
Answer(a) == /\ answer = "none" /\ nvars >= 0 /\ left = 0 /\ buffer = <<>>
             /\ a = Expected
             /\ answer' = a /\ UNCHANGED <<nvars, left, buffer, clauses>>
=============================================================================
