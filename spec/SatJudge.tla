------------------------------- MODULE SatJudge ------------------------------
(* Runs of the real command-line SAT solver judged against SatSession.         *)
EXTENDS SatSession, Json, IOUtils, TLC
Jobs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, pos
Report(rule) == PrintT(<<"VIOL", Jobs[tid].id, pos, rule>>)
Must(b, rule) == IF b THEN TRUE ELSE Report(rule)
Init == tid \in 1..Len(Jobs) /\ pos = 1 /\ SessionInit
J == Jobs[tid]
Line == J.lines[pos]
Is(k) == pos <= Len(J.lines) /\ Line.k = k /\ pos' = pos + 1 /\ tid' = tid
ReadComment == Is("c") /\ Comment
ReadProblem == Is("p") /\ Problem(Line.n, Line.m)
ReadNumbers == Is("l") /\ Numbers(Line.t)
Done == /\ pos = Len(J.lines) + 1 /\ pos' = pos + 1 /\ tid' = tid
        /\ Must(J.end = "ok", "end-" \o J.end)
        /\ Must(J.ans \in {"SAT", "UNSAT"} \/ J.end # "ok", "no-answer")
        /\ IF J.ans \in {"SAT", "UNSAT"}
           THEN LET x == Expected
                IN IF J.ans = x THEN Answer(x)
                   ELSE Report(IF J.ans = "SAT" THEN "verdict-sat" ELSE "verdict-unsat") /\ UNCHANGED svars
           ELSE UNCHANGED svars
Next == ReadComment \/ ReadProblem \/ ReadNumbers \/ Done
Post == PrintT(<<"DONE", TLCGet("stats").distinct>>)
=============================================================================
