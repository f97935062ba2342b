---------------------------- MODULE ClausesTrace ----------------------------
(* Histories of the real simplification (harness/drv_subsume).                 *)
EXTENDS Clauses, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, d, t
T == Traces[tid]
Ev == T.ev[l]
Say(rule) == PrintT(<<"VIOL", T.id, l, rule>>)
Report(rules) == \A r \in rules : Say(r)
Init == tid \in 1..Len(Traces) /\ l = 1 /\ d = [asserted |-> <<>>, learned |-> <<>>] /\ t = <<>>
Is(op) == l <= Len(T.ev) /\ Ev.op = op /\ l' = l + 1 /\ tid' = tid
DoVars == Is("vars") /\ UNCHANGED <<d, t>>
DoAssert == Is("assert") /\ d' = [d EXCEPT !.asserted = Append(@, Ev.c)] /\ t' = t
DoLearn == Is("learn") /\ d' = [d EXCEPT !.learned = Append(@, Ev.c)] /\ t' = t
DoRestart == /\ Is("restart") /\ Report(SimplifyRules(d, Ev.cl, Ev.ln)) /\ t' = <<>>
             /\ d' = [asserted |-> Ev.cl, learned |-> Ev.ln]
DoInit == /\ Is("init") /\ Report(SimplifyRules(d, Ev.cl, Ev.ln)) /\ t' = t
          /\ d' = [asserted |-> Ev.cl, learned |-> Ev.ln]
Level == IF t = <<>> THEN 0 ELSE LET S == {t[i].dl : i \in DOMAIN t} IN CHOOSE m \in S : \A k \in S : k <= m
DoDecide == Is("decide") /\ t' = Append(t, [x |-> Ev.x, l |-> Level + 1, dl |-> Level + 1, r |-> <<>>]) /\ d' = d
DoProp == Is("prop") /\ t' = Append(t, [x |-> Ev.x, l |-> Ev.l, dl |-> Level, r |-> Ev.r]) /\ d' = d
DoBack == Is("back") /\ t' = [i \in DOMAIN SelectSeq(t, LAMBDA e : e.l <= Ev.l) |->
                               LET e == SelectSeq(t, LAMBDA f : f.l <= Ev.l)[i] IN [e EXCEPT !.dl = IF @ > Ev.l THEN Ev.l ELSE @]] /\ d' = d
DoMin == Is("min") /\ Report(MinimizeRules(t, Ev.c, Ev.d)) /\ UNCHANGED <<d, t>>
DoEnd == Is("end") /\ UNCHANGED <<d, t>> /\ Report({"end-" \o Ev.how})
Next == DoVars \/ DoAssert \/ DoLearn \/ DoRestart \/ DoInit \/ DoDecide \/ DoProp \/ DoBack \/ DoMin \/ DoEnd
View == <<tid, l>>
Post == PrintT(<<"DONE", TLCGet("stats").distinct>>)
=============================================================================
