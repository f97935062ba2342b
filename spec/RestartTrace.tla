---------------------------- MODULE RestartTrace ----------------------------
(* Histories of the real restart policies (harness/drv_restart).               *)
EXTENDS Restarts, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, pol
T == Traces[tid]
Ev == T.ev[l]
Say(rule) == PrintT(<<"VIOL", T.id, l, rule>>)
Report(rules) == \A r \in rules : Say(r)
If(b, rule) == IF b THEN {} ELSE {rule}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ pol = LubyStart
Is(op) == l <= Len(T.ev) /\ Ev.op = op /\ l' = l + 1 /\ tid' = tid
AskRule(p) == LET a == Asks(p) IN If(a = "any" \/ (a = "yes") = Ev.ask, "restart-asked")
DoUse == /\ Is("use")
         /\ pol' = IF Ev.k = "luby" THEN LubyStart ELSE DynamicStart(Ev.m, Ev.s, Ev.f, RNorm(Ev.t))
         /\ Report(AskRule(pol'))
DoSeq == /\ Is("seq") /\ UNCHANGED pol
         /\ Report(If(\A i \in 1..Len(Ev.v) : Ev.v[i] = LubyElem(Ev.a + i - 1), "luby-sequence"))
DoLearn == /\ Is("learn")
           /\ LET r == TLCEval(Several(pol, Ev.lv, Ev.n))
              IN /\ Report(If(r.lo <= Ev.t /\ Ev.t <= r.hi, "restart-count") \cup
                           If(IF Ev.at = 0 THEN r.must = 0 ELSE Ev.at \in r.may /\ (r.must = 0 \/ Ev.at <= r.must), "restart-time") \cup
                           AskRule(r.p))
                 /\ pol' = r.p
DoUntil == /\ Is("until")
           /\ LET r == TLCEval(Several(pol, Ev.lv, Ev.n))
              IN /\ Report(If(IF Ev.at = 0 THEN r.must = 0 ELSE Ev.at = Ev.n /\ Ev.at \in r.may /\ (r.must = 0 \/ Ev.at <= r.must), "restart-time"))
                 /\ pol' = r.p
DoRestart == Is("restart") /\ pol' = Restarted(pol) /\ Report(AskRule(pol'))
DoEnd == Is("end") /\ UNCHANGED pol /\ Report({"end-" \o Ev.how})
Next == DoUse \/ DoSeq \/ DoLearn \/ DoUntil \/ DoRestart \/ DoEnd
View == <<tid, l>>
Post == PrintT(<<"DONE", TLCGet("stats").distinct>>)
=============================================================================
