----------------------------- MODULE OrderTrace -----------------------------
(* Histories of the real variable orders and queue (harness/drv_order).        *)
EXTENDS Activity, Sequences, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, o, q
T == Traces[tid]
Ev == T.ev[l]
Say(rule) == PrintT(<<"VIOL", T.id, l, rule>>)
Report(rules) == \A r \in rules : Say(r)
If(b, rule) == IF b THEN {} ELSE {rule}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ o = OrderStart("first") /\ q = <<>>
Is(op) == l <= Len(T.ev) /\ Ev.op = op /\ l' = l + 1 /\ tid' = tid
S == [x \in {i \in 1..Len(Ev.sc) : TRUE} \cup {-i : i \in 1..Len(Ev.rsc)} |-> IF x > 0 THEN Ev.sc[x] ELSE Ev.rsc[-x]]
Scored(p) == If(ScoresAgree(p, S), "score")
DoUse == Is("use") /\ o' = Grow(OrderStart(Ev.k), Ev.b, Ev.r) /\ q' = q
DoGrow == Is("grow") /\ o' = Grow(o, Ev.b, Ev.r) /\ q' = q
DoCons == Is("cons") /\ o' = [Grow(o, Ev.nb - Bools(o), 0) EXCEPT !.vars = (Ev.x :> Ev.v) @@ @] /\ q' = q
DoAssert == Is("assert") /\ o' = [o EXCEPT !.db = Append(@, Ev.c)] /\ q' = q
DoInit == Is("init") /\ o' = TLCEval(Started(o)) /\ Report(Scored(o')) /\ q' = q
DoLearn == Is("learn") /\ o' = TLCEval(LearnedN(o, Ev.c, Ev.n)) /\ q' = q
DoResolve == Is("resolve") /\ o' = TLCEval(Resolved(o, Ev.c, Ev.n)) /\ q' = q
DoPick == Is("pick") /\ UNCHANGED <<o, q>> /\ LET s == TLCEval(S) IN Report(If(ScoresAgree(o, s), "score") \cup PickRules(o, s, Ev.x))
DoBefore == /\ Is("before") /\ UNCHANGED <<o, q>>
            /\ LET s == TLCEval(S) IN Report(If(IF o.k = "first" THEN Ev.r = Earlier(Ev.v, Ev.w) ELSE Ev.r = RLt(s[Ev.w], s[Ev.v]), "order-compare"))
DoDecide == Is("decide") /\ o' = Decided(o, Ev.x) /\ q' = q
DoProp == Is("prop") /\ o' = Propagated(o, Ev.x, Ev.l) /\ q' = q
DoBack == Is("back") /\ o' = Undone(o, Ev.l) /\ q' = q
QNext == CASE Ev.w \in {"push"} -> (Ev.x :> Ev.s) @@ q
           [] Ev.w = "update" -> IF Ev.x \in DOMAIN q THEN (Ev.x :> Ev.s) @@ q ELSE q
           [] Ev.w = "pop" -> Popped(q)
           [] Ev.w = "rescale" -> [x \in DOMAIN q |-> Ev.sc[CHOOSE i \in 1..Len(Ev.sc) : Ev.sc[i].x = x].s]
           [] Ev.w = "drain" -> <<>>
DoQ == /\ Is("q") /\ o' = o /\ q' = TLCEval(QNext)
       /\ Report((IF Ev.w = "drain" THEN If(Ev.all = Sorted(q), "queue-order") ELSE {}) \cup
                 If(Ev.top = Top(q') /\ Ev.n = Cardinality(DOMAIN q'), "queue-top") \cup
                 If(Ev.w \in {"push", "update"} => Ev.in = (Ev.x \in DOMAIN q'), "queue-contains"))
DoEnd == Is("end") /\ UNCHANGED <<o, q>> /\ Report({"end-" \o Ev.how})
Next == DoUse \/ DoGrow \/ DoCons \/ DoAssert \/ DoInit \/ DoLearn \/ DoResolve \/ DoPick \/ DoBefore \/ DoDecide \/ DoProp \/ DoBack \/ DoQ \/ DoEnd
View == <<tid, l>>
Post == PrintT(<<"DONE", TLCGet("stats").distinct>>)
=============================================================================
