------------------------------ MODULE TermsTrace ------------------------------
(* Terms built by the real term manager (harness/drv_terms).                   *)
EXTENDS Terms, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
T == Traces[tid]
Ev == T.ev[l]
Say(rule) == PrintT(<<"VIOL", T.id, l, rule>>)
Report(rules) == \A r \in rules : Say(r)
If(b, rule) == IF b THEN {} ELSE {rule}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ TermsInit
Is(op) == l <= Len(T.ev) /\ Ev.op = op /\ l' = l + 1 /\ tid' = tid
Term(e) == [t |-> e.t, p |-> e.p, neg |-> e.neg, s |-> e.s, full |-> e.full, shape |-> e.shape, d |-> e.d]
Args == [i \in 1..Len(Ev.a) |-> regs[Ev.a[i]]]
Meaning(m, args) ==
    IF ~(Ev.full /\ Known(args)) THEN {}
    ELSE LET r == TLCEval(Compare(Ev.d, m, Ev.s))
         IN IF r = "no" THEN {"meaning-changed"} ELSE IF PrintT(<<"COUNT", r, 1>>) THEN {} ELSE {}
SortRule(s) == If(Ev.s = s, "sort")

DoVar == /\ Is("var")
         /\ sorts' = [sorts EXCEPT !.c = (Ev.n :> Ev.sort) @@ @] /\ consts' = Append(consts, Ev.n)
         /\ Report(SortRule(Ev.sort) \cup ShareRules(Term(Ev), <<"var", <<Ev.n>>>>) \cup If(Ev.byname = Ev.t /\ Ev.named = Ev.n, "name"))
         /\ Remember(Term(Ev), <<"var", <<Ev.n>>>>)
DoFun == /\ Is("fun")
         /\ sorts' = [sorts EXCEPT !.u = (Ev.n :> [as |-> Ev.as, s |-> Ev.sort]) @@ @]
         /\ UNCHANGED <<regs, consts, built, shapes>>
NumValue == IF Ev.f = "" THEN RNorm(Ev.i) ELSE RNorm(Ev.i \o "." \o Ev.f)
DoNum == /\ Is("num") /\ UNCHANGED <<sorts, consts>>
         /\ Report(SortRule("Real") \cup If(Ev.d = [k |-> "num", v |-> NumValue], "meaning-changed") \cup ShareRules(Term(Ev), <<"num", <<NumValue>>>>))
         /\ Remember(Term(Ev), <<"num", <<NumValue>>>>)
DoOp  == /\ Is("op") /\ UNCHANGED <<sorts, consts>>
         /\ LET how == <<Ev.n, Ids(Args)>>
            IN /\ Report(SortRule(SortOf(KindOf(Ev.n, Args))) \cup Meaning(Meant(Ev.n, Args), Args) \cup ShareRules(Term(Ev), how) \cup
                         If(Ev.n = "not" => Ev.p = Args[1].p /\ Ev.neg # Args[1].neg /\ Ev.t # Args[1].t, "negation"))
               /\ Remember(Term(Ev), how)
DoApp == /\ Is("app") /\ UNCHANGED <<sorts, consts>>
         /\ LET how == <<"app " \o Ev.n, Ids(Args)>>
            IN /\ Report(SortRule(sorts.u[Ev.n].s) \cup Meaning(MeantApp(Ev.n, Args), Args) \cup ShareRules(Term(Ev), how))
               /\ Remember(Term(Ev), how)
DoSubst == /\ Is("subst") /\ UNCHANGED <<sorts, consts>>
           /\ LET n == Len(Ev.a) \div 2
                  how == <<"subst", Ids(Args)>>
              IN /\ Report(SortRule(Args[1].s) \cup
                           Meaning(MeantSubst(Args[1].d, [i \in 1..n |-> Args[2 * i]], [i \in 1..n |-> Args[2 * i + 1]]), Args) \cup
                           ShareRules(Term(Ev), how))
                 /\ Remember(Term(Ev), how)
DoAgain == /\ Is("again") /\ UNCHANGED tvars
           /\ Report(If(Len(Ev.all) = Len(regs) /\ \A i \in 1..Len(regs) : Term(Ev.all[i]) = regs[i], "term-changed"))
DoEnd == Is("end") /\ UNCHANGED tvars /\ Report({"end-" \o Ev.how})
Next == DoVar \/ DoFun \/ DoNum \/ DoOp \/ DoApp \/ DoSubst \/ DoAgain \/ DoEnd
View == <<tid, l>>
Post == PrintT(<<"DONE", TLCGet("stats").distinct>>)
=============================================================================
