------------------------------ MODULE ConsTrace ------------------------------
(* Constraints created by the real repository (harness/drv_cons).              *)
EXTENDS Constraints, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
T == Traces[tid]
Ev == T.ev[l]
Say(rule) == PrintT(<<"VIOL", T.id, l, rule>>)
Report(rules) == \A r \in rules : Say(r)
If(b, rule) == IF b THEN {} ELSE {rule}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ ConsInit
Is(op) == l <= Len(T.ev) /\ Ev.op = op /\ l' = l + 1 /\ tid' = tid
AbsI(i) == IF i < 0 THEN -i ELSE i
(* the form the repository keeps: positive literals stand for stored constraints *)
Stored(e) == [v |-> e.v, c |-> e.c, p |-> e.p, r |-> e.r]
Meaning(e) == LET k == Canon(Stored(e)) IN <<k[1], k[2], k[3], IF e.lit > 0 THEN k[4] ELSE ~k[4]>>
DoResize == Is("resize") /\ UNCHANGED cvars
DoMake == /\ Is("make")
          /\ Report(MakeRules(Ev.in, Ev.lit) \cup
                    If(Meaning(Ev) = Canon(Ev.in), "meaning-changed") \cup
                    If(\A i, j \in 1..Len(Ev.v) : i # j => Ev.v[i] # Ev.v[j], "variable-repeated") \cup
                    If(\A i \in 1..Len(Ev.c) : Ev.c[i] # RZero, "zero-coefficient") \cup
                    If(AbsI(Ev.lit) <= Ev.size, "literal-range"))
          /\ Make(Ev.in, Ev.lit)
(* a negated constraint is strict when its stored form is not *)
StrictOf(e) == (e.p = "lt" /\ e.lit > 0) \/ (e.p = "leq" /\ e.lit < 0) \/ (e.p = "eq" /\ e.lit < 0)
Val(m) == [i \in 1..Len(m) |-> m[i]]
Sum(e, m, from) == LET S[i \in 0..Len(e.v)] == IF i < from THEN RZero ELSE RAdd(S[i - 1], RMul(e.c[i], m[e.v[i]])) IN S[Len(e.v)]
DoEval == /\ Is("eval") /\ UNCHANGED cvars
          /\ LET c == seq[Ev.k][1]
                 val == Holds(c, Val(Ev.m))
             IN Report(If(Ev.res = (IF val THEN "1" ELSE "0"), "evaluation") \cup
                       If(Ev.neg = (IF val THEN "0" ELSE "1"), "negation") \cup
                       If(Ev.part = "", "evaluated-too-early") \cup
                       If(Ev.x # 0 => Ev.imp = RSub(Ev.r, Sum(Ev, Ev.m, 2)), "implied-value"))
DoAll == /\ Is("all") /\ UNCHANGED cvars
         /\ Report(UNION {LET e == Ev.cs[i] s == Stored(e)
                          IN If(\A k \in 1..Len(seq) : AbsI(seq[k][2]) = e.i =>
                                    LET m == Canon(s)
                                        d == Canon(seq[k][1])
                                    IN <<m[1], m[2], m[3]>> = <<d[1], d[2], d[3]>> /\ (m[4] = (IF seq[k][2] > 0 THEN d[4] ELSE ~d[4])), "stored-changed")
                          : i \in 1..Len(Ev.cs)})
DoEnd == Is("end") /\ UNCHANGED cvars /\ Report({"end-" \o Ev.how})
Next == DoResize \/ DoMake \/ DoEval \/ DoAll \/ DoEnd
View == <<tid, l>>
Post == PrintT(<<"DONE", TLCGet("stats").distinct>>)
=============================================================================
