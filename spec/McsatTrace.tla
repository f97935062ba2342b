----------------------------- MODULE McsatTrace -----------------------------
(* Searches recorded from the real solver (harness/drv_trace.cpp), replayed    *)
(* through the steps of Mcsat. Every broken rule is printed as                 *)
(* <<"VIOL", trace, event, rule>>.                                             *)
EXTENDS Mcsat, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, s,
          pend     \* target of an announced backjump, -1 for a restart, -2 for none
vars == <<tid, l, s, pend>>
T == Traces[tid]
Ev == T.ev[l]
More == l <= Len(T.ev)
Say(rule) == PrintT(<<"VIOL", T.id, l, rule>>)
Report(rules) == \A r \in rules : Say(r)
Step(e) == More /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid

Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = Start(0, 0, <<>>, <<>>, <<>>, <<>>, <<>>) /\ pend = -2

ConsFun(cs) == [b \in {cs[i].b : i \in 1..Len(cs)} |-> LET c == cs[CHOOSE i \in 1..Len(cs) : cs[i].b = b]
                                                      IN [v |-> c.v, c |-> c.c, p |-> c.p, r |-> c.r]]
(* searches reorder the variables of constraints and nothing else *)
Sides(c) == <<{<<c.v[i], c.c[i]>> : i \in 1..Len(c.v)}, c.p, c.r, Len(c.v)>>
KeptRules(st, cs) ==
    LET now == ConsFun(cs)
        sides == TLCEval([b \in DOMAIN now |-> Sides(now[b])])
    IN If(\A b \in DOMAIN st.cons : b \in DOMAIN now /\ sides[b] = Sides(st.cons[b]), "constraint-changed") \cup
       If(\A i \in 1..Len(cs) : cs[i].both, "constraint-literal") \cup
       If(Cardinality({sides[b] : b \in DOMAIN now}) = Cardinality(DOMAIN now), "constraint-not-shared")
RECURSIVE AddNew(_, _, _)
AddNew(st, new, i) == IF i > Len(new) THEN st
                      ELSE AddNew(AddCons(st, new[i].b, [v |-> new[i].v, c |-> new[i].c, p |-> new[i].p, r |-> new[i].r]), new, i + 1)

(* ---- comparison with a logged state ---------------------------------------- *)
LogVals(st) == [x \in {i \in 1..Len(st.bv) : st.bv[i] # ""} \cup {-i : i \in {j \in 1..Len(st.rv) : st.rv[j] # ""}} |->
                  IF x > 0 THEN st.bv[x] ELSE st.rv[-x]]
LogLevs(st) == [x \in {i \in 1..Len(st.bl) : st.bl[i] # -1} \cup {-i : i \in {j \in 1..Len(st.rl) : st.rl[j] # -1}} |->
                  IF x > 0 THEN st.bl[x] ELSE st.rl[-x]]
StateRules(st, log) ==
    LET v == LogVals(log)
        w == LogLevs(log)
    IN If(DOMAIN v = DOMAIN st.val, "assigned-set") \cup
       If(\A x \in DOMAIN v \cap DOMAIN st.val : v[x] = st.val[x], "value-changed") \cup
       If(DOMAIN w = DOMAIN v, "level-without-value") \cup
       If(\A x \in DOMAIN w \cap DOMAIN st.lev : w[x] = st.lev[x], "level-changed") \cup
       If(\A x \in DOMAIN v \cap DOMAIN st.val : x > 0 => Key(log.br[x]) = Key(st.rsn[x]), "reason-changed") \cup
       If(\A x \in 1..Len(log.bv) : log.bv[x] = "" => log.br[x] = <<>>, "reason-without-value") \cup
       If(log.dl = Dl(st), "decision-level-changed") \cup
       If(log.tr = st.lists, "trail-changed")
(* continue from what the solver really has *)
Adopt(st, log) ==
    LET v == LogVals(log) w == LogLevs(log) D == DOMAIN v \cap DOMAIN w
    IN [st EXCEPT !.val = [x \in D |-> v[x]], !.lev = [x \in D |-> w[x]],
                  !.rsn = [x \in D |-> IF x > 0 THEN log.br[x] ELSE <<>>],
                  !.lists = log.tr,
                  !.order = SelectSeq(@, LAMBDA x : x \in D) \o SetSeq(D \ Range(st.order))]

(* ---- bounds ------------------------------------------------------------------ *)
OneVar(x, p, r) == [v |-> <<x>>, c |-> <<ROne>>, p |-> p, r |-> r]
BoundRules(st, bd) ==
    LET K == TLCEval(KnownCons(st))
        one(x) ==
            LET b == bd[x]
                U == UnitCons(st, x)
                low == IF b.lb.v = "" THEN <<>> ELSE <<OneVar(x, IF b.lb.s THEN "gt" ELSE "geq", b.lb.v)>>
                upp == IF b.ub.v = "" THEN <<>> ELSE <<OneVar(x, IF b.ub.s THEN "lt" ELSE "leq", b.ub.v)>>
                \* U without disequalities
                convex == SelectSeq(U, LAMBDA c : c.p # "ne")
            IN If(\A i \in 1..Len(low) : Entails(K, low[i]), "lower-bound-unsound") \cup
               If(\A i \in 1..Len(upp) : Entails(K, upp[i]), "upper-bound-unsound") \cup
               If(\A i \in 1..Len(convex) :
                    LET c == convex[i]
                        q == RDiv(c.r, c.c[1])
                        up == c.p = "eq" \/ ((c.p \in {"lt", "leq"}) = (RSgn(c.c[1]) > 0))
                        dn == c.p = "eq" \/ ((c.p \in {"gt", "geq"}) = (RSgn(c.c[1]) > 0))
                        strict == c.p \in {"lt", "gt"}
                    IN /\ up => b.ub.v # "" /\ (RLt(b.ub.v, q) \/ (b.ub.v = q /\ (strict => b.ub.s)))
                       /\ dn => b.lb.v # "" /\ (RLt(q, b.lb.v) \/ (b.lb.v = q /\ (strict => b.lb.s))), "bound-missing") \cup
               \* values that the bounds and disequalities allow or exclude
               If(\A i \in 1..Len(b.ne) : ~b.ne[i].ok => ~Feasible(Append(K, OneVar(x, "eq", b.ne[i].v))), "excluded-value-unsound") \cup
               If(\A i \in 1..Len(b.ne) : b.ne[i].ok =>
                    \A j \in 1..Len(U) : Holds(U[j], x :> b.ne[i].v), "excluded-value-missing")
    IN IF bd = <<>> THEN {} ELSE UNION {one(x) : x \in FreeReals(st)}

(* ---- variable order ------------------------------------------------------------ *)
(* Scores are those of the order at the time of the choice. With prat the order   *)
(* may prefer any variable with a single possible value.                          *)
Score(ev, x) == IF x > 0 THEN IF x <= Len(ev.sc) THEN ev.sc[x] ELSE "0"
                ELSE IF -x <= Len(ev.rsc) THEN ev.rsc[-x] ELSE "0"
Unassigned(st) == {x \in 1..st.nb : ~Assigned(st, x)} \cup {-x : x \in FreeReals(st)}
(* the variable has one possible value: every real variable of the constraint is   *)
(* assigned, or both bounds coincide                                               *)
OnlyValue(st, bd, x) == x < 0 /\ bd # <<>> /\ bd[-x].lb.v # "" /\ bd[-x].lb.v = bd[-x].ub.v
OrderRules(st, ev) ==
    LET x == ev.x U == Unassigned(st)
    IN CASE T.order = "first"  -> IF T.logic = "prop" THEN If(\A y \in U : y >= x, "order-first") ELSE {}
         [] T.order = "rfirst" -> If(IF FreeReals(st) # {} THEN x = -(CHOOSE y \in FreeReals(st) : \A z \in FreeReals(st) : y <= z)
                                     ELSE \A y \in U : y >= x, "order-first")
         [] T.order = "vsids" /\ ev.full ->
               IF T.prat /\ OnlyValue(st, ev.bd, x) THEN {}
               ELSE If(\A y \in U : RLe(Score(ev, y), Score(ev, x)), "order-score") \cup
                    If(T.logic # "prop" \/ \A y \in U : y < x => RLt(Score(ev, y), Score(ev, x)), "order-tie")
         [] OTHER -> {}

(* ---- events --------------------------------------------------------------------- *)
EvCheck == Step("check") /\ UNCHANGED <<s, pend>>
EvInit ==
    /\ Step("init")
    /\ LET n == Start(Ev.nb, Ev.nr, Ev.cl, Ev.ln, ConsFun(Ev.cons), Ev.app, Keep(s, -1).cache)
       IN /\ Report(StateRules(n, Ev.st))
          /\ Report(KeptRules(s, Ev.cons))
          /\ Report(If(\A k \in Keys(s.asserted) : k \in Keys(Ev.cl), "asserted-lost"))
          /\ s' = TLCEval(Adopt(n, Ev.st))
    /\ pend' = -2
RECURSIVE PropAll(_, _, _)
PropAll(st, add, i) == IF i > Len(add) THEN st
                       ELSE PropAll(TLCEval(Propagate(st, add[i].x, add[i].v, add[i].l, add[i].r)), add, i + 1)
RECURSIVE PropAllRules(_, _, _)
PropAllRules(st, add, i) ==
    IF i > Len(add) THEN {}
    ELSE LET bad == TLCEval(PropagateRules(st, add[i].x, add[i].v, add[i].l, add[i].r))
         IN bad \cup IF bad \cap {"assigned-twice", "level-range", "no-value"} # {} THEN {"broken"}
                     ELSE PropAllRules(TLCEval(Propagate(st, add[i].x, add[i].v, add[i].l, add[i].r)), add, i + 1)
EvProp ==
    /\ Step("prop")
    /\ LET n == TLCEval(AddNew(s, Ev.new, 1))
           bad == TLCEval(PropAllRules(n, Ev.add, 1) \cup If(s.ph = "search", "propagation-out-of-place"))
       IN Report(bad) /\ IF "broken" \in bad THEN s' = s ELSE s' = TLCEval(PropAll(n, Ev.add, 1))
    /\ pend' = pend
EvConfl ==
    /\ Step("confl")
    /\ Report(ConflictRules(s, Ev.cl))
    /\ s' = TLCEval(Conflict(s, Ev.cl)) /\ pend' = pend
EvFix == Step("fix") /\ Report(If((Ev.n > 0) = (s.ph = "conflict"), "conflict-dropped")) /\ UNCHANGED <<s, pend>>
EvRes == Step("res") /\ Report(ResolveRules(s, Ev.c)) /\ UNCHANGED <<s, pend>>
EvLearn == Step("learn") /\ Report(LearnRules(s, Ev.c)) /\ s' = TLCEval(Learn(s, Ev.c)) /\ pend' = pend
EvAsk == Step("ask") /\ Report(AskRules(s)) /\ s' = Ask(s, Ev.r) /\ pend' = pend
(* a restart announces a backjump to level 0 first *)
EvBack ==
    /\ Step("back")
    /\ IF s.asked THEN Report(RestartRules(s)) ELSE Report(BackRules(s, Ev.to))
    /\ pend' = Ev.to /\ s' = s
EvRestart ==
    /\ Step("restart")
    /\ Report(RestartRules(s) \cup RestartDbRules(s, Ev.cl, Ev.ln))
    /\ s' = TLCEval(Restart(s, Ev.cl, Ev.ln)) /\ pend' = -1
Sane(st) == st.lrn # <<>> /\ \A i \in 1..Len(st.lrn) : st.lrn[i] # <<>> /\ FalseClause(st, st.lrn[i])
EvResume ==
    /\ Step("resume")
    /\ pend' = -2
    /\ IF pend = -1 THEN Report(StateRules(s, Ev.st)) /\ s' = TLCEval(Adopt(s, Ev.st))
       ELSE IF pend < 0 \/ ~Sane(s) \/ pend > Dl(s)
            THEN Report({"backjump-out-of-place"}) /\ s' = TLCEval([Adopt(s, Ev.st) EXCEPT !.ph = "search"])
       ELSE IF IsSplit(s, s.lrn[1])
       THEN LET k == Keep(s, pend)
                last == Ev.st.tr[Len(Ev.st.tr)]
                lit == IF last # <<>> /\ last[1] > 0 /\ last[1] <= Len(Ev.st.bv) /\ Ev.st.bv[last[1]] # ""
                       THEN IF Ev.st.bv[last[1]] = "1" THEN last[1] ELSE -last[1] ELSE 0
            IN IF lit # 0 /\ lit \in SplitLits(s)
               THEN LET n == TLCEval(BackSplit(s, pend, lit))
                    IN Report(If(~Assigned(k, Abs(lit)), "no-progress") \cup StateRules(n, Ev.st)) /\ s' = TLCEval(Adopt(n, Ev.st))
               ELSE Report({"split-not-decided"}) /\ s' = TLCEval([Adopt(Keep(s, pend), Ev.st) EXCEPT !.ph = "search"])
       ELSE LET n == TLCEval(BackUip(s, pend))
            IN Report(BackUipRules(s, pend) \cup StateRules(n, Ev.st)) /\ s' = TLCEval(Adopt(n, Ev.st))
(* the driver undoes some levels in place of a decision or instead of analysing a conflict *)
EvJump ==
    /\ Step("jump")
    /\ LET n == TLCEval([Keep(s, Ev.to) EXCEPT !.ph = "search", !.confl = <<>>, !.pick = 0])
       IN Report(StateRules(n, Ev.st)) /\ s' = TLCEval(Adopt(n, Ev.st))
    /\ pend' = pend
EvPick ==
    /\ Step("pick")
    /\ LET bad == IF Ev.full THEN StateRules(s, Ev.st) ELSE {}
           n == IF bad = {} THEN s ELSE TLCEval(Adopt(s, Ev.st))
       IN /\ Report(bad \cup PickRules(n, Ev.x) \cup BoundRules(n, Ev.bd) \cup OrderRules(n, Ev))
          /\ s' = TLCEval(Pick(n, Ev.x))
    /\ pend' = pend
EvDec ==
    /\ Step("dec")
    /\ pend' = pend
    /\ LET n == TLCEval(AddNew(s, Ev.new, 1))
       IN IF Len(Ev.add) # 1 THEN Report({"decision-count"}) /\ s' = n
          ELSE LET a == Ev.add[1]
                   bad == DecideRules(n, a.x, a.v, a.l, IF T.flip THEN "any" ELSE T.phase) \cup If(a.r = <<>>, "decision-with-reason")
                          \cup If(Ev.dl = Dl(n) + 1, "decision-level")
               IN Report(bad) /\ IF Assigned(n, a.x) THEN s' = n ELSE s' = TLCEval(Decide(n, a.x, a.v))
EvSat ==
    /\ Step("sat")
    /\ Report(KeptRules(s, Ev.cons) \cup StateRules(s, Ev.st) \cup SatRules(s) \cup
              If(\A i \in 1..Len(Ev.fm) : <<Ev.fm[i].f, Ev.fm[i].a, Ev.fm[i].r>> \in
                    {<<t[1], t[2], IF t[3] \in {"true", "false"} THEN t[3] ELSE t[3]>> : t \in FunctionTable(s)}, "function-model"))
    /\ UNCHANGED <<s, pend>>
(* assertions which simplify to false are answered without a search *)
Trivial == l > 1 /\ T.ev[l - 1].e = "check"
EvUnsat == Step("unsat") /\ Report(IF Trivial THEN {} ELSE KeptRules(s, Ev.cons) \cup UnsatRules(s)) /\ UNCHANGED <<s, pend>>
EvBad == /\ More /\ Ev.e \in {"none", "stuck", "crash", "timeout", "error"} /\ l' = l + 1 /\ tid' = tid
         /\ Report({"end-" \o Ev.e}) /\ UNCHANGED <<s, pend>>
Next == EvCheck \/ EvInit \/ EvProp \/ EvConfl \/ EvFix \/ EvRes \/ EvLearn \/ EvAsk \/ EvBack \/ EvRestart
        \/ EvResume \/ EvJump \/ EvPick \/ EvDec \/ EvSat \/ EvUnsat \/ EvBad
View == <<tid, l>>
Post == PrintT(<<"DONE", TLCGet("stats").distinct>>)
=============================================================================
