------------------------------- MODULE McsatMC -------------------------------
(* All searches that break no rule of Mcsat, for small problems. The rules are  *)
(* what McsatTrace checks on the real solver; here they are shown to be enough: *)
(* every search which keeps them has a consistent assignment at every moment,   *)
(* derives only consequences, never gets stuck, ends, and ends with the right   *)
(* answer.                                                                      *)
EXTENDS Mcsat
CONSTANTS Problems,     \* indices into P
          MaxRestarts,
          MaxLearn,     \* clauses learned from one conflict
          Strict,       \* conflicts are reported as soon as there is one
          Off           \* rules which may be broken, to show that they are needed
VARIABLES pid, s, restarts
vars == <<pid, s, restarts>>

(* ---- problems ----------------------------------------------------------------- *)
C(v, c, p, r) == [v |-> v, c |-> c, p |-> p, r |-> r]
R(v, c, k) == [s |-> "R", v |-> v, c |-> c, k |-> k]
B(l) == [s |-> "B", l |-> l]
Prop(n, cls) == [nb |-> n, nr |-> 0, cls |-> cls, cons |-> <<>>, apps |-> <<>>]
P == <<
  \* 1..4: propositional
  Prop(2, <<<<1, 2>>, <<1, -2>>, <<-1, 2>>, <<-1, -2>>>>),
  Prop(3, <<<<1, 2, 3>>, <<-1, 2>>, <<-2, 3>>, <<-3, 1>>>>),
  Prop(3, <<<<1, 2>>, <<-1, 3>>, <<-2, 3>>, <<-3, 1>>, <<-3, -1, 2>>, <<-1, -2>>>>),
  Prop(3, <<<<1, 2, 3>>, <<1, 2, -3>>, <<1, -2>>, <<-1, 2, 3>>, <<-1, -3>>>>),
  \* 5: x < 0 or x > 1, x >= 0, x <= 1 or x = 2
  [nb |-> 4, nr |-> 1, cls |-> <<<<1, 2>>, <<-1>>, <<-2, 3>>, <<4, 3>>>>,
   cons |-> (1 :> C(<<1>>, <<"1">>, "lt", "0")) @@ (2 :> C(<<1>>, <<"1">>, "gt", "1"))
            @@ (3 :> C(<<1>>, <<"1">>, "eq", "2")) @@ (4 :> C(<<1>>, <<"1">>, "leq", "1")),
   apps |-> <<>>],
  \* 6: x < y, y < 1 or p; the basis has x < 1 and y <= 1, which explain every conflict
  [nb |-> 5, nr |-> 2, cls |-> <<<<1>>, <<2, 4>>, <<-4, -2>>>>,
   cons |-> (1 :> C(<<1, 2>>, <<"1", "-1">>, "lt", "0")) @@ (2 :> C(<<2>>, <<"1">>, "lt", "1"))
            @@ (3 :> C(<<1>>, <<"1">>, "lt", "1")) @@ (5 :> C(<<2>>, <<"1">>, "leq", "1")),
   apps |-> <<>>],
  \* 7: x <= y, y <= x, q(x) and not q(y); equality x = y is in the basis
  [nb |-> 5, nr |-> 2, cls |-> <<<<1>>, <<2, 4>>, <<4>>, <<-5, 2>>>>,
   cons |-> (1 :> C(<<1, 2>>, <<"1", "-1">>, "leq", "0")) @@ (2 :> C(<<1, 2>>, <<"1", "-1">>, "geq", "0"))
            @@ (3 :> C(<<1, 2>>, <<"1", "-1">>, "eq", "0")),
   apps |-> <<[f |-> "q", a |-> <<R(<<1>>, <<"1">>, "0")>>, r |-> B(4)], [f |-> "q", a |-> <<R(<<2>>, <<"1">>, "0")>>, r |-> B(5)]>>],
  \* 8: 0 < x < 1 and x # 1/2 against 2x = 1 or x >= 1
  [nb |-> 4, nr |-> 1, cls |-> <<<<1>>, <<2>>, <<3, -2>>, <<4>>>>,
   cons |-> (1 :> C(<<1>>, <<"1">>, "gt", "0")) @@ (2 :> C(<<1>>, <<"1">>, "lt", "1"))
            @@ (3 :> C(<<1>>, <<"2">>, "eq", "1")) @@ (4 :> C(<<1>>, <<"2">>, "ne", "1")),
   apps |-> <<>>]
>>
Pr == P[pid]

(* ---- meaning -------------------------------------------------------------------- *)
(* sets of literals, one for each variable, that have a model in the theory *)
Total(n) == {{IF b \in S THEN b ELSE -b : b \in 1..n} : S \in SUBSET (1..n)}
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : TRUE IN <<e>> \o AsSeq(S \ {e})
TheoryModels(p) == {A \in Total(P[p].nb) : ~TheoryValid(P[p].cons, P[p].apps, AsSeq({-l : l \in A}))}
Models == TLCEval([p \in Problems |-> {A \in TheoryModels(p) : \A i \in 1..Len(P[p].cls) : Range(P[p].cls[i]) \cap A # {}}])
Lemmas == TLCEval([p \in Problems |-> LET L == (1..P[p].nb) \cup {-b : b \in 1..P[p].nb}
             IN {c \in {AsSeq(S) : S \in {S \in SUBSET L : S # {} /\ Cardinality(S) <= 3 /\ \A l \in S : -l \notin S}} :
                   TheoryValid(P[p].cons, P[p].apps, c) /\ DOMAIN P[p].cons # {}}])

(* ---- searches --------------------------------------------------------------------- *)
Init == pid \in Problems /\ restarts = 0 /\ s = Start(P[pid].nb, P[pid].nr, P[pid].cls, <<>>, P[pid].cons, P[pid].apps, <<>>)
Ok(rules) == rules \subseteq Off
Do(t) == s' = TLCEval([t EXCEPT !.cache = <<>>, !.since = 0, !.asked = IF t.ph = "asked" THEN @ ELSE FALSE]) /\ UNCHANGED pid
Searching == s.ph = "search" /\ s.pick = 0
FalseNow == {c \in Clauses(s) \cup Lemmas[pid] : FalseClause(s, c)}

(* candidates for a step; most of them break a rule *)
Propagations == {x \in 1..s.nb : ~Assigned(s, x)} \X {"0", "1"} \X (0..Dl(s)) \X (Clauses(s) \cup {<<>>})
Small == {c \in {<<l>> : l \in (1..s.nb) \cup {-b : b \in 1..s.nb}} : Assigned(s, Abs(c[1]))}
DoPropagate == /\ Searching /\ (Strict => FalseNow = {})
               /\ \E a \in Propagations : Ok(PropagateRules(s, a[1], a[2], a[3], a[4])) /\ Do(Propagate(s, a[1], a[2], a[3], a[4]))
               /\ UNCHANGED restarts
DoConflict == /\ Searching
              /\ \E c \in {c \in Clauses(s) \cup Lemmas[pid] \cup Small : \A i \in 1..Len(c) : Assigned(s, Abs(c[i]))} : Ok(ConflictRules(s, <<c>>)) /\ Do(Conflict(s, <<c>>))
              /\ UNCHANGED restarts
(* literals of c, those of the top level first *)
RECURSIVE ByLevel(_)
ByLevel(S) == IF S = {} THEN <<>>
              ELSE LET l == CHOOSE l \in S : \A m \in S : LitLevel(s, m) <= LitLevel(s, l) IN <<l>> \o ByLevel(S \ {l})
Reverse(c) == [i \in 1..Len(c) |-> c[Len(c) + 1 - i]]
Known == {x \in DOMAIN s.val : x > 0}
Candidates == {{-LitOf(s, x) : x \in X} : X \in SUBSET Known} \cup {{LitOf(s, x)} : x \in Known}
DoLearn == /\ s.ph = "conflict" /\ Len(s.lrn) < MaxLearn
           /\ \E S \in Candidates : \E c \in {ByLevel(S), Reverse(ByLevel(S))} :
                Ok(LearnRules(s, c)) /\ Do([Learn(s, c) EXCEPT !.learned = AsSeq(Range(s.learned) \cup {c})])
           /\ UNCHANGED restarts
DoAsk == /\ Ok(AskRules(s))
         /\ \E a \in BOOLEAN : (a => restarts < MaxRestarts) /\ Do(Ask(s, a))
         /\ UNCHANGED restarts
DoBack == /\ s.ph = "asked"
          /\ \E to \in 0..Dl(s) :
               /\ Ok(BackRules(s, to))
               /\ IF IsSplit(s, s.lrn[1])
                  THEN \E l \in SplitLits(s) : ~Assigned(Keep(s, to), Abs(l)) /\ Do(BackSplit(s, to, l))
                  ELSE Ok(BackUipRules(s, to)) /\ Do(BackUip(s, to))
          /\ UNCHANGED restarts
DoRestart == /\ Ok(RestartRules(s)) /\ restarts' = restarts + 1
             /\ \E D \in {Range(s.learned)} \cup {Range(s.learned) \ {c} : c \in Range(s.learned)} :
                  Ok(RestartDbRules(s, s.asserted, AsSeq(D))) /\ Do(Restart(s, s.asserted, AsSeq(D)))
DoPick == /\ Searching /\ \E x \in (1..s.nb) \cup {-y : y \in 1..s.nr} : Ok(PickRules(s, x)) /\ Do(Pick(s, x))
          /\ UNCHANGED restarts
(* enough values for every nonempty interval with holes *)
Values(x) == LET U == UnitCons(s, x)
                 Q == {RDiv(U[i].r, U[i].c[1]) : i \in 1..Len(U)}
             IN {"0"} \cup Q \cup {RAdd(q, "1") : q \in Q} \cup {RSub(q, "1") : q \in Q} \cup {RDiv(RAdd(q, r), "2") : q, r \in Q}
DoDecide == /\ s.ph = "search" /\ s.pick # 0
            /\ \E v \in IF s.pick > 0 THEN {"0", "1"} ELSE Values(-s.pick) :
                 Ok(DecideRules(s, s.pick, v, Dl(s) + 1, "any")) /\ Do(Decide(s, s.pick, v))
            /\ UNCHANGED restarts
DoSat == Searching /\ Ok(SatRules(s)) /\ Do([s EXCEPT !.ph = "sat"]) /\ UNCHANGED restarts
DoUnsat == Ok(UnsatRules(s)) /\ Do([s EXCEPT !.ph = "unsat"]) /\ UNCHANGED restarts
Done == s.ph \in {"sat", "unsat"} /\ UNCHANGED vars
Next == DoPropagate \/ DoConflict \/ DoLearn \/ DoAsk \/ DoBack \/ DoRestart \/ DoPick \/ DoDecide \/ DoSat \/ DoUnsat \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* the order in which variables of a level were assigned does not matter *)
View == <<pid, restarts, s.val, s.lev, s.rsn, Range(s.learned), s.ph, s.confl, s.lrn, s.asked, s.pick,
          [i \in DOMAIN s.lists |-> <<IF i = 1 THEN 0 ELSE s.lists[i][1], Range(s.lists[i])>>]>>

(* ---- properties ---------------------------------------------------------------------- *)
(* C06: one value, level and reason each, levels agree with the lists *)
TrailOk == /\ DOMAIN s.val = DOMAIN s.lev /\ DOMAIN s.val = DOMAIN s.rsn /\ DOMAIN s.val = Range(s.order)
           /\ Len(s.order) = Cardinality(DOMAIN s.val)
           /\ DOMAIN s.val = UNION {Range(s.lists[i]) : i \in DOMAIN s.lists}
           /\ \A x \in DOMAIN s.val : s.lev[x] \in 0..Dl(s) /\ x \in Range(s.lists[s.lev[x] + 1])
           /\ \A i \in 2..Len(s.lists) : s.lists[i] # <<>> /\ s.rsn[s.lists[i][1]] = <<>>
(* C07: a reason forces its literal *)
ReasonsOk == \A x \in {x \in DOMAIN s.val : s.rsn[x] # <<>>} :
                LET l == LitOf(s, x) r == s.rsn[x]
                IN l \in Range(r) /\ \A m \in Range(r) \ {l} : False(s, m) /\ LitLevel(s, m) <= s.lev[x]
(* values of constraints agree with values of real variables *)
ConstraintsOk == s.ph = "sat" => \A b \in ActiveCons(s) : (s.val[b] = "1") = ConsValue(s, s.cons[b])
(* C09, C10, C11: nothing that is learned excludes a model *)
LearnedImplied == \A A \in Models[pid] : \A i \in 1..Len(s.learned) : Range(s.learned[i]) \cap A # {}
ReasonsImplied == \A x \in DOMAIN s.rsn : s.rsn[x] = <<>> \/ \A A \in Models[pid] : Range(s.rsn[x]) \cap A # {}
(* C01, C02, C03: the answer is right *)
SatRight == s.ph = "sat" => {LitOf(s, x) : x \in 1..s.nb} \in Models[pid]
UnsatRight == s.ph = "unsat" => Models[pid] = {}
(* C13: a conflict adds a clause, or the search goes on differently *)
Ends == <>(s.ph \in {"sat", "unsat"})
=============================================================================
