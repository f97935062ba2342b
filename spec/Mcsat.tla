-------------------------------- MODULE Mcsat --------------------------------
(* The search of yaga: conflict-driven search which assigns Boolean and real   *)
(* variables (MCSat). The state is one record s:                               *)
(*   cons, apps   meaning of Boolean variables and functions (see Theory)       *)
(*   nb, nr       numbers of Boolean and real variables                         *)
(*   asserted, learned    sequences of clauses; a clause is a sequence of       *)
(*                literals                                                      *)
(*   val, lev, rsn    value, level and reason (<<>> if none) of each assigned   *)
(*                variable; Booleans are 1.., real variables are -1, -2, ..     *)
(*   lists        lists[l+1] = variables listed at decision level l             *)
(*   order        assigned variables in the order of assignment                 *)
(*   ph           what the search is doing                                      *)
(*   confl        conflict clauses found by the last propagation                *)
(*   lrn          clauses learned from them                                     *)
(*   cache        last value of each Boolean variable before it was undone      *)
(*   asked        last answer of the restart policy                             *)
(*   pick         variable chosen by the order                                  *)
(*                                                                             *)
(* For every step there is an operator *Rules that gives the names of the       *)
(* rules the step breaks in state s, and an operator *Next that gives the       *)
(* state after it. McsatMC explores all steps which break no rule; McsatTrace   *)
(* checks that the steps of the real solver break none.                         *)
EXTENDS Theory, TLC

Range(f) == {f[i] : i \in DOMAIN f}
If(b, rule) == IF b THEN {} ELSE {rule}
Max(S) == CHOOSE m \in S : \A i \in S : i <= m
MaxOr(S, d) == IF S = {} THEN d ELSE Max(S)

(* ---- literals and clauses ------------------------------------------------- *)
Dl(s) == Len(s.lists) - 1
Assigned(s, x) == x \in DOMAIN s.val
LitVal(l) == IF l > 0 THEN "1" ELSE "0"
True(s, l)  == Assigned(s, Abs(l)) /\ s.val[Abs(l)] = LitVal(l)
False(s, l) == Assigned(s, Abs(l)) /\ s.val[Abs(l)] # LitVal(l)
LitOf(s, x) == IF s.val[x] = "1" THEN x ELSE -x
LitLevel(s, l) == s.lev[Abs(l)]
Key(c) == <<Range(c), Len(c)>>          \* clauses up to the order of literals
Keys(cs) == {Key(cs[i]) : i \in 1..Len(cs)}
InDb(s, c) == \E i \in 1..Len(s.asserted) : Range(s.asserted[i]) = Range(c)
              \/ \E j \in 1..Len(s.learned) : Range(s.learned[j]) = Range(c)
FalseClause(s, c) == \A i \in 1..Len(c) : False(s, c[i])
UnitClause(s, c) == /\ \A i \in 1..Len(c) : ~True(s, c[i])
                    /\ Cardinality({i \in 1..Len(c) : ~Assigned(s, Abs(c[i]))}) = 1
TopLevel(s, c) == MaxOr({LitLevel(s, c[i]) : i \in 1..Len(c)}, 0)
TopLits(s, c) == {i \in 1..Len(c) : LitLevel(s, c[i]) = TopLevel(s, c)}
SecondLevel(s, c) == MaxOr({LitLevel(s, c[i]) : i \in 1..Len(c)} \ {TopLevel(s, c)}, 0)
IsSplit(s, c) == Cardinality(TopLits(s, c)) >= 2
(* the level from which the search continues after learning c *)
BackLevel(s, c) == IF IsSplit(s, c) THEN TopLevel(s, c) - 1 ELSE SecondLevel(s, c)

(* ---- linear constraints ---------------------------------------------------- *)
RealVal(s) == [x \in {-y : y \in {z \in DOMAIN s.val : z < 0}} |-> s.val[-x]]
ConsVars(c) == {-c.v[i] : i \in 1..Len(c.v)}
Evaluated(s, c) == \A x \in ConsVars(c) : Assigned(s, x)
ConsValue(s, c) == Holds(c, RealVal(s))
ConsLevel(s, c) == MaxOr({s.lev[x] : x \in ConsVars(c)}, 0)
(* constraints with the truth value given by the Boolean assignment *)
ActiveCons(s) == {b \in DOMAIN s.cons : Assigned(s, b)}
Active(s, b) == IF s.val[b] = "1" THEN s.cons[b] ELSE NegCons(s.cons[b])
FixVar(x, v) == [v |-> <<x>>, c |-> <<ROne>>, p |-> "eq", r |-> v]
(* the part of c that remains when the assigned variables are replaced *)
Subst(s, c) ==
    LET idx == {i \in 1..Len(c.v) : ~Assigned(s, -c.v[i])}
        R[i \in 0..Len(c.v)] == IF i = 0 THEN c.r
                                ELSE IF i \in idx THEN R[i - 1]
                                ELSE RSub(R[i - 1], RMul(c.c[i], s.val[-c.v[i]]))
        V[i \in 0..Len(c.v)] == IF i = 0 THEN <<>> ELSE IF i \in idx THEN Append(V[i - 1], i) ELSE V[i - 1]
        is == V[Len(c.v)]
    IN [v |-> [k \in 1..Len(is) |-> c.v[is[k]]], c |-> [k \in 1..Len(is) |-> c.c[is[k]]], p |-> c.p, r |-> R[Len(c.v)]]
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : TRUE IN <<e>> \o SetSeq(S \ {e})
(* constraints which are true and restrict only variable x (an element of 1..nr) *)
UnitCons(s, x) == LET B == {b \in ActiveCons(s) : /\ -x \in ConsVars(s.cons[b])
                                                  /\ \A y \in ConsVars(s.cons[b]) : y = -x \/ Assigned(s, y)}
                  IN SetSeq({Subst(s, Active(s, b)) : b \in B})
(* everything that is known: true constraints and values of real variables *)
KnownCons(s) == SetSeq({Subst(s, Active(s, b)) : b \in ActiveCons(s)})
FreeReals(s) == {x \in 1..s.nr : ~Assigned(s, -x)}

(* ---- functions -------------------------------------------------------------- *)
ArgKnown(s, a) == CASE a.s \in {"T", "F"} -> TRUE
                    [] a.s = "B" -> Assigned(s, Abs(a.l))
                    [] a.s = "R" -> \A i \in 1..Len(a.v) : Assigned(s, -a.v[i])
                    [] OTHER -> FALSE
ArgValue(s, a) == CASE a.s = "T" -> "true" [] a.s = "F" -> "false"
                    [] a.s = "B" -> IF True(s, a.l) THEN "true" ELSE "false"
                    [] a.s = "R" -> RAdd(a.k, Lin(a.v, a.c, RealVal(s)))
ArgsKnown(s, x) == \A i \in 1..Len(x.a) : ArgKnown(s, x.a[i])
ArgValues(s, x) == [i \in 1..Len(x.a) |-> ArgValue(s, x.a[i])]
KnownApps(s) == {i \in 1..Len(s.apps) : ArgsKnown(s, s.apps[i]) /\ ArgKnown(s, s.apps[i].r)}
AppRow(s, i) == <<s.apps[i].f, ArgValues(s, s.apps[i]), ArgValue(s, s.apps[i].r)>>
FunctionTable(s) == {AppRow(s, i) : i \in KnownApps(s)}
Functional(s) == LET T == TLCEval(FunctionTable(s))
                 IN \A a, b \in T : (a[1] = b[1] /\ a[2] = b[2]) => a[3] = b[3]

(* ---- nothing is left to propagate -------------------------------------------- *)
Clauses(s) == Range(s.asserted) \cup Range(s.learned)
IncompleteRules(s) ==
    If(\A c \in Clauses(s) : ~FalseClause(s, c), "clause-false") \cup
    If(\A c \in Clauses(s) : ~UnitClause(s, c), "clause-unit") \cup
    If(\A b \in DOMAIN s.cons : Evaluated(s, s.cons[b]) => Assigned(s, b), "constraint-missing") \cup
    If(\A b \in ActiveCons(s) : Evaluated(s, s.cons[b]) => ((s.val[b] = "1") = ConsValue(s, s.cons[b])), "constraint-wrong") \cup
    If(\A x \in FreeReals(s) : Feasible(UnitCons(s, x)), "interval-empty") \cup
    If(Functional(s), "congruence")

(* ---- derivation of clauses ----------------------------------------------------- *)
(* literals implied by A and the reasons recorded on the trail *)
RECURSIVE TrailClosure(_, _, _)
TrailClosure(s, i, A) ==
    IF i > Len(s.order) THEN A
    ELSE LET x == s.order[i]
         IN IF x < 0 THEN TrailClosure(s, i + 1, A)
            ELSE LET r == s.rsn[x]
                     l == LitOf(s, x)
                     known == IF r = <<>> THEN x \in DOMAIN s.cons /\ s.cons[x].v = <<>>
                              ELSE \A j \in 1..Len(r) : r[j] = l \/ -r[j] \in A
                 IN TrailClosure(s, i + 1, IF known THEN A \cup {l} ELSE A)
(* c follows by resolving one of the clauses in cs with reasons *)
Derivable(s, c, cs) ==
    LET A == TLCEval(TrailClosure(s, 1, {-c[i] : i \in 1..Len(c)}))
    IN \E k \in 1..Len(cs) : \A i \in 1..Len(cs[k]) : -cs[k][i] \in A

(* ---- steps ---------------------------------------------------------------------- *)
Start(nb, nr, asserted, learned, cons, apps, cache) ==
    [nb |-> nb, nr |-> nr, cons |-> cons, apps |-> apps, asserted |-> asserted, learned |-> learned,
     val |-> <<>>, lev |-> <<>>, rsn |-> <<>>, lists |-> <<<<>>>>, order |-> <<>>, ph |-> "search",
     confl |-> <<>>, lrn |-> <<>>, cache |-> cache, asked |-> FALSE, pick |-> 0, since |-> 0]

(* put variable x with value v into the lists of levels l .. Dl *)
Assign(s, x, v, l, r) ==
    [s EXCEPT !.val = (x :> v) @@ @, !.lev = (x :> l) @@ @, !.rsn = (x :> r) @@ @,
              !.order = Append(@, x),
              !.lists = [i \in DOMAIN @ |-> IF i >= l + 1 THEN Append(@[i], x) ELSE @[i]]]
(* a new constraint is given a Boolean variable *)
AddCons(s, b, c) == [s EXCEPT !.cons = (b :> c) @@ @, !.nb = IF b > @ THEN b ELSE @]

OtherLits(r, l) == {r[i] : i \in {j \in 1..Len(r) : r[j] # l}}
PropagateRules(s, x, v, l, r) ==
    IF Assigned(s, x) THEN {"assigned-twice"}
    ELSE IF x < 0 THEN {"real-propagated"}
    ELSE IF ~(l \in 0..Dl(s)) THEN {"level-range"}
    ELSE IF ~(v \in {"0", "1"}) THEN {"no-value"}
    ELSE LET L == IF v = "1" THEN x ELSE -x
         IN IF r # <<>>
            THEN LET others == OtherLits(r, L)
                 IN IF ~(L \in Range(r)) THEN {"reason-without-literal"}
                    ELSE IF ~(\A o \in others : False(s, o)) THEN {"reason-not-unit"}
                    ELSE If(l = MaxOr({LitLevel(s, o) : o \in others}, 0), "propagation-level") \cup
                         If(InDb(s, r) \/ TheoryValid(s.cons, s.apps, r), "reason-invalid")
            ELSE IF ~(x \in DOMAIN s.cons) THEN {"no-reason"}
            ELSE IF ~Evaluated(s, s.cons[x]) THEN {"no-reason"}
            ELSE If((v = "1") = ConsValue(s, s.cons[x]), "constraint-value") \cup
                 If(l = ConsLevel(s, s.cons[x]), "constraint-level")
Propagate(s, x, v, l, r) == Assign(s, x, v, l, r)

ConflictClauseRules(s, c) ==
    If(FalseClause(s, c), "conflict-not-false") \cup
    If(InDb(s, c) \/ TheoryValid(s.cons, s.apps, c), "conflict-invalid")
ConflictRules(s, cs) ==
    If(s.ph = "search", "conflict-out-of-place") \cup
    If(Len(cs) > 0, "conflict-none") \cup
    UNION {ConflictClauseRules(s, cs[i]) : i \in 1..Len(cs)}
Conflict(s, cs) == [s EXCEPT !.confl = cs, !.ph = "conflict", !.lrn = <<>>]

(* an intermediate resolution uses the reason of an assigned literal *)
ResolveRules(s, r) ==
    If(s.ph = "conflict" /\ \E x \in DOMAIN s.rsn : s.rsn[x] # <<>> /\ Range(s.rsn[x]) = Range(r), "resolved-with-non-reason")

LearnRules(s, c) ==
    IF s.ph # "conflict" THEN {"learned-out-of-place"}
    ELSE IF ~FalseClause(s, c) THEN {"learned-not-false"}
    ELSE If(Len(c) > 0, "learned-empty") \cup
         If(Len(c) > 0 => TopLevel(s, c) > 0, "learned-false-for-ever") \cup
         If(Derivable(s, c, s.confl), "learned-not-implied") \cup
         If(c # <<>> => LitLevel(s, c[1]) = TopLevel(s, c) /\ (Len(c) > 1 => LitLevel(s, c[2]) = MaxOr({LitLevel(s, c[i]) : i \in 2..Len(c)}, 0)),
            "learned-order") \cup
         If(IsSplit(s, c) => \A i \in TopLits(s, c) : s.rsn[Abs(c[i])] = <<>>, "learned-top-literals") \cup
         If(\A i \in 1..Len(s.lrn) : IsSplit(s, s.lrn[i]) = IsSplit(s, c) /\ BackLevel(s, s.lrn[i]) = BackLevel(s, c), "learned-mixed")
Learn(s, c) == [s EXCEPT !.learned = Append(@, c), !.lrn = Append(@, c), !.since = @ + 1]

AskRules(s) == If(s.ph = "conflict" /\ s.lrn # <<>>, "restart-asked-out-of-place")
Ask(s, a) == [s EXCEPT !.asked = a, !.ph = "asked"]

(* -- backjump. The first list entry of a level is its decision. *)
BackRules(s, to) ==
    IF s.ph # "asked" THEN {"backjump-out-of-place"}
    ELSE If(~s.asked, "restart-ignored") \cup
         If(\A i \in 1..Len(s.lrn) : to >= SecondLevel(s, s.lrn[i]), "backjump-too-far") \cup
         If(to >= 0 /\ \A i \in 1..Len(s.lrn) : to < TopLevel(s, s.lrn[i]), "backjump-too-short") \cup
         If(\A i \in 1..Len(s.lrn) : IsSplit(s, s.lrn[i]) => to = TopLevel(s, s.lrn[i]) - 1 /\ s.lists[to + 2][1] < 0, "split-level")
Keep(s, to) ==
    LET K == {x \in DOMAIN s.val : s.lev[x] <= to}
        undone == {x \in DOMAIN s.val : x > 0 /\ \E i \in (to + 2)..Len(s.lists) : x \in Range(s.lists[i])}
    IN [s EXCEPT !.val = [x \in K |-> @[x]], !.lev = [x \in K |-> @[x]], !.rsn = [x \in K |-> @[x]],
                 !.lists = SubSeq(@, 1, to + 1), !.order = SelectSeq(@, LAMBDA x : x \in K),
                 !.cache = [x \in undone |-> s.val[x]] @@ @]
(* forced literals of the learned clauses, in turn *)
RECURSIVE AssertLearned(_, _, _)
AssertLearned(s, cs, to) ==
    IF cs = <<>> THEN s
    ELSE AssertLearned(IF Assigned(s, Abs(Head(cs)[1])) THEN s
                       ELSE Assign(s, Abs(Head(cs)[1]), LitVal(Head(cs)[1]), to, Head(cs)), Tail(cs), to)
DecideVar(s, x, v) ==
    [s EXCEPT !.val = (x :> v) @@ @, !.lev = (x :> Dl(s) + 1) @@ @, !.rsn = (x :> <<>>) @@ @,
              !.order = Append(@, x), !.lists = Append(@, <<x>>)]
BackUip(s, to) == [AssertLearned(Keep(s, to), s.lrn, to) EXCEPT !.ph = "search", !.confl = <<>>]
(* literals of which one is decided after undoing a real decision *)
SplitLits(s) == {c[i] : c \in {s.lrn[1]}, i \in TopLits(s, s.lrn[1])}
BackSplit(s, to, l) == [DecideVar(Keep(s, to), Abs(l), LitVal(l)) EXCEPT !.ph = "search", !.confl = <<>>]
(* each forced literal is justified, and something is gained *)
RECURSIVE AssertRules(_, _, _)
AssertRules(s, cs, to) ==
    IF cs = <<>> THEN {}
    ELSE LET c == Head(cs)
             x == Abs(c[1])
         IN IF Assigned(s, x) THEN AssertRules(s, Tail(cs), to)
            ELSE If(\A i \in 2..Len(c) : False(s, c[i]), "learned-not-unit") \cup
                 (IF \A i \in 2..Len(c) : False(s, c[i])
                  THEN If(to = MaxOr({LitLevel(s, c[i]) : i \in 2..Len(c)}, 0), "learned-level") ELSE {}) \cup
                 AssertRules(Assign(s, x, LitVal(c[1]), to, c), Tail(cs), to)
BackUipRules(s, to) ==
    LET k == Keep(s, to)
    IN AssertRules(k, s.lrn, to) \cup If(\E i \in 1..Len(s.lrn) : ~Assigned(k, Abs(s.lrn[i][1])), "no-progress")

(* -- restart: everything is undone; learned clauses which contain another      *)
(*    learned clause may be removed                                             *)
RestartRules(s) == If(s.ph = "asked" /\ s.asked, "restart-not-asked")
RestartDbRules(s, asserted, learned) ==
    If(\A k \in Keys(s.asserted) \cup Keys(asserted) :
          Cardinality({i \in 1..Len(s.asserted) : Key(s.asserted[i]) = k}) = Cardinality({i \in 1..Len(asserted) : Key(asserted[i]) = k}),
       "asserted-changed") \cup
    If(Keys(learned) \subseteq Keys(s.learned), "learned-changed") \cup
    If(\A i \in 1..Len(s.learned) : \E j \in 1..Len(learned) : Range(learned[j]) \subseteq Range(s.learned[i]), "learned-lost")
Restart(s, asserted, learned) ==
    [Keep(s, 0) EXCEPT !.val = <<>>, !.lev = <<>>, !.rsn = <<>>, !.lists = <<<<>>>>, !.order = <<>>,
                       !.asserted = asserted, !.learned = learned, !.ph = "search", !.confl = <<>>, !.since = 0]

(* -- decisions *)
PickRules(s, x) == If(s.ph = "search", "pick-out-of-place") \cup
                   If(~Assigned(s, x) /\ (x \in 1..s.nb \/ -x \in 1..s.nr), "picked-assigned") \cup
                   IncompleteRules(s)
Pick(s, x) == [s EXCEPT !.pick = x]
CacheValue(s, x) == IF x \in DOMAIN s.cache THEN s.cache[x] ELSE "1"
PhaseValue(s, x, phase) == CASE phase = "positive" -> "1" [] phase = "negative" -> "0" [] phase = "cache" -> CacheValue(s, x)
(* v may be the value of the real variable -x *)
Allowed(s, x, v) == LET U == UnitCons(s, -x) IN \A i \in 1..Len(U) : Holds(U[i], (-x :> v))
DecideRules(s, x, v, l, phase) ==
    IF Assigned(s, x) THEN {"assigned-twice"}
    ELSE If(x = s.pick, "decided-other-variable") \cup
         If(l = Dl(s) + 1, "decision-level") \cup
         (IF x > 0 THEN If(phase = "any" \/ v = PhaseValue(s, x, phase), "decision-phase")
          ELSE IF v = "" THEN {"no-value"} ELSE If(Allowed(s, x, v), "decision-value"))
Decide(s, x, v) == [DecideVar(s, x, v) EXCEPT !.pick = 0]

(* -- answers *)
SatRules(s) ==
    If(s.ph = "search", "sat-out-of-place") \cup
    If(\A b \in 1..s.nb : Assigned(s, b), "sat-unassigned-bool") \cup
    If(\A x \in 1..s.nr : Assigned(s, -x), "sat-unassigned-real") \cup
    If(\A c \in Clauses(s) : \E i \in 1..Len(c) : True(s, c[i]), "sat-clause") \cup
    IncompleteRules(s)
UnsatRules(s) ==
    If(s.ph = "conflict", "unsat-without-conflict") \cup
    If(Derivable(s, <<>>, s.confl), "unsat-not-implied")
=============================================================================
