------------------------------ MODULE Clauses -------------------------------
(* The clause database and its simplification. Clauses are sequences of        *)
(* literals; the database is d = [asserted, learned]; the assignment is a       *)
(* sequence of records [x (literal), l (level), r (reason or <<>>)].            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RangeOf(f) == {f[i] : i \in DOMAIN f}
KeyOf(c) == <<RangeOf(c), Len(c)>>
Count(cs, k) == Cardinality({i \in DOMAIN cs : KeyOf(cs[i]) = k})
AllKeys(cs) == {KeyOf(cs[i]) : i \in DOMAIN cs}

(* the database after a simplification: the user's clauses are the same, and    *)
(* learned clauses are gone only if a remaining clause contains no other literal *)
SimplifyRules(d, asserted, learned) ==
    LET bad(b, r) == IF b THEN {} ELSE {r}
        after == {RangeOf(learned[j]) : j \in DOMAIN learned}
    IN bad(\A k \in AllKeys(d.asserted) \cup AllKeys(asserted) : Count(d.asserted, k) = Count(asserted, k), "asserted-changed") \cup
       bad(\A k \in AllKeys(learned) : Count(learned, k) <= Count(d.learned, k), "learned-changed") \cup
       bad(\A i \in DOMAIN d.learned : \E c \in after : c \subseteq RangeOf(d.learned[i]), "learned-lost") \cup
       bad(\A k \in AllKeys(d.learned) : Count(learned, k) = Count(d.learned, k) \/
              \E c \in after : c \subseteq k[1] /\ (c # k[1] \/ Count(learned, k) > 0), "learned-lost")

(* literals implied by A and the reasons, in the order of assignment *)
RECURSIVE Closure(_, _, _)
Closure(t, i, A) ==
    IF i > Len(t) THEN A
    ELSE LET e == t[i]
         IN Closure(t, i + 1, IF e.r # <<>> /\ (\A j \in DOMAIN e.r : e.r[j] = e.x \/ -e.r[j] \in A) THEN A \cup {e.x} ELSE A)
(* c shortened to d: only literals leave, and d follows from c and the reasons *)
MinimizeRules(t, c, d) ==
    LET bad(b, r) == IF b THEN {} ELSE {r}
        A == TLCEval(Closure(t, 1, {-d[i] : i \in DOMAIN d}))
    IN bad(RangeOf(d) \subseteq RangeOf(c), "minimize-added") \cup
       bad(\A i \in DOMAIN c : -c[i] \in A, "minimize-not-implied")
=============================================================================
