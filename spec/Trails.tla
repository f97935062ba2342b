-------------------------------- MODULE Trails --------------------------------
(* The assignment trail alone. Boolean variables are 1.., real ones -1, -2, ..   *)
(*   t.n      [b, r] numbers of Boolean and real variables                       *)
(*   t.val, t.lev, t.rsn    value, level and reason (0: none) of assigned ones   *)
(*   t.lists  t.lists[l+1] = <<variable, reason>> listed at level l: those        *)
(*            assigned while the trail had this level as its last one, and those  *)
(*            assigned late, which are listed at all levels from their own one    *)
(*   t.order  assigned variables from the oldest to the newest value             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == [n |-> [b |-> 0, r |-> 0], val |-> <<>>, lev |-> <<>>, rsn |-> <<>>, lists |-> <<<<>>>>, order |-> <<>>]
Level(t) == Len(t.lists) - 1
Vars(t) == (1..t.n.b) \cup {-i : i \in 1..t.n.r}
Free(t) == Vars(t) \ DOMAIN t.val

Set(t, x, v, l, r, lists) == [t EXCEPT !.val = (x :> v) @@ @, !.lev = (x :> l) @@ @, !.rsn = (x :> r) @@ @,
                                       !.order = Append(@, x), !.lists = lists]
Resize(t, b, r) == [t EXCEPT !.n = [b |-> b, r |-> r]]
Decide(t, x, v) == Set(t, x, v, Level(t) + 1, 0, Append(t.lists, <<<<x, 0>>>>))
Propagate(t, x, v, l, r) ==
    Set(t, x, v, l, r, [i \in DOMAIN t.lists |-> IF i > l THEN Append(t.lists[i], <<x, r>>) ELSE t.lists[i]])
Backtrack(t, to) ==
    LET K == {x \in DOMAIN t.val : t.lev[x] <= to}
    IN [t EXCEPT !.val = [x \in K |-> @[x]], !.lev = [x \in K |-> @[x]], !.rsn = [x \in K |-> @[x]],
                 !.lists = SubSeq(@, 1, to + 1), !.order = SelectSeq(@, LAMBDA x : x \in K)]
Clear(t) == [Empty EXCEPT !.n = t.n]

(* ---- C06 ------------------------------------------------------------------------ *)
Listed(t, i) == {t.lists[i][k][1] : k \in 1..Len(t.lists[i])}
Consistent(t) ==
    /\ DOMAIN t.lev = DOMAIN t.val /\ DOMAIN t.rsn = DOMAIN t.val /\ DOMAIN t.val \subseteq Vars(t)
    /\ Len(t.order) = Cardinality(DOMAIN t.val)
    /\ \A x \in DOMAIN t.val : /\ t.lev[x] \in 0..Level(t)
                               \* listed at its own level, and at no earlier one
                               /\ \A i \in 1..Len(t.lists) : x \in Listed(t, i) => i > t.lev[x]
                               /\ x \in Listed(t, t.lev[x] + 1)
    /\ \A i \in 1..Len(t.lists) : /\ Listed(t, i) \subseteq DOMAIN t.val
                                  /\ Cardinality(Listed(t, i)) = Len(t.lists[i])
                                  /\ \A k \in 1..Len(t.lists[i]) : t.rsn[t.lists[i][k][1]] = t.lists[i][k][2]
    /\ \A i \in 2..Len(t.lists) : t.lists[i] # <<>> /\ t.lev[t.lists[i][1][1]] = i - 1
(* a backjump keeps the assignments of the remaining levels and nothing else *)
Keeps(t, u, to) == /\ DOMAIN u.val = {x \in DOMAIN t.val : t.lev[x] <= to}
                   /\ \A x \in DOMAIN u.val : u.val[x] = t.val[x] /\ u.lev[x] = t.lev[x] /\ u.rsn[x] = t.rsn[x]
                   /\ Level(u) = to
(* assignments made late survive exactly like the others: undoing them one level   *)
(* at a time is the same as undoing them at once                                    *)
Stepwise(t) == \A a, b \in 0..Level(t) : a <= b => Backtrack(Backtrack(t, b), a) = Backtrack(t, a)
===============================================================================
