---------------------------- MODULE TrailTrace ----------------------------
(* Histories of the real trail and its models (harness/drv_trail) replayed by     *)
(* Trails.tla. tm: the time of each variable's last value, as the code reports it *)
EXTENDS Trails, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, t, tm
T == Traces[tid]
Ev == T.ev[l]
Say(rule) == PrintT(<<"VIOL", T.id, l, rule>>)
Report(rules) == \A r \in rules : Say(r)
If(b, rule) == IF b THEN {} ELSE {rule}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ t = Empty /\ tm = <<>>
A == Ev.a
Max2(a, b) == IF a > b THEN a ELSE b
After == CASE Ev.op = "size" -> Resize(t, A[1], A[2])
           [] Ev.op = "dec" -> Decide(t, A[1], A[2])
           [] Ev.op = "prop" -> Propagate(t, A[1], A[2], A[3], A[4])
           [] Ev.op = "back" -> Backtrack(t, A[1])
           [] Ev.op = "clear" -> Clear(t)
           [] Ev.op = "set" -> [t EXCEPT !.val[A[1]] = A[2], !.order = Append(SelectSeq(@, LAMBDA x : x # A[1]), A[1])]
Pairs(list) == [k \in 1..Len(list) |-> <<list[k][1], list[k][2]>>]
Same(x, y) == (x > 0) = (y > 0)
Times == [x \in {Ev.vars[k][1] : k \in 1..Len(Ev.vars)} |->
             LET k == CHOOSE k \in 1..Len(Ev.vars) : Ev.vars[k][1] = x IN Ev.vars[k][6]]
DoOp == /\ l <= Len(T.ev) /\ Ev.op # "end" /\ l' = l + 1 /\ tid' = tid
        /\ LET u == TLCEval(After)
               V == {Ev.vars[k][1] : k \in 1..Len(Ev.vars)}
               new == Times
               given == IF Ev.op \in {"dec", "prop", "set"} THEN {A[1]} ELSE {}
               old == DOMAIN tm
           IN /\ Report(If(Ev.dl = Level(u), "decision-level") \cup
                        If(Ev.empty = (DOMAIN u.val = {} /\ Level(u) = 0), "empty") \cup
                        If(Len(Ev.lists) = Len(u.lists) /\ \A i \in 1..Len(u.lists) : Pairs(Ev.lists[i]) = u.lists[i], "lists") \cup
                        If(Pairs(Ev.recent) = u.lists[Len(u.lists)], "recent") \cup
                        If(V = Vars(u), "variables") \cup
                        UNION {LET e == Ev.vars[k]
                                   x == e[1]
                                   d == x \in DOMAIN u.val
                               IN If((e[2] = 1) = d, "assigned") \cup
                                  (IF d THEN If(e[3] = u.val[x], "value") \cup If(e[4] = u.lev[x], "level") \cup If(e[5] = u.rsn[x], "reason")
                                   ELSE If(e[4] = -1, "level") \cup If(e[5] = 0, "reason")) \cup
                                  \* a new value is newer than every other value of this type; nothing else changes times
                                  (IF x \in given THEN If(\A y \in old \ {x} : Same(x, y) => e[6] > tm[y], "time")
                                   ELSE IF x \in old THEN If(d => e[6] = tm[x], "time") ELSE {})
                               : k \in 1..Len(Ev.vars)})
              /\ t' = u /\ tm' = new
DoEnd == l <= Len(T.ev) /\ Ev.op = "end" /\ l' = l + 1 /\ UNCHANGED <<tid, t, tm>> /\ Report({"end-" \o Ev.how})
Next == DoOp \/ DoEnd
View == <<tid, l>>
Post == PrintT(<<"DONE", TLCGet("stats").distinct>>)
===========================================================================
