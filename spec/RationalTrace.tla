---------------------------- MODULE RationalTrace ----------------------------
(* Operations recorded from the real rational numbers (harness/drv_rational)   *)
(* replayed on RationalMachine.                                                *)
EXTENDS RationalMachine, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
T == Traces[tid]
Ev == T.ev[l]
Report(rule) == PrintT(<<"VIOL", T.id, l, rule>>)
Must(b, rule) == IF b THEN TRUE ELSE Report(rule)
Init == tid \in 1..Len(Traces) /\ l = 1 /\ MachineInit
Is(S) == l <= Len(T.ev) /\ Ev.op \in S /\ l' = l + 1 /\ tid' = tid
Printed(d) == Must(Ev.t \in Texts(reg'[d]), "value-" \o Ev.op)
DoLoad == Is({"parse", "int", "uint"}) /\ Load(Ev.d, RNorm(Ev.s)) /\ Printed(Ev.d)
DoMake == Is({"make"}) /\ Load(Ev.d, RMake(Ev.s, Ev.u)) /\ Printed(Ev.d)
Do1s == Is(Unary) /\ Do1(Ev.op, Ev.d, Ev.a) /\ Printed(Ev.d)
Do2s == Is(Binary) /\ Do2(Ev.op, Ev.d, Ev.a, Ev.b) /\ Printed(Ev.d)
DoCommon == Is({"common"}) /\ Common(Ev.d, Ev.a) /\ Printed(Ev.d)
DoSwap == Is({"swap"}) /\ Swap(Ev.d, Ev.a) /\ Printed(Ev.d)
DoCmp == /\ Is({"cmp"}) /\ UNCHANGED reg
         /\ LET x == reg[Ev.a] y == reg[Ev.b] c == Comparisons(x, y)
            IN /\ Must(Ev.c = RCmp(x, y), "compare")
               /\ Must(Ev.m = RCmp(Mag(x), Mag(y)), "compare-magnitudes")
               /\ Must(\A i \in 1..6 : c[i] = (Ev.r[i] = 1), "relation")
               /\ Must(x = y => Ev.h, "hash")
DoInfo == /\ Is({"info"}) /\ UNCHANGED reg
          /\ LET x == reg[Ev.a]
             IN /\ Must(Ev.int = RIsInt(x), "is-integer")
                /\ Must(Ev.sgn = RSgn(x), "sign")
                /\ Must(Ev.neg = (RSgn(x) < 0) /\ Ev.pos = (RSgn(x) > 0) /\ Ev.nn = (RSgn(x) >= 0) /\ Ev.np = (RSgn(x) <= 0), "sign-test")
                /\ Must(Ev.zero = (x = RZero) /\ Ev.one = (x = ROne), "is-constant")
                /\ Must(Ev.str = x, "text")
                /\ Must(Ev.t \in Texts(x), "register-changed")
DoEnd == Is({"end"}) /\ UNCHANGED reg /\ Report("end-" \o Ev.how)
Next == DoLoad \/ DoMake \/ Do1s \/ Do2s \/ DoCommon \/ DoSwap \/ DoCmp \/ DoInfo \/ DoEnd
View == <<tid, l>>
Post == PrintT(<<"DONE", TLCGet("stats").distinct>>)
=============================================================================
