-------------------------------- MODULE Terms --------------------------------
(* The term manager: building terms keeps their meaning and shares equal terms *)
(*                                                                            *)
(* A term is an identity t; d is the SMT-LIB term it stands for, s its sort,    *)
(* shape what it is made of one level deep, p the identity of its unnegated    *)
(* form. Meaning is compared with the decision procedure of SmtTerms, and when *)
(* that gives up, by evaluation at several points.                            *)
EXTENDS SmtTerms

VARIABLES regs,     \* the terms built so far
          sorts,    \* [c |-> sort of each constant, u |-> signature of each function, d |-> <<>>]
          consts,   \* the names of the constants in order
          built,    \* <<operation, identities of the arguments>> -> identity of the result
          shapes    \* shape -> identity of the unnegated term
tvars == <<regs, sorts, consts, built, shapes>>
TermsInit == /\ regs = <<>> /\ sorts = [c |-> <<>>, u |-> <<>>, d |-> <<>>] /\ consts = <<>>
             /\ built = <<>> /\ shapes = <<>>

(* the SMT-LIB operation that mk_term(name, args) stands for *)
Reals(args) == args # <<>> /\ \A i \in 1..Len(args) : args[i].s = "Real"
KindOf(name, args) ==
    CASE name = ">=" -> "ge" [] name = "<=" -> "le" [] name = "<" -> "lt" [] name = ">" -> "gt"
      [] name = "="  -> IF Reals(args) THEN "eqr" ELSE "eqb"
      [] name = "distinct" -> IF Reals(args) THEN "disr" ELSE "disb"
      [] name = "=>" -> "imp" [] name = "+" -> "add" [] name = "*" -> "mul" [] name = "/" -> "div"
      [] name = "-"  -> IF Len(args) = 1 THEN "neg" ELSE "sub"
      [] name = "ite" -> IF args[2].s = "Real" THEN "iter" ELSE "iteb"
      [] OTHER -> name
SortOf(k) == IF k \in {"add", "mul", "div", "neg", "sub", "iter"} THEN "Real" ELSE "Bool"
Meant(name, args) == [k |-> KindOf(name, args), a |-> [i \in 1..Len(args) |-> args[i].d]]
MeantApp(name, args) == [k |-> "app", n |-> name, a |-> [i \in 1..Len(args) |-> args[i].d]]
(* x, t: variables and the terms that replace them *)
MeantSubst(d, xs, ts) == [k |-> "let", b |-> [i \in 1..Len(xs) |-> [n |-> xs[i].d.n, t |-> ts[i].d]], t |-> d]

Points == <<"0", "1", "-1", "2", "1/2", "-7/3", "1000000007", "-2147483649">>
Nth(i, j) == Points[((i * (2 * j + 1) + j) % 8) + 1]
(* some total functions with the given signatures *)
Weighted(as) == [k |-> "add", a |-> <<[k |-> "num", v |-> "1"]>> \o
                    [i \in 1..Len(as) |->
                        LET x == [k |-> "var", n |-> "!" \o ToString(i)]
                        IN IF as[i] = "Real" THEN [k |-> "mul", a |-> <<[k |-> "num", v |-> RInt(2 * i + 1)], x>>]
                           ELSE [k |-> "iter", a |-> <<x, [k |-> "num", v |-> RInt(i)], [k |-> "num", v |-> "0"]>>]]]
SomeFunction(sig) == [p |-> [i \in 1..Len(sig.as) |-> [n |-> "!" \o ToString(i)]],
                      t |-> IF sig.s = "Real" THEN Weighted(sig.as)
                            ELSE [k |-> "ge", a |-> <<Weighted(sig.as), [k |-> "num", v |-> "1"]>>]]
Valuation(j) ==
    [c |-> [n \in DOMAIN sorts.c |-> LET i == CHOOSE i \in 1..Len(consts) : consts[i] = n
                                     IN IF sorts.c[n] = "Real" THEN Nth(i, j) ELSE Bool(((i + 1) * (j + 2) + i \div 2) % 3 # 0)],
     d |-> [f \in DOMAIN sorts.u |-> SomeFunction(sorts.u[f])]]
SameAtPoints(a, b) == \A j \in 1..6 : LET G == TLCEval(Valuation(j)) IN Eval(a, G, <<>>) = Eval(b, G, <<>>)
(* "yes", "no" or "points" (equal wherever they were compared) *)
Compare(a, b, s) ==
    IF ~SameAtPoints(a, b) THEN "no"
    ELSE LET r == TLCEval(Decide(<<[k |-> IF s = "Real" THEN "disr" ELSE "xor", a |-> <<a, b>>]>>, sorts, 120))
         IN IF r = "unsat" THEN "yes" ELSE IF r = "sat" THEN "no" ELSE "points"

(* Rules for a new term e which was built by `how` and should mean `m`. *)
Known(args) == \A i \in 1..Len(args) : args[i].full
ShareRules(e, how) ==
    (IF how \in DOMAIN built /\ built[how] # e.t THEN {"not-shared"} ELSE {}) \cup
    (IF e.shape \in DOMAIN shapes /\ shapes[e.shape] # e.p THEN {"not-shared"} ELSE {}) \cup
    (IF \E s \in DOMAIN shapes : s # e.shape /\ shapes[s] = e.p THEN {"wrongly-shared"} ELSE {})
Remember(e, how) ==
    /\ regs' = Append(regs, e)
    /\ built' = IF how \in DOMAIN built THEN built ELSE (how :> e.t) @@ built
    /\ shapes' = IF e.shape \in DOMAIN shapes THEN shapes ELSE (e.shape :> e.p) @@ shapes
Ids(args) == [i \in 1..Len(args) |-> args[i].t]
=============================================================================
