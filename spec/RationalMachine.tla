--------------------------- MODULE RationalMachine ---------------------------
(* A machine with registers 0..7 that hold exact rational numbers.             *)
EXTENDS Rationals, TLC
VARIABLE reg
Registers == 0..7
MachineInit == reg = [i \in Registers |-> RZero]
Mag(q) == IF RSgn(q) < 0 THEN RNeg(q) ELSE q
(* integers: quotient rounded down, least common multiple *)
Quotient(x, y) == RFloor(RDiv(x, y))
Lcm(x, y) == IF x = RZero \/ y = RZero THEN RZero ELSE RDiv(Mag(RMul(x, y)), RGcd(x, y))
(* the least positive number whose product with each of the first n + 1 registers is an integer *)
RECURSIVE CommonOf(_)
CommonOf(n) == IF n < 0 THEN ROne ELSE Lcm(CommonOf(n - 1), RDen(reg[n]))
(* value of an operation *)
Result(op, d, x, y) ==
    CASE op = "add"   -> RAdd(x, y)
      [] op = "sub"   -> RSub(x, y)
      [] op = "mul"   -> RMul(x, y)
      [] op = "div"   -> RDiv(x, y)
      [] op = "addto" -> RAdd(d, x)
      [] op = "subto" -> RSub(d, x)
      [] op = "multo" -> RMul(d, x)
      [] op = "divto" -> RDiv(d, x)
      [] op \in {"neg", "negate"} -> RNeg(x)
      [] op \in {"inv", "inverse"} -> RDiv(ROne, x)
      [] op = "floor" -> RFloor(x)
      [] op = "ceil"  -> RCeil(x)
      [] op = "num"   -> RNum(x)
      [] op = "den"   -> RDen(x)
      [] op \in {"copy", "move"} -> x
      [] op = "gcd"   -> RGcd(x, y)
      [] op = "lcm"   -> Lcm(x, y)
      [] op = "fdiv"  -> Quotient(x, y)
      [] op = "exact" -> RDiv(x, y)
      [] op = "mod"   -> RSub(x, RMul(y, Quotient(x, y)))
      [] op = "abs"   -> Mag(x)
      [] op = "round" -> RFloor(RAdd(x, "1/2"))
OfIntegers == {"gcd", "lcm", "fdiv", "exact", "mod"}
Binary == {"add", "sub", "mul", "div"} \cup OfIntegers
Unary  == {"addto", "subto", "multo", "divto", "neg", "negate", "inv", "inverse", "floor", "ceil", "num", "den", "copy", "move", "abs", "round"}
Defined(op, x, y) == /\ op \in {"div", "fdiv", "exact", "mod"} => y # RZero
                     /\ op \in OfIntegers => RIsInt(x) /\ RIsInt(y)
                     /\ op = "exact" => RIsInt(RDiv(x, y))
                     /\ op \in {"divto", "inv", "inverse"} => x # RZero
Load(d, q)     == reg' = [reg EXCEPT ![d] = q]
Do1(op, d, a)  == Defined(op, reg[a], RZero) /\ reg' = [reg EXCEPT ![d] = Result(op, reg[d], reg[a], RZero)]
Do2(op, d, a, b) == Defined(op, reg[a], reg[b]) /\ reg' = [reg EXCEPT ![d] = Result(op, reg[d], reg[a], reg[b])]
Common(d, n)   == reg' = [reg EXCEPT ![d] = CommonOf(n)]
Swap(d, a)     == reg' = [reg EXCEPT ![d] = reg[a], ![a] = reg[d]]

(* texts that denote q in SMT-LIB *)
Texts(q) ==
    LET n == RNum(Mag(q)) d == RDen(q)
    IN IF RSgn(q) >= 0
       THEN {"(/ " \o n \o " " \o d \o ")"} \cup (IF d = "1" THEN {n} ELSE {})
       ELSE {"(/ (- " \o n \o ") " \o d \o ")", "(- (/ " \o n \o " " \o d \o "))"} \cup (IF d = "1" THEN {"(- " \o n \o ")"} ELSE {})
Less(x, y) == RLt(x, y)
Comparisons(x, y) == <<x = y, x # y, Less(x, y), x = y \/ Less(x, y), Less(y, x), x = y \/ Less(y, x)>>
=============================================================================
