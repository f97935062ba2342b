----------------------------- MODULE Rationals -----------------------------
(* Exact rational numbers of any size. A number is a string: "n" or "n/d" in  *)
(* lowest terms with d > 1. TLC evaluates the operators with BigInteger       *)
(* arithmetic (java/Rationals.java); RationalsMC checks that evaluation       *)
(* against integer arithmetic of TLC on small numbers.                        *)
EXTENDS Integers, Sequences

IsRat(s)   == CHOOSE b \in BOOLEAN : TRUE   \* s is a number in the form above
RNorm(s)   == CHOOSE t \in STRING : TRUE    \* any "n", "n/d", decimal -> canonical form
RInt(i)    == CHOOSE t \in STRING : TRUE    \* the number i
RMake(n,d) == CHOOSE t \in STRING : TRUE    \* n/d for integers in strings, d # 0
RAdd(a, b) == CHOOSE t \in STRING : TRUE
RSub(a, b) == CHOOSE t \in STRING : TRUE
RMul(a, b) == CHOOSE t \in STRING : TRUE
RDiv(a, b) == CHOOSE t \in STRING : TRUE    \* b # 0
RNeg(a)    == CHOOSE t \in STRING : TRUE
RCmp(a, b) == CHOOSE i \in {-1, 0, 1} : TRUE
RNum(a)    == CHOOSE t \in STRING : TRUE    \* numerator, as a string
RDen(a)    == CHOOSE t \in STRING : TRUE    \* denominator (positive), as a string
RFloor(a)  == CHOOSE t \in STRING : TRUE
RCeil(a)   == CHOOSE t \in STRING : TRUE
RToInt(a)  == CHOOSE i \in Int : TRUE       \* only for small integers
RBits(a)   == CHOOSE i \in Nat : TRUE       \* the number of bits of the longer of numerator and denominator
(* division of integers (in strings) rounding towards zero, and its remainder *)
RQuot(a, b) == CHOOSE t \in STRING : TRUE
RRem(a, b)  == CHOOSE t \in STRING : TRUE
RGcd(a, b)  == CHOOSE t \in STRING : TRUE
(* a truth value among values of any kind *)
IsTruth(v) == v \in {"true", "false"}

RZero == "0"
ROne  == "1"
RLt(a, b) == RCmp(a, b) < 0
RLe(a, b) == RCmp(a, b) <= 0
RGt(a, b) == RCmp(a, b) > 0
REq(a, b) == RCmp(a, b) = 0
RSgn(a)   == RCmp(a, RZero)
RIsInt(a) == RDen(a) = "1"

RECURSIVE RPow2(_)
RPow2(k) == IF k = 0 THEN ROne ELSE IF k > 0 THEN RMul("2", RPow2(k - 1)) ELSE RDiv(RPow2(k + 1), "2")
=============================================================================
