-------------------------------- MODULE Num ---------------------------------
(***************************************************************************)
(* Exact rational arithmetic on 32-bit integers: a rational is a record    *)
(* [n, d] with d > 0 in lowest terms.  Every multiplication cancels common *)
(* factors first; TLC reports an overflow instead of wrapping around.      *)
(* Also: reading and writing numbers as text.                              *)
(***************************************************************************)
EXTENDS Text

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b

Rat(n, d) == LET g == Gcd(Abs(n), Abs(d))
                 s == IF d < 0 THEN -1 ELSE 1
             IN [n |-> s * (n \div g), d |-> s * (d \div g)]
\* n \div g is exact here, so flooring does not matter.
RInt(i) == [n |-> i, d |-> 1]
RMul(a, b) == LET g1 == Gcd(Abs(a.n), b.d)
                  g2 == Gcd(Abs(b.n), a.d)
              IN [n |-> (a.n \div g1) * (b.n \div g2), d |-> (a.d \div g2) * (b.d \div g1)]
RNeg(a) == [n |-> -a.n, d |-> a.d]
RAdd(a, b) == LET g == Gcd(a.d, b.d) IN Rat(a.n * (b.d \div g) + b.n * (a.d \div g), a.d * (b.d \div g))
RSub(a, b) == RAdd(a, RNeg(b))
RInv(a) == IF a.n < 0 THEN [n |-> -a.d, d |-> -a.n] ELSE [n |-> a.d, d |-> a.n]
RDiv(a, b) == RMul(a, RInv(b))
RLess(a, b) == RSub(a, b).n < 0
RAbs(a) == [n |-> Abs(a.n), d |-> a.d]
RFloor(a) == a.n \div a.d          \* TLC's \div rounds towards minus infinity
RTrunc(a) == IF a.n < 0 THEN -((-a.n) \div a.d) ELSE a.n \div a.d

(* Nearest integer.  A tie (exactly half way) is rounded to even, and      *)
(* reported by RTie, because code working in binary floating point may     *)
(* land on either side of an exact tie.                                    *)
RTie(a) == a.d = 2
RRound(a) == LET f == RFloor(a)
                 r == a.n - f * a.d          \* 0 <= r < d
             IN IF 2 * r < a.d THEN f
                ELSE IF 2 * r > a.d THEN f + 1
                ELSE IF f % 2 = 0 THEN f ELSE f + 1

RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)

-----------------------------------------------------------------------------
(* Reading numbers *)
NoNum == [ok |-> FALSE, n |-> 0, d |-> 1]
Num(n, d) == LET r == Rat(n, d) IN [ok |-> TRUE, n |-> r.n, d |-> r.d]

RECURSIVE DigitsVal(_, _)
DigitsVal(cs, acc) == IF cs = <<>> THEN acc ELSE DigitsVal(Tail(cs), 10 * acc + DigitVal(Head(cs)))

AllDigits(cs) == \A k \in 1..Len(cs) : cs[k] \in DigitSet

(* An optionally signed integer, surrounded by optional whitespace. *)
ReadInt(cs0) ==
    LET cs == Strip(cs0)
        neg == cs # <<>> /\ Head(cs) = "-"
        signed == cs # <<>> /\ Head(cs) \in {"-", "+"}
        body == IF signed THEN Tail(cs) ELSE cs
    IN IF body # <<>> /\ AllDigits(body)
       THEN Num(IF neg THEN -DigitsVal(body, 0) ELSE DigitsVal(body, 0), 1)
       ELSE NoNum

IndexOf(cs, S) == IF \E k \in 1..Len(cs) : cs[k] \in S
                  THEN CHOOSE k \in 1..Len(cs) : cs[k] \in S /\ \A j \in 1..(k - 1) : cs[j] \notin S
                  ELSE 0

(* digits [ . digits ] with at least one digit *)
ReadMantissa(cs) ==
    LET dot == IndexOf(cs, {"."})
        ip == IF dot = 0 THEN cs ELSE Front(cs, dot - 1)
        fp == IF dot = 0 THEN <<>> ELSE From(cs, dot + 1)
    IN IF AllDigits(ip) /\ AllDigits(fp) /\ Len(ip) + Len(fp) > 0
       THEN Num(DigitsVal(fp, DigitsVal(ip, 0)), Pow10(Len(fp)))
       ELSE NoNum

(* A decimal number with optional sign and exponent, surrounded by optional whitespace. *)
ReadNum(cs0) ==
    LET cs == Strip(cs0)
        neg == cs # <<>> /\ Head(cs) = "-"
        signed == cs # <<>> /\ Head(cs) \in {"-", "+"}
        body == IF signed THEN Tail(cs) ELSE cs
        e == IndexOf(body, {"e", "E"})
        m == ReadMantissa(IF e = 0 THEN body ELSE Front(body, e - 1))
        ex == IF e = 0 THEN Num(0, 1)
              ELSE LET t == From(body, e + 1) IN IF t # <<>> /\ Head(t) \notin Ws /\ t[Len(t)] \notin Ws THEN ReadInt(t) ELSE NoNum
    IN IF ~m.ok \/ ~ex.ok THEN NoNum
       ELSE IF m.n = 0 THEN Num(0, 1)
       ELSE LET v == IF ex.n >= 0 THEN RMul([n |-> m.n, d |-> m.d], RInt(Pow10(ex.n)))
                     ELSE RMul([n |-> m.n, d |-> m.d], [n |-> 1, d |-> Pow10(-ex.n)])
            IN Num(IF neg THEN -v.n ELSE v.n, v.d)

-----------------------------------------------------------------------------
(* Writing numbers *)
RECURSIVE FracDigits(_, _, _)
FracDigits(r, d, left) == IF r = 0 \/ left = 0 THEN "" ELSE ToString((10 * r) \div d) \o FracDigits((10 * r) % d, d, left - 1)
IsDecimal(n, d) == LET RECURSIVE Red(_, _) Red(x, p) == IF x % p = 0 THEN Red(x \div p, p) ELSE x
                   IN d <= 100000000 /\ Red(Red(d, 2), 5) = 1
(* n/d as a decimal: whole numbers without a point, or with ".0" if asked for *)
WriteDec(n, d, point0) ==
    LET a == Abs(n)
        sign == IF n < 0 THEN "-" ELSE ""
    IN IF d = 1 THEN sign \o ToString(a) \o (IF point0 THEN ".0" ELSE "")
       ELSE sign \o ToString(a \div d) \o "." \o FracDigits(a % d, d, 12)
=============================================================================
