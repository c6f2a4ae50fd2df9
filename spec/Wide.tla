-------------------------------- MODULE Wide --------------------------------
(***************************************************************************)
(* Numbers in text of any size and precision, by their digits: the number  *)
(* 0.DIGITS * 10^e, with DIGITS free of leading and trailing zeros.  This  *)
(* covers what the 32-bit rationals of Num cannot: long decimals, very     *)
(* large and very small numbers.                                           *)
(***************************************************************************)
EXTENDS Values

NoWide == [ok |-> FALSE, neg |-> FALSE, dg |-> "", e |-> 0]
WideZero == [ok |-> TRUE, neg |-> FALSE, dg |-> "", e |-> 0]

RECURSIVE LeadingZeros(_)
LeadingZeros(cs) == IF cs # <<>> /\ Head(cs) = "0" THEN 1 + LeadingZeros(Tail(cs)) ELSE 0

ReadWide(cs0) ==
    LET cs == Strip(cs0)
        neg == cs # <<>> /\ Head(cs) = "-"
        signed == cs # <<>> /\ Head(cs) \in {"-", "+"}
        body == IF signed THEN Tail(cs) ELSE cs
        ei == IndexOf(body, {"e", "E"})
        man == IF ei = 0 THEN body ELSE Front(body, ei - 1)
        ex == IF ei = 0 THEN Num(0, 1)
              ELSE LET t == From(body, ei + 1) IN IF t # <<>> /\ Head(t) \notin Ws /\ t[Len(t)] \notin Ws THEN ReadInt(t) ELSE NoNum
        dot == IndexOf(man, {"."})
        ip == IF dot = 0 THEN man ELSE Front(man, dot - 1)
        fp == IF dot = 0 THEN <<>> ELSE From(man, dot + 1)
        all == ip \o fp
    IN IF ~(AllDigits(ip) /\ AllDigits(fp) /\ all # <<>> /\ ex.ok) THEN NoWide
       ELSE LET lead == LeadingZeros(all)
                dg == RStripSet(From(all, lead + 1), {"0"})
            IN IF dg = <<>> THEN WideZero ELSE [ok |-> TRUE, neg |-> neg, dg |-> Str(dg), e |-> Len(ip) - lead + ex.n]

(* The length a text denotes; numbers too large for a double are refused,  *)
(* those too small for one are zero.  What lies within a few decades of    *)
(* those limits is left open.                                              *)
WideBad == [ok |-> FALSE, u |-> "", neg |-> FALSE, dg |-> "", e |-> 0]
Edge(w) == w.ok /\ w.dg # "" /\ (w.e \in 307..310 \/ w.e \in -330..-305)
Bounded(w, u) == IF ~w.ok \/ (w.dg # "" /\ w.e > 310) THEN WideBad
                 ELSE IF w.dg # "" /\ w.e < -330 THEN [ok |-> TRUE, u |-> u, neg |-> FALSE, dg |-> "", e |-> 0]
                 ELSE [ok |-> TRUE, u |-> u, neg |-> w.neg, dg |-> w.dg, e |-> w.e]
WideParts(s) ==
    LET cs == Chars(s)
        fits == {u \in UnitNames : EndsC(cs, u) /\ ReadWide(Front(cs, Len(cs) - Len(u))).ok}
    IN IF fits # {} THEN LET u == CHOOSE x \in fits : TRUE IN <<ReadWide(Front(cs, Len(cs) - Len(u))), u>>
       ELSE <<ReadWide(cs), "px">>
WideLength(s) == LET p == WideParts(s) IN Bounded(p[1], p[2])
WideOpen(s) == Edge(WideParts(s)[1])

(* A double keeps 15 digits faithfully. *)
Short(w) == Len(w.dg) <= 15
Whole(w) == w.e >= Len(w.dg)
RECURSIVE Zeros(_)
Zeros(k) == IF k <= 0 THEN "" ELSE "0" \o Zeros(k - 1)
\* whole numbers are written by their digits alone
WriteWhole(w) == (IF w.neg THEN "-" ELSE "") \o (IF w.dg = "" THEN "0" ELSE w.dg \o Zeros(w.e - Len(w.dg))) \o w.u
=============================================================================
