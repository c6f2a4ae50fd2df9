-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Character-level text operations.  A text is a TLA+ string; a character  *)
(* is a string of length one; a "cs" is a sequence of characters.          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC

Ws == {" ", "\t", "\n"}
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitSet == {Digits[k] : k \in 1..10}
DigitVal(c) == (CHOOSE k \in 1..10 : Digits[k] = c) - 1

UpperSeq == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
LowerSeq == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
UpperSet == {UpperSeq[k] : k \in 1..26}
LowerChar(c) == IF c \in UpperSet THEN LowerSeq[CHOOSE k \in 1..26 : UpperSeq[k] = c] ELSE c

HexLower == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HexSet == {HexLower[k] : k \in 1..16} \cup {"A","B","C","D","E","F"}
HexVal(c) == (CHOOSE k \in 1..16 : HexLower[k] = LowerChar(c)) - 1

Chars(s) == TLCEval([k \in 1..Len(s) |-> SubSeq(s, k, k)])   \* TLCEval: compute it once, not at each use

RECURSIVE Str(_)
Str(cs) == IF cs = <<>> THEN "" ELSE Head(cs) \o Str(Tail(cs))

Lower(s) == Str(TLCEval([k \in 1..Len(s) |-> LowerChar(SubSeq(s, k, k))]))

RECURSIVE LStrip(_)
LStrip(cs) == IF cs # <<>> /\ Head(cs) \in Ws THEN LStrip(Tail(cs)) ELSE cs
RECURSIVE RStripSet(_, _)
RStripSet(cs, S) == IF cs # <<>> /\ cs[Len(cs)] \in S THEN RStripSet(SubSeq(cs, 1, Len(cs) - 1), S) ELSE cs
Strip(cs) == RStripSet(LStrip(cs), Ws)

Front(cs, k) == SubSeq(cs, 1, k)
From(cs, k) == SubSeq(cs, k, Len(cs))

(* The text s, given by characters, starts / ends with the string p. *)
StartsC(cs, p) == Len(cs) >= Len(p) /\ Front(cs, Len(p)) = Chars(p)
EndsC(cs, p) == Len(cs) >= Len(p) /\ From(cs, Len(cs) - Len(p) + 1) = Chars(p)

(* All maximal pieces between occurrences of the character sep (like str.split(sep)). *)
RECURSIVE SplitAcc(_, _, _, _)
SplitAcc(cs, sep, cur, acc) ==
    IF cs = <<>> THEN Append(acc, cur)
    ELSE IF Head(cs) = sep THEN SplitAcc(Tail(cs), sep, <<>>, Append(acc, cur))
    ELSE SplitAcc(Tail(cs), sep, Append(cur, Head(cs)), acc)
SplitOn(cs, sep) == SplitAcc(cs, sep, <<>>, <<>>)

(* Non-empty pieces between runs of whitespace (like str.split()). *)
SplitWs(cs) ==
    LET unified == TLCEval([k \in 1..Len(cs) |-> IF cs[k] \in Ws THEN " " ELSE cs[k]])
        nonempty(p) == p # <<>>
    IN SelectSeq(SplitOn(unified, " "), nonempty)

RECURSIVE JoinC(_, _)
JoinC(parts, sep) ==
    IF parts = <<>> THEN <<>>
    ELSE IF Len(parts) = 1 THEN Head(parts)
    ELSE Head(parts) \o Chars(sep) \o JoinC(Tail(parts), sep)

RECURSIVE JoinS(_, _)
JoinS(parts, sep) ==
    IF parts = <<>> THEN ""
    ELSE IF Len(parts) = 1 THEN Head(parts)
    ELSE Head(parts) \o sep \o JoinS(Tail(parts), sep)

CountC(cs, c) == LET is(x) == x = c IN Len(SelectSeq(cs, is))

(* Occurrences of the string p in cs (non-overlapping is not an issue for the patterns used). *)
CountSub(cs, p) ==
    LET n == Len(p) IN
    IF Len(cs) < n THEN 0
    ELSE LET pc == Chars(p)
             S == {k \in 1..(Len(cs) - n + 1) : SubSeq(cs, k, k + n - 1) = pc}
         IN IF S = {} THEN 0 ELSE LET RECURSIVE Card(_) Card(T) == IF T = {} THEN 0 ELSE 1 + Card(T \ {CHOOSE x \in T : TRUE}) IN Card(S)

(* name with hyphens replaced by underscores and back *)
Underscored(s) == Str(TLCEval([k \in 1..Len(s) |-> IF SubSeq(s, k, k) = "-" THEN "_" ELSE SubSeq(s, k, k)]))
Hyphened(s) == Str(TLCEval([k \in 1..Len(s) |-> IF SubSeq(s, k, k) = "_" THEN "-" ELSE SubSeq(s, k, k)]))
=============================================================================
