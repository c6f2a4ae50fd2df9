------------------------------ MODULE MC_Texts ------------------------------
(***************************************************************************)
(* Every text of up to DEPTH tokens over the alphabet of one grammar (FN). *)
(* The state is the text; its value is what ValueOps reads it as.  Each    *)
(* text is printed, to be parsed by the real code.                         *)
(***************************************************************************)
EXTENDS ValueOps, Json, IOUtils, FiniteSets

VARIABLES vText, vLen
vars == <<vText, vLen>>
Fn == IOEnv.FN
Depth == ReadNum(Chars(IOEnv.DEPTH)).n

Tokens ==
    CASE Fn = "length" -> {"1", "0", "2", ".", "-", "+", "e", "px", "em", "%", "vmin", "in", "deg", " ", "inf"}
      [] Fn = "color" -> {"#", "f", "0C", "rgb(", "rgba(", "hsl(", "hsla(", ")", ",", "12", "50%", " ", "0.5"}
      [] Fn = "rect" -> {"rect(", ")", ",", "1px", "2", " ", "x", "-.5em"}
      [] Fn = "spacing" -> {"1px", "2", " ", ",", "x", "-.5em", "%"}
      [] Fn = "quotes" -> {"'", "\"", "<", ">", "x", " "}
      [] Fn = "uri" -> {"url(", ")", "a.png", "'", "\"", " ", "("}
      [] Fn = "cursor" -> {"url(", ")", "a", ",", " ", "help", "move", "'"}

(* Whole arguments, so that long texts need few tokens. *)
Heads == CASE Fn = "color" -> {"", "rgb(1,2,3", "rgba(1, 2,3,", "hsl(12,50%,40%", "hsla( 300 ,50%, 40%,", "#12", "#1234A"}
           [] Fn = "rect" -> {"", "rect(1px,2px,3em", "rect(1px 2px 3em"}
           [] Fn = "cursor" -> {"", "url(a.png), url('b.png')"}
           [] Fn = "quotes" -> {"", "'<' '>' "}
           [] OTHER -> {""}

\* texts whose meaning this specification leaves open: strings set against each other, a url of a lone quote
Words(s) == LET ws == SplitWs(Chars(s)) IN {ws[k] : k \in 1..Len(ws)}
Open(s) ==
    CASE Fn = "quotes" -> \E wd \in Words(s) : CountC(wd, "'") > 2 \/ CountC(wd, "\"") > 2 \/ (CountC(wd, "'") > 0 /\ CountC(wd, "\"") > 0 /\ CountC(wd, "'") + CountC(wd, "\"") > 3)
      [] Fn \in {"uri", "cursor"} -> LET cs == Chars(s) IN \E k \in 1..Len(cs) : cs[k] \in {"'", "\""} /\
                           Strip(Front(cs, k - 1)) # <<>> /\ RStripSet(Front(cs, k - 1), Ws)[Len(RStripSet(Front(cs, k - 1), Ws))] = "("
                           /\ LStrip(From(cs, k + 1)) # <<>> /\ LStrip(From(cs, k + 1))[1] \in {")", ","}
      [] OTHER -> FALSE

\* numbers too large for TLC's integers: two or more digits of exponent
Huge(s) == LET cs == Chars(s) IN \E k \in 1..(Len(cs) - 2) : cs[k] = "e" /\ cs[k + 1] \in DigitSet \cup {"-", "+"} /\ cs[k + 2] \in DigitSet
                                   /\ (cs[k + 1] \in DigitSet \/ (k + 3 <= Len(cs) /\ cs[k + 3] \in DigitSet))
Say(s) == IF Open(s) THEN TRUE ELSE PrintT("@@" \o ToJson([s |-> s]))
Init == vText \in Heads /\ vLen = 0 /\ Say(vText)
Next == /\ vLen < Depth
        /\ \E t \in Tokens : vText' = vText \o t /\ vLen' = vLen + 1 /\ ~Huge(vText') /\ Say(vText')
Spec == Init /\ [][Next]_vars
View == vText

(* A parsed value, written and read again, is the same value. *)
RoundTrip == LET v == Parse(Fn, StrRaw(vText)) IN OK(v) /\ Writable(v) /\ Reparsable(v) => Parse(FnOf(v), StrRaw(Write(v))) = v
(* Lengths are blind to surrounding blanks only in front of the number. *)
Blank == Fn = "length" /\ OK(Parse(Fn, StrRaw(vText))) => Parse(Fn, StrRaw(" " \o vText)) = Parse(Fn, StrRaw(vText))
(* Reading a number by its digits agrees with reading it as a fraction. *)
RECURSIVE DigitsOf(_)
DigitsOf(cs) == IF cs = <<>> THEN 0 ELSE 10 * DigitsOf(Front(cs, Len(cs) - 1)) + DigitVal(cs[Len(cs)])
WideValue(w) == LET n == DigitsOf(Chars(w.dg))
                    k == w.e - Len(w.dg)
                    m == IF k >= 0 THEN RInt(n * Pow10(k)) ELSE Rat(n, Pow10(-k))
                IN IF w.neg THEN RNeg(m) ELSE m
WideAgrees == Fn = "length" =>
    LET v == Parse(Fn, StrRaw(vText))
        w == WideLength(vText)
    IN /\ OK(v) <=> w.ok
       /\ OK(v) => w.u = v.u /\ WideValue(w) = [n |-> v.n, d |-> v.d]
(* No text denotes two kinds of thing. *)
OneKind == Fn \in {"length", "color"} => ~(OK(Parse("length", StrRaw(vText))) /\ OK(Parse("color", StrRaw(vText))))
=============================================================================
