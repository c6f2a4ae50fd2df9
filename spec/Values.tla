------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* The values a CSS property can have, and how they are written.           *)
(*                                                                         *)
(* A *value* is a record with a tag t:                                     *)
(*   [t |-> "kw", s]            a keyword                                  *)
(*   [t |-> "none"]             the keyword none                           *)
(*   [t |-> "default"]          the user agent's default color             *)
(*   [t |-> "len", u, n, d]     the length (n/d) u                         *)
(*   [t |-> "int", i]           an integer                                 *)
(*   [t |-> "rgb", r, g, b, an, ad]      a color, alpha an/ad              *)
(*   [t |-> "hsl", h, sn, sd, ln, ld, an, ad]                              *)
(*   [t |-> "rect", p]          four lengths, in the order written         *)
(*   [t |-> "spacing", p]       one or two lengths                         *)
(*   [t |-> "quotes", q]        a sequence of pairs of strings             *)
(*   [t |-> "uri", s]                                                      *)
(*   [t |-> "cursor", p]        a sequence of uris and keywords            *)
(*   [t |-> "seq", p]           what a multi-side property reads           *)
(*   [t |-> "short", k]         what a shorthand reads: <<name, value>>..  *)
(*                                                                         *)
(* A *raw* is what the user hands in, a record with a tag k:               *)
(*   [k |-> "str", s], [k |-> "int", i], [k |-> "float", n, d],            *)
(*   [k |-> "none"], [k |-> "tuple", p], [k |-> "list", p],                *)
(*   [k |-> "val", v]   an object that already is a value,                 *)
(*   [k |-> "other"]    anything else (bytes, dict, object(), inf, nan)    *)
(***************************************************************************)
EXTENDS Num, NamedColors

Bad == [t |-> "bad"]
OK(v) == v # Bad

Kw(s) == [t |-> "kw", s |-> s]
None == [t |-> "none"]
Default == [t |-> "default"]
Length(u, n, d) == [t |-> "len", u |-> u, n |-> n, d |-> d]
Px(n) == Length("px", n, 1)
IntV(i) == [t |-> "int", i |-> i]

-----------------------------------------------------------------------------
(* Lengths *)
UnitNames == {"px", "em", "ex", "ch", "pt", "pc", "in", "cm", "mm", "vh", "vmax", "vmin", "vw", "%"}

ReadLengthC(cs) ==
    LET fits == {u \in UnitNames : EndsC(cs, u) /\ ReadNum(Front(cs, Len(cs) - Len(u))).ok}
    IN IF fits # {}
       THEN LET u == CHOOSE x \in fits : TRUE
                m == ReadNum(Front(cs, Len(cs) - Len(u)))
            IN Length(u, m.n, m.d)
       ELSE LET m == ReadNum(cs) IN IF m.ok THEN Length("px", m.n, m.d) ELSE Bad

ReadLength(raw) ==
    CASE raw.k = "val" -> IF raw.v.t = "len" THEN raw.v ELSE Bad
      [] raw.k = "int" -> Length("px", raw.i, 1)
      [] raw.k = "float" -> Length("px", raw.n, raw.d)
      [] raw.k = "str" -> ReadLengthC(Chars(raw.s))
      [] OTHER -> Bad

-----------------------------------------------------------------------------
(* Integers *)
ReadInteger(raw) ==
    CASE raw.k = "int" -> IntV(raw.i)
      [] raw.k = "float" -> IntV(RTrunc([n |-> raw.n, d |-> raw.d]))
      [] raw.k = "str" -> LET m == ReadInt(Chars(raw.s)) IN IF m.ok THEN IntV(m.n) ELSE Bad
      [] OTHER -> Bad

-----------------------------------------------------------------------------
(* Colors *)
Rgba(r, g, b, an, ad) == [t |-> "rgb", r |-> r, g |-> g, b |-> b, an |-> an, ad |-> ad]
Hsla(h, s, l, an, ad) == [t |-> "hsl", h |-> h, sn |-> s.n, sd |-> s.d, ln |-> l.n, ld |-> l.d, an |-> an, ad |-> ad]

ReadHex(cs) ==   \* cs without the leading "#"
    LET one(k) == 17 * HexVal(cs[k])
        two(k) == 16 * HexVal(cs[k]) + HexVal(cs[k + 1])
        alpha(x) == Rat(x, 255)
    IN IF \E k \in 1..Len(cs) : cs[k] \notin HexSet THEN Bad
       ELSE CASE Len(cs) = 3 -> Rgba(one(1), one(2), one(3), 1, 1)
              [] Len(cs) = 4 -> Rgba(one(1), one(2), one(3), alpha(one(4)).n, alpha(one(4)).d)
              [] Len(cs) = 6 -> Rgba(two(1), two(3), two(5), 1, 1)
              [] Len(cs) = 8 -> Rgba(two(1), two(3), two(5), alpha(two(7)).n, alpha(two(7)).d)
              [] OTHER -> Bad

\* the arguments of name( ... ), or <<>> if the text is not of that form
Args(cs, name) ==
    IF StartsC(cs, name \o "(") /\ cs[Len(cs)] = ")"
    THEN SplitOn(SubSeq(cs, Len(name) + 2, Len(cs) - 1), ",")
    ELSE <<>>

ReadPercentC(cs) == LET m == ReadInt(RStripSet(Strip(cs), {"%"})) IN
                    IF m.ok THEN [ok |-> TRUE, v |-> Rat(m.n, 100)] ELSE [ok |-> FALSE, v |-> RInt(0)]

ReadRgbArgs(a, withAlpha) ==
    IF Len(a) # (IF withAlpha THEN 4 ELSE 3) THEN Bad
    ELSE LET r == ReadInt(a[1])
             g == ReadInt(a[2])
             b == ReadInt(a[3])
             al == IF withAlpha THEN ReadNum(a[4]) ELSE Num(1, 1)
         IN IF r.ok /\ g.ok /\ b.ok /\ al.ok THEN Rgba(r.n, g.n, b.n, al.n, al.d) ELSE Bad

ReadHslArgs(a, withAlpha) ==
    IF Len(a) # (IF withAlpha THEN 4 ELSE 3) THEN Bad
    ELSE LET h == ReadInt(a[1])
             s == ReadPercentC(a[2])
             l == ReadPercentC(a[3])
             al == IF withAlpha THEN ReadNum(a[4]) ELSE Num(1, 1)
         IN IF h.ok /\ s.ok /\ l.ok /\ al.ok THEN Hsla(h.n, s.v, l.v, al.n, al.d) ELSE Bad

ReadColorS(s) ==
    LET cs == Chars(s)
        low == Lower(s)
    IN IF low \in ColorNames THEN Rgba(NamedRGB[low][1], NamedRGB[low][2], NamedRGB[low][3], 1, 1)
       ELSE IF cs = <<>> THEN Bad
       ELSE IF cs[1] = "#" THEN ReadHex(Tail(cs))
       ELSE LET a == Args(cs, "rgba")
                b == Args(cs, "rgb")
                c == Args(cs, "hsla")
                d == Args(cs, "hsl")
            IN IF a # <<>> THEN ReadRgbArgs(a, TRUE)
               ELSE IF b # <<>> THEN ReadRgbArgs(b, FALSE)
               ELSE IF c # <<>> THEN ReadHslArgs(c, TRUE)
               ELSE IF d # <<>> THEN ReadHslArgs(d, FALSE)
               ELSE Bad

ReadColor(raw) ==
    CASE raw.k = "val" -> IF raw.v.t \in {"rgb", "hsl"} THEN raw.v ELSE Bad
      [] raw.k = "str" -> ReadColorS(raw.s)
      [] OTHER -> Bad

(* HSL to RGB, by the formula of CSS Color: exact rationals, nearest integer. *)
HslChannelsAt(num, den, s, l) ==                \* a hue of num/den degrees
    LET chroma == RMul(RSub(RInt(1), RAbs(RSub(RMul(RInt(2), l), RInt(1)))), s)
        h == num % (360 * den)                  \* TLC's % is the mathematical modulus
        x == RMul(chroma, RSub(RInt(1), RAbs(RSub(Rat(h % (120 * den), 60 * den), RInt(1)))))
        m == RSub(l, RMul(Rat(1, 2), chroma))
        hi == RMul(RAdd(chroma, m), RInt(255))
        mid == RMul(RAdd(x, m), RInt(255))
        lo == RMul(m, RInt(255))
    IN CASE h < 60 * den -> <<hi, mid, lo>>
         [] h < 120 * den -> <<mid, hi, lo>>
         [] h < 180 * den -> <<lo, hi, mid>>
         [] h < 240 * den -> <<lo, mid, hi>>
         [] h < 300 * den -> <<mid, lo, hi>>
         [] OTHER -> <<hi, lo, mid>>
HslChannels(c) == HslChannelsAt(c.h, 1, [n |-> c.sn, d |-> c.sd], [n |-> c.ln, d |-> c.ld])
ToRgb(c) == IF c.t = "rgb" THEN c
            ELSE LET ch == HslChannels(c) IN Rgba(RRound(ch[1]), RRound(ch[2]), RRound(ch[3]), c.an, c.ad)
RgbTies(c) == IF c.t = "rgb" THEN <<FALSE, FALSE, FALSE>> ELSE LET ch == HslChannels(c) IN [k \in 1..3 |-> RTie(ch[k])]

-----------------------------------------------------------------------------
(* Rectangles *)
ReadRectC(cs0) ==
    LET cs == JoinC(SplitWs(cs0), " ") IN
    IF StartsC(cs, "rect(") /\ cs[Len(cs)] = ")" /\ CountSub(cs, "rect(") = 1 /\ CountC(cs, ")") = 1
    THEN LET inner == Strip(SubSeq(cs, 6, Len(cs) - 1))
             parts == IF CountC(inner, ",") = 3 THEN SplitOn(inner, ",")
                      ELSE IF CountC(inner, ",") = 0 /\ CountC(inner, " ") = 3 THEN SplitOn(inner, " ")
                      ELSE <<>>
             vals == TLCEval([k \in 1..Len(parts) |-> ReadLengthC(Strip(parts[k]))])
         IN IF Len(parts) = 4 /\ \A k \in 1..4 : OK(vals[k]) THEN [t |-> "rect", p |-> vals] ELSE Bad
    ELSE Bad
ReadRect(raw) ==
    CASE raw.k = "val" -> IF raw.v.t = "rect" THEN raw.v ELSE Bad
      [] raw.k = "str" -> ReadRectC(Chars(raw.s))
      [] OTHER -> Bad

-----------------------------------------------------------------------------
(* Border spacing *)
SpacingOf(vals) == IF Len(vals) \in 1..2 /\ \A k \in 1..Len(vals) : OK(vals[k]) THEN [t |-> "spacing", p |-> vals] ELSE Bad
ReadSpacing(raw) ==
    CASE raw.k = "val" -> IF raw.v.t = "spacing" THEN raw.v ELSE Bad
      [] raw.k \in {"tuple", "list"} -> SpacingOf(TLCEval([k \in 1..Len(raw.p) |-> ReadLength(raw.p[k])]))
      [] raw.k \in {"int", "float"} -> SpacingOf(<<ReadLength(raw)>>)
      [] raw.k = "str" -> LET parts == SplitWs(Chars(raw.s)) IN SpacingOf(TLCEval([k \in 1..Len(parts) |-> ReadLengthC(parts[k])]))
      [] OTHER -> Bad

-----------------------------------------------------------------------------
(* Quotes: pairs of non-empty strings *)
\* a quoted string without whitespace, backslash or the quote itself inside
Unquoted(cs) == IF Len(cs) >= 3 /\ cs[1] \in {"'", "\""} /\ cs[Len(cs)] = cs[1]
                   /\ \A k \in 2..(Len(cs) - 1) : cs[k] # cs[1] /\ cs[k] # "\\"
                THEN Str(SubSeq(cs, 2, Len(cs) - 1)) ELSE ""
PairUp(items) == [k \in 1..(Len(items) \div 2) |-> <<items[2 * k - 1], items[2 * k]>>]
QuotesOf(items) == IF Len(items) > 0 /\ Len(items) % 2 = 0 /\ \A k \in 1..Len(items) : items[k] # ""
                   THEN [t |-> "quotes", q |-> PairUp(items)] ELSE Bad
RECURSIVE Flatten(_)
\* the strings in a sequence of strings (characters) and sequences of strings; "" marks a misfit
Flatten(p) ==
    IF p = <<>> THEN <<>>
    ELSE LET h == Head(p)
             first == CASE h.k = "str" -> Chars(h.s)
                        [] h.k \in {"tuple", "list"} -> [j \in 1..Len(h.p) |-> IF h.p[j].k = "str" THEN h.p[j].s ELSE ""]
                        [] OTHER -> <<"">>
         IN first \o Flatten(Tail(p))
ReadQuotes(raw) ==
    CASE raw.k = "val" -> IF raw.v.t = "quotes" THEN raw.v ELSE Bad
      [] raw.k = "str" -> LET parts == SplitWs(Chars(raw.s)) IN QuotesOf(TLCEval([k \in 1..Len(parts) |-> Unquoted(parts[k])]))
      [] raw.k \in {"tuple", "list"} -> QuotesOf(Flatten(raw.p))
      [] OTHER -> Bad

-----------------------------------------------------------------------------
(* Urls and cursors *)
ReadUriC(cs0) ==
    LET cs == Strip(cs0) IN
    IF StartsC(cs, "url(") /\ cs[Len(cs)] = ")"
    THEN LET inner == Strip(SubSeq(cs, 5, Len(cs) - 1))
             quoted(q) == Len(inner) >= 2 /\ inner[1] = q /\ inner[Len(inner)] = q
         IN [t |-> "uri", s |-> Str(IF quoted("'") \/ quoted("\"") THEN SubSeq(inner, 2, Len(inner) - 1) ELSE inner)]
    ELSE Bad
ReadUri(raw) ==
    CASE raw.k = "val" -> IF raw.v.t = "uri" THEN raw.v ELSE Bad
      [] raw.k = "str" -> ReadUriC(Chars(raw.s))
      [] OTHER -> Bad

CursorKws == {"auto", "crosshair", "default", "pointer", "move", "e-resize", "ne-resize", "nw-resize", "n-resize",
              "se-resize", "sw-resize", "s-resize", "w-resize", "text", "wait", "progress", "help"}
CursorItem(raw) == IF raw.k = "str" /\ raw.s \in CursorKws THEN Kw(raw.s)
                   ELSE IF raw.k = "val" /\ raw.v.t = "kw" /\ raw.v.s \in CursorKws THEN raw.v
                   ELSE ReadUri(raw)
CursorOf(items) ==
    IF items # <<>> /\ (\A k \in 1..Len(items) : OK(items[k]))
       /\ (\A k \in 1..(Len(items) - 1) : items[k].t = "uri")
    THEN [t |-> "cursor", p |-> items] ELSE Bad
StrRaw(s) == [k |-> "str", s |-> s]
ReadCursor(raw) ==
    CASE raw.k = "val" -> IF raw.v.t = "cursor" THEN raw.v ELSE Bad
      [] raw.k = "str" -> LET parts == SplitOn(Chars(raw.s), ",") IN
                          CursorOf(TLCEval([k \in 1..Len(parts) |-> CursorItem(StrRaw(Str(Strip(parts[k]))))]))
      [] raw.k \in {"tuple", "list"} -> CursorOf(TLCEval([k \in 1..Len(raw.p) |-> CursorItem(raw.p[k])]))
      [] OTHER -> Bad

-----------------------------------------------------------------------------
(* The text form of a value.  Writable says whether this specification     *)
(* determines it (it does not for a fraction that is not a short decimal). *)
Quoted(s) == IF "'" \in {Chars(s)[k] : k \in 1..Len(s)} /\ "\"" \notin {Chars(s)[k] : k \in 1..Len(s)}
             THEN "\"" \o s \o "\"" ELSE "'" \o s \o "'"
ShortDec(n, d) == IsDecimal(n, d) /\ (n = 0 \/ Abs(n) * 1 >= d \div 10000)

RECURSIVE Write(_)
Write(v) ==
    CASE v.t = "kw" -> v.s
      [] v.t = "none" -> "None"
      [] v.t = "int" -> ToString(v.i)
      [] v.t = "len" -> WriteDec(v.n, v.d, FALSE) \o v.u
      [] v.t = "rgb" -> "rgba(" \o ToString(v.r) \o ", " \o ToString(v.g) \o ", " \o ToString(v.b) \o ", " \o WriteDec(v.an, v.ad, TRUE) \o ")"
      [] v.t = "hsl" -> "hsla(" \o ToString(v.h) \o ", " \o WriteDec(v.sn, v.sd, TRUE) \o ", " \o WriteDec(v.ln, v.ld, TRUE) \o ", " \o WriteDec(v.an, v.ad, TRUE) \o ")"
      [] v.t = "rect" -> "rect(" \o JoinS([k \in 1..4 |-> Write(v.p[k])], ", ") \o ")"
      [] v.t = "spacing" -> JoinS([k \in 1..Len(v.p) |-> Write(v.p[k])], " ")
      [] v.t = "quotes" -> JoinS([k \in 1..Len(v.q) |-> Quoted(v.q[k][1]) \o " " \o Quoted(v.q[k][2])], " ")
      [] v.t = "uri" -> "url(\"" \o v.s \o "\")"
      [] v.t = "cursor" -> JoinS([k \in 1..Len(v.p) |-> Write(v.p[k])], ", ")
      [] OTHER -> "?"
RECURSIVE Writable(_)
Writable(v) ==
    CASE v.t \in {"kw", "none", "int", "uri"} -> TRUE
      [] v.t = "len" -> ShortDec(v.n, v.d)
      [] v.t = "rgb" -> ShortDec(v.an, v.ad)
      [] v.t = "hsl" -> ShortDec(v.an, v.ad) /\ ShortDec(v.sn, v.sd) /\ ShortDec(v.ln, v.ld)
      [] v.t \in {"rect", "spacing", "cursor"} -> \A k \in 1..Len(v.p) : Writable(v.p[k])
      [] v.t = "quotes" -> \A k \in 1..Len(v.q) : \A j \in 1..2 : "\\" \notin {Chars(v.q[k][j])[m] : m \in 1..Len(v.q[k][j])}
      [] OTHER -> FALSE
=============================================================================
