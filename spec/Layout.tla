------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Laying out a document.                                                  *)
(*                                                                         *)
(* A document is [root, nodes]; a node is [par, kids, st, intr]: its       *)
(* parent (0: none), its children in order, its style (a function from     *)
(* some property names to values) and its intrinsic size.  A screen is     *)
(* [dpi, w, h, thin, medium, thick, std] (lengths in 1/64 px; dpi/dd, if   *)
(* there is a dd).                                                         *)
(*                                                                         *)
(* Two independent accounts of the layout are given.                       *)
(*  - Rules: local statements relating a node's box to its style and to    *)
(*    the boxes around it; RulesBroken(doc, screen, B) is the set of those *)
(*    that boxes B break.                                                  *)
(*  - LayoutOf(doc, screen): the boxes, computed.                          *)
(* MC_Layout checks that the computed boxes break no rule.                 *)
(*                                                                         *)
(* Style values: [t |-> "auto"], [t |-> "none"], [t |-> "kw", s],          *)
(* [t |-> "inherit"], lengths [t |-> "len", n, d, u].                      *)
(***************************************************************************)
EXTENDS Units, FiniteSets

Auto == -999999999
Odd == 888888888                 \* what the driver reports for something that is no multiple of 1/64 px
AutoV == [t |-> "auto"]
NoneV == [t |-> "none"]
KwV(s) == [t |-> "kw", s |-> s]
LenV(n, d, u) == [t |-> "len", n |-> n, d |-> d, u |-> u]
Zero == LenV(0, 1, "px")
SideNames == {"top", "right", "bottom", "left"}
InitialStyle == [display |-> KwV("inline"), position |-> KwV("static"), direction |-> KwV("ltr"), width |-> AutoV, height |-> AutoV,
    min_width |-> AutoV, max_width |-> NoneV, min_height |-> AutoV, max_height |-> NoneV, top |-> AutoV, right |-> AutoV, bottom |-> AutoV, left |-> AutoV,
    margin_top |-> Zero, margin_right |-> Zero, margin_bottom |-> Zero, margin_left |-> Zero,
    padding_top |-> Zero, padding_right |-> Zero, padding_bottom |-> Zero, padding_left |-> Zero,
    border_top_width |-> Zero, border_right_width |-> Zero, border_bottom_width |-> Zero, border_left_width |-> Zero]
StyleNames == DOMAIN InitialStyle
Initial(p) == InitialStyle[p]
NoIntrinsic == [rep |-> FALSE, w |-> Odd, h |-> Odd, rn |-> 0, rd |-> 1]   \* Odd: none; rn/rd: the ratio, 0 for none

St(doc, n, p) == IF p \in DOMAIN doc.nodes[n].st THEN doc.nodes[n].st[p] ELSE Initial(p)
IsAuto(doc, n, p) == St(doc, n, p).t = "auto"
Kids(doc, n) == doc.nodes[n].kids
Par(doc, n) == doc.nodes[n].par
Intr(doc, n) == doc.nodes[n].intr

\* nodes in the document, and those that have a box
RECURSIVE Within(_, _)
Within(doc, n) == {n} \cup UNION {Within(doc, Kids(doc, n)[k]) : k \in 1..Len(Kids(doc, n))}
IsNone(doc, n) == St(doc, n, "display").t = "none"
RECURSIVE ShownUnder(_, _)
ShownUnder(doc, n) == IF IsNone(doc, n) THEN {} ELSE {n} \cup UNION {ShownUnder(doc, Kids(doc, n)[k]) : k \in 1..Len(Kids(doc, n))}
Attached(doc) == Within(doc, doc.root)
Shown(doc) == ShownUnder(doc, doc.root)
ShownKids(doc, n) == SelectSeq(Kids(doc, n), LAMBDA m : ~IsNone(doc, m))

\* (tables are in scope as long as they have no children)
IsBlock(doc, n) == St(doc, n, "display") \in {KwV("block"), KwV("list-item"), KwV("table")}
IsInline(doc, n) == St(doc, n, "display") = KwV("inline")
Replaced(doc, n) == Intr(doc, n).rep
IsRelative(doc, n) == St(doc, n, "position") = KwV("relative")
\* a block container with a block-level child lays its children out as blocks (mixed content is out of scope)
BlockFlow(doc, n) == IsBlock(doc, n) /\ \E k \in 1..Len(Kids(doc, n)) : ~IsNone(doc, Kids(doc, n)[k]) /\ IsBlock(doc, Kids(doc, n)[k])

-----------------------------------------------------------------------------
(* What cannot be laid out: floats, absolutely positioned and fixed        *)
(* elements, replaced blocks, inline blocks; and any other display.        *)
Floats(doc, n) == "float" \in DOMAIN doc.nodes[n].st /\ doc.nodes[n].st["float"] # NoneV
Unplaced(doc, n) == St(doc, n, "position") \in {KwV("absolute"), KwV("fixed")}
Unfit(doc, n) == Floats(doc, n) \/ Unplaced(doc, n) \/ (IsBlock(doc, n) /\ Replaced(doc, n)) \/ St(doc, n, "display") = KwV("inline-block")
Strange(doc, n) == ~IsBlock(doc, n) /\ ~IsInline(doc, n) /\ St(doc, n, "display") # KwV("inline-block")
\* how the layout of a document may end ("*": in any exception)
Endings(doc) == IF \E n \in Shown(doc) : Strange(doc, n) THEN "*" ELSE IF \E n \in Shown(doc) : Unfit(doc, n) THEN "NotImplementedError" ELSE "ok"
Unsupported(doc) == Endings(doc) # "ok"

-----------------------------------------------------------------------------
(* Resolving lengths: the set of sizes (1/64 px) a value may resolve to,   *)
(* given the reference for percentages (1/64 px).                          *)
Ctx(sc, ref) == [dpi |-> sc.dpi, dd |-> IF "dd" \in DOMAIN sc THEN sc.dd ELSE 1, w |-> sc.w, h |-> sc.h, em |-> 0, ex |-> 0, ch |-> 0, sn |-> Rat(ref, 64).n, sd |-> Rat(ref, 64).d]
Res(v, sc, ref) == CASE v.t = "auto" -> {Auto}
                     [] v.t = "none" -> {0}
                     [] v.t = "kw" -> {CASE v.s = "thin" -> sc.thin [] v.s = "medium" -> sc.medium [] v.s = "thick" -> sc.thick}
                     [] OTHER -> Nearest(Exact64(v, Ctx(sc, ref)))

\* what the boxes are sized against
CbWidth(doc, sc, B, n) == IF n = doc.root THEN sc.w ELSE B[Par(doc, n)].cw

BorderHeight(b) == b.bt + b.pt + b.ch + b.pb + b.bb
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b

-----------------------------------------------------------------------------
(* 10.3.3: content width and horizontal margins of a block.  wd, ml, mr    *)
(* may be Auto; around: borders and paddings.                              *)
Equation(wd, ml, mr, around, avail, ltr) ==
    IF wd = Auto
    THEN LET l == IF ml = Auto THEN 0 ELSE ml
             r == IF mr = Auto THEN 0 ELSE mr
         IN [cw |-> avail - around - l - r, ml |-> l, mr |-> r]
    ELSE LET over == around + wd + (IF ml = Auto THEN 0 ELSE ml) + (IF mr = Auto THEN 0 ELSE mr) > avail
             l == IF over /\ ml = Auto THEN 0 ELSE ml
             r == IF over /\ mr = Auto THEN 0 ELSE mr
             rest == avail - around - wd
             half == 64 * (rest \div 128)
         IN IF l # Auto /\ r # Auto THEN IF ltr THEN [cw |-> wd, ml |-> l, mr |-> rest - l] ELSE [cw |-> wd, ml |-> rest - r, mr |-> r]
            ELSE IF l = Auto /\ r = Auto THEN [cw |-> wd, ml |-> half, mr |-> half]
            ELSE IF l = Auto THEN [cw |-> wd, ml |-> rest - r, mr |-> r]
            ELSE [cw |-> wd, ml |-> l, mr |-> rest - l]
Limit(x, mn, mx) == LET y == IF mx = Auto THEN x ELSE Mn(x, mx) IN IF mn = Auto THEN y ELSE Mx(y, mn)

\* 10.4 applied to automatic widths, too: a width over the maximum (under the minimum) is taken as that, and the equation solved again
Widths(wd, ml, mr, around, avail, ltr, mn, mx) ==
    IF wd # Auto THEN Equation(Limit(wd, mn, mx), ml, mr, around, avail, ltr)
    ELSE LET e == Equation(Auto, ml, mr, around, avail, ltr)
             w2 == Limit(e.cw, mn, mx)
         IN IF w2 = e.cw THEN e ELSE Equation(w2, ml, mr, around, avail, ltr)

\* a maximum: none becomes Auto
ResMax(v, sc, ref) == IF v.t = "none" THEN {Auto} ELSE Res(v, sc, ref)

\* what the block may get: "right", and as it is when limits are not applied to automatic widths (K3)
BlockWidths(doc, sc, n, b, avail) ==
    LET s(p) == St(doc, n, p)
        around == b.bl + b.pl + b.pr + b.br
        ltr == s("direction") # KwV("rtl")
        in(p) == Res(s(p), sc, avail)
    IN [right |-> {Widths(wd, ml, mr, around, avail, ltr, mn, mx) : wd \in in("width"), ml \in in("margin_left"), mr \in in("margin_right"),
                                                                    mn \in in("min_width"), mx \in ResMax(s("max_width"), sc, avail)},
        asis |-> IF s("width").t = "auto" THEN {Equation(Auto, ml, mr, around, avail, ltr) : ml \in in("margin_left"), mr \in in("margin_right")} ELSE {}]

-----------------------------------------------------------------------------
(* Relative positioning: the sets of possible shifts. *)
CbRtl(doc, n) == n # doc.root /\ St(doc, Par(doc, n), "direction") = KwV("rtl")
Neg(S) == {-x : x \in S}
RECURSIVE Offset(_, _, _)
Offset(doc, n, p) == IF St(doc, n, p).t # "inherit" THEN St(doc, n, p) ELSE IF n = doc.root THEN AutoV ELSE Offset(doc, Par(doc, n), p)
ShiftLeft(doc, sc, n, avail) ==
    LET l == Offset(doc, n, "left") r == Offset(doc, n, "right") IN
    IF ~IsRelative(doc, n) THEN {0}
    ELSE IF l.t = "auto" /\ r.t = "auto" THEN {0}
    ELSE IF l.t = "auto" \/ (r.t # "auto" /\ CbRtl(doc, n)) THEN Neg(Res(r, sc, avail))
    ELSE Res(l, sc, avail)
\* (percentages for top and bottom are in scope for the root only)
ShiftTop(doc, sc, n) ==
    LET t == Offset(doc, n, "top") b == Offset(doc, n, "bottom") IN
    IF ~IsRelative(doc, n) THEN {0}
    ELSE IF t.t = "auto" /\ b.t = "auto" THEN {0}
    ELSE LET ref == IF n = doc.root THEN sc.h ELSE 0 IN
         IF t.t = "auto" THEN Neg(Res(b, sc, ref)) ELSE Res(t, sc, ref)
UsesInherit(doc, n) == IsRelative(doc, n) /\ \E p \in SideNames : St(doc, n, p).t = "inherit"

-----------------------------------------------------------------------------
(* Margins collapse: how far the margin of n extends upwards/downwards.    *)
Extent(m) == IF m = Auto THEN 0 ELSE Mx(0, m)
TopExtent(doc, B, n) ==
    LET ks == ShownKids(doc, n) IN
    IF BlockFlow(doc, n) /\ B[n].bt = 0 /\ B[n].pt = 0 THEN Mx(Extent(B[n].mt), B[ks[1]].kt) ELSE Extent(B[n].mt)
BottomExtent(doc, B, n) ==
    LET ks == ShownKids(doc, n) IN
    IF IsBlock(doc, n) /\ IsAuto(doc, n, "height") /\ ks # <<>> /\ B[n].bb = 0 /\ B[n].pb = 0 THEN Mx(Extent(B[n].mb), B[ks[Len(ks)]].kb) ELSE Extent(B[n].mb)

(* The top border edge of the k-th displayed child of a block, in normal   *)
(* flow, relative to the content edge of its parent.                       *)
RECURSIVE FlowTop(_, _, _, _)
FlowTop(doc, B, p, k) ==
    LET ks == ShownKids(doc, p) IN
    IF k = 1 THEN IF B[p].bt # 0 \/ B[p].pt # 0 THEN B[ks[1]].kt ELSE 0
    ELSE FlowTop(doc, B, p, k - 1) + BorderHeight(B[ks[k - 1]]) + Mx(B[ks[k - 1]].kb, B[ks[k]].kt)
IndexOfKid(doc, p, n) == CHOOSE k \in 1..Len(ShownKids(doc, p)) : ShownKids(doc, p)[k] = n

\* The top border edge of n in normal flow: blocks stack; inline boxes lie below their own top margin.
StaticTop(doc, B, n) ==
    IF IsInline(doc, n) THEN B[n].mt + (IF n = doc.root THEN B[n].kt ELSE 0)
    ELSE IF n = doc.root THEN B[n].kt
    ELSE IF BlockFlow(doc, Par(doc, n)) THEN FlowTop(doc, B, Par(doc, n), IndexOfKid(doc, Par(doc, n), n))
    ELSE 0

-----------------------------------------------------------------------------
(* 10.6.3: heights.  An explicit height; a percentage refers to the        *)
(* explicit height of the parent.                                          *)
RECURSIVE ExplicitHeight(_, _, _)
ExplicitHeight(doc, sc, n) ==
    LET v == St(doc, n, "height") IN
    IF v.t = "auto" THEN {Auto}
    ELSE IF v.u # "%" THEN Res(v, sc, 0)
    ELSE IF n = doc.root THEN Res(v, sc, sc.h)
    ELSE UNION {IF h = Auto THEN {0} ELSE Res(v, sc, h) : h \in ExplicitHeight(doc, sc, Par(doc, n))}
\* ... as it is when the parent's height is a percentage itself (K8): the parent's percentage is taken of what the parent's height is by then,
\* which is nothing, or, where the parent is relatively positioned, that very percentage (and its limits) already
IsPercent(v) == v.t = "len" /\ v.u = "%"
PercentOfPercent(doc, n) == n # doc.root /\ IsPercent(St(doc, n, "height")) /\ IsPercent(St(doc, Par(doc, n), "height"))
RECURSIVE HeightAsIs(_, _, _), HeightBefore(_, _, _)
HeightBefore(doc, sc, n) ==
    IF n = doc.root THEN {sc.h}
    ELSE LET p == Par(doc, n) IN
         IF ~IsRelative(doc, p) THEN {0}
         ELSE LET v == St(doc, p, "height")
                  refs == HeightBefore(doc, sc, p)
              IN UNION {{Limit(x, mn, IF v.t = "auto" THEN Auto ELSE mx) : x \in HeightAsIs(doc, sc, p), mn \in Res(St(doc, p, "min_height"), sc, r), mx \in ResMax(St(doc, p, "max_height"), sc, r)} : r \in refs}
HeightAsIs(doc, sc, n) ==
    LET v == St(doc, n, "height")
        w == St(doc, Par(doc, n), "height")
        refs == HeightBefore(doc, sc, n)
    IN IF v.t = "auto" THEN {0}
       ELSE IF n = doc.root \/ w.t = "auto" THEN UNION {Res(v, sc, r) : r \in refs}
       ELSE UNION {Res(v, sc, h) : h \in UNION {Res(w, sc, r) : r \in refs}}
\* a percentage of no explicit height: of none, or of what the parent is at least
PercentOfAuto(doc, n) == n # doc.root /\ IsPercent(St(doc, n, "height")) /\ St(doc, Par(doc, n), "height").t = "auto"

\* where an automatic height reaches: right, and as it is for a relatively positioned last child (K2)
ContentBottom(doc, B, n) ==
    LET ks == ShownKids(doc, n) IN
    IF ks = <<>> THEN [right |-> 0, asis |-> 0]
    ELSE LET l == ks[Len(ks)]
             m == IF B[n].bb # 0 \/ B[n].pb # 0 THEN B[l].kb ELSE 0
             seen == B[l].ct + B[l].ch + B[l].pb + B[l].bb
         IN [right |-> m + (IF IsRelative(doc, l) THEN StaticTop(doc, B, l) + BorderHeight(B[l]) ELSE seen), asis |-> m + seen]

BlockHeights(doc, sc, B, n) ==
    LET v == St(doc, n, "height")
        mns == Res(St(doc, n, "min_height"), sc, IF n = doc.root THEN sc.h ELSE 0)
        mxs == ResMax(St(doc, n, "max_height"), sc, IF n = doc.root THEN sc.h ELSE 0)
        cb == ContentBottom(doc, B, n)
        lim(S) == {Limit(x, mn, mx) : x \in S, mn \in mns, mx \in mxs}
        lo(S) == {Limit(x, mn, Auto) : x \in S, mn \in mns}
    IN IF v.t = "auto" THEN [right |-> lim({cb.right}), K2 |-> lim({cb.asis}), K5 |-> lo({cb.right}), K25 |-> lo({cb.asis}), K8 |-> {}]
       ELSE [right |-> lim(ExplicitHeight(doc, sc, n) \cup (IF PercentOfAuto(doc, n) THEN HeightAsIs(doc, sc, n) ELSE {})), K2 |-> {}, K5 |-> {}, K25 |-> {},
             K8 |-> IF PercentOfPercent(doc, n) THEN lim(HeightAsIs(doc, sc, n)) ELSE {}]

-----------------------------------------------------------------------------
(* 10.3.1, 10.3.2, 10.6.1, 10.6.2: inline elements. *)
Ratio(i) == [n |-> i.rn, d |-> i.rd]
\* to whole pixels, as 1/64 px
Whole(x) == {64 * y : y \in Nearest(RMul(x, Rat(1, 64)))}
InlineWidth(doc, sc, n, b, avail) ==
    LET i == Intr(doc, n)
        v == St(doc, n, "width")
        h == St(doc, n, "height")
        around == b.bl + b.pl + b.pr + b.br + b.ml + b.mr
    IN IF ~i.rep THEN [right |-> {i.w}, asis |-> {}]
       ELSE IF v.t # "auto" THEN [right |-> Res(v, sc, avail), asis |-> {}]
       ELSE IF i.w # Odd THEN [right |-> {i.w}, asis |-> {}]
       ELSE IF h.t = "auto" /\ i.h # Odd /\ i.rn # 0 THEN [right |-> Whole(RMul(RInt(i.h), Ratio(i))), asis |-> {}]
       ELSE IF h.t = "auto" /\ i.rn # 0 THEN [right |-> {avail - around}, asis |-> {}]
       ELSE IF h.t # "auto" /\ i.rn # 0 THEN [right |-> UNION {Whole(RMul(RInt(x), Ratio(i))) : x \in Res(h, sc, 0)}, asis |-> {64 * 300}]   \* (K9)
       ELSE [right |-> {64 * 300}, asis |-> {}]
InlineHeight(doc, sc, n, b) ==
    LET i == Intr(doc, n)
        v == St(doc, n, "width")
        h == St(doc, n, "height")
    IN IF ~i.rep THEN {i.h}
       ELSE IF h.t # "auto" THEN Res(h, sc, 0)
       ELSE IF v.t = "auto" /\ i.h # Odd THEN {i.h}
       ELSE IF i.rn # 0 THEN LET x == RMul(RInt(b.cw), Ratio(i)) IN IF x.d = 1 THEN {x.n} ELSE {Odd}
       ELSE IF i.h # Odd /\ i.h # 0 THEN {i.h}
       ELSE {Mn(64 * (b.cw \div 128), 64 * 150)}

-----------------------------------------------------------------------------
(* The rules.  A broken rule is [cl, n, blame, kf, detail]; kf names the   *)
(* known finding that explains it, if any.                                 *)
KfProperty(kf) == CASE kf \in {"K1", "K2", "K6"} -> {"C16"} [] kf = "K3" -> {"C13"} [] kf = "K5" -> {"C15"} [] kf = "K8" -> {"C21"} [] kf \in {"K7", "K9"} -> {"C17"}
Broken(cl, n, blame, kf, detail) == {[cl |-> cl, n |-> n, blame |-> IF kf = "" THEN blame ELSE KfProperty(kf), kf |-> kf, detail |-> detail]}
If(p, x) == IF p THEN x ELSE {}

\* properties a node's surroundings bring in
Hiding(doc, n) == \E k \in 1..Len(Kids(doc, n)) : IsNone(doc, Kids(doc, n)[k])
Around(doc, n) ==
    LET p == Par(doc, n)
        near == {n} \cup (IF n = doc.root THEN {} ELSE {p} \cup {Kids(doc, p)[k] : k \in 1..Len(Kids(doc, p))}) \cup {Kids(doc, n)[k] : k \in 1..Len(Kids(doc, n))}
    IN (IF \E m \in near : IsNone(doc, m) THEN {"C18"} ELSE {}) \cup (IF \E m \in near : IsRelative(doc, m) THEN {"C16"} ELSE {})
       \cup (IF n = doc.root THEN {"C20"} ELSE {})
Lengthy(v) == v.t \in {"len", "kw"}

\* borders, paddings and margins that are not adjusted
EdgeRules(doc, sc, B, n) ==
    LET b == B[n]
        avail == CbWidth(doc, sc, B, n)
        whose == IF IsInline(doc, n) THEN {"C17"} ELSE {"C15"}
        \* a margin lost to the margin opposite being automatic
        lost(p, got) == LET q == IF p = "margin_top" THEN "margin_bottom" ELSE IF p = "margin_bottom" THEN "margin_top" ELSE IF p = "margin_left" THEN "margin_right" ELSE "margin_left"
                        IN p \in {"margin_top", "margin_bottom", "margin_left", "margin_right"} /\ got = 0 /\ IsAuto(doc, n, q)
        rule(p, got) == If(got \notin Res(St(doc, n, p), sc, avail), Broken(p, n, {"C21"} \cup (IF n = doc.root THEN {"C20"} ELSE {}) \cup (IF lost(p, got) THEN whose ELSE {}), "",
                                                                          <<St(doc, n, p), "of", avail, "observed", got>>))
        margin(p, got) == IF IsAuto(doc, n, p) THEN If(got # 0, Broken(p, n, whose, "", <<"auto", got>>)) ELSE rule(p, got)
    IN rule("padding_top", b.pt) \cup rule("padding_right", b.pr) \cup rule("padding_bottom", b.pb) \cup rule("padding_left", b.pl)
       \cup rule("border_top_width", b.bt) \cup rule("border_right_width", b.br) \cup rule("border_bottom_width", b.bb) \cup rule("border_left_width", b.bl)
       \cup margin("margin_top", b.mt) \cup margin("margin_bottom", b.mb)
       \cup (IF IsInline(doc, n) THEN margin("margin_left", b.ml) \cup margin("margin_right", b.mr) ELSE {})

WidthRules(doc, sc, B, n) ==
    LET b == B[n]
        avail == CbWidth(doc, sc, B, n)
        got == [cw |-> b.cw, ml |-> b.ml, mr |-> b.mr]
        blame == Around(doc, n) \cup (IF \E p \in {"width", "min_width", "max_width", "margin_left", "margin_right"} : Lengthy(St(doc, n, p)) THEN {"C21"} ELSE {})
    IN IF IsInline(doc, n)
       THEN LET w == InlineWidth(doc, sc, n, b, avail) IN
            If(b.cw \notin w.right, Broken("inline width", n, {"C17"} \cup Around(doc, n) \cup (IF Lengthy(St(doc, n, "width")) THEN {"C21"} ELSE {}),
                                           IF b.cw \in w.asis THEN "K9" ELSE "", <<"expected", w.right, "observed", b.cw>>))
       ELSE LET w == BlockWidths(doc, sc, n, b, avail) IN
            If(got \notin w.right, Broken("block width and margins", n, {"C13"} \cup blame, IF got \in w.asis THEN "K3" ELSE "", <<"expected", w.right, "observed", got>>))

LeftRules(doc, sc, B, n) ==
    LET b == B[n]
        base == IF IsInline(doc, n) /\ ~Replaced(doc, n) THEN 0 ELSE b.ml + b.bl + b.pl
        want == {base + x : x \in ShiftLeft(doc, sc, n, CbWidth(doc, sc, B, n))}
    IN If(b.cl \notin want, Broken("left edge", n, Around(doc, n) \cup (IF IsInline(doc, n) THEN {"C17"} ELSE {"C13"}),
                                   IF UsesInherit(doc, n) THEN "K6" ELSE "", <<"expected", want, "observed", b.cl>>))

TopRules(doc, sc, B, n) ==
    LET b == B[n]
        base == StaticTop(doc, B, n) + b.bt + b.pt
        want == {base + x : x \in ShiftTop(doc, sc, n)}
        again == b.bt + b.pt + (IF IsInline(doc, n) THEN b.mt ELSE 0)
        asis == {x + again : x \in want}
    IN If(b.ct \notin want, Broken("top edge", n, Around(doc, n) \cup (IF IsInline(doc, n) THEN {"C17"} ELSE {"C14"}),
                                   IF UsesInherit(doc, n) THEN "K6" ELSE IF IsRelative(doc, n) /\ again # 0 /\ b.ct \in asis THEN "K1" ELSE "",
                                   <<"expected", want, "observed", b.ct>>))

CollapseRules(doc, sc, B, n) ==
    LET b == B[n]
        above == IF n # doc.root THEN {} ELSE {"C20"}
    IN If(b.kt # TopExtent(doc, B, n), Broken("collapsed top margin", n, {"C14"} \cup Around(doc, n), "", <<"expected", TopExtent(doc, B, n), "observed", b.kt>>))
       \cup If(b.kb # BottomExtent(doc, B, n), Broken("collapsed bottom margin", n, {"C14"} \cup Around(doc, n), "", <<"expected", BottomExtent(doc, B, n), "observed", b.kb>>))

HeightRules(doc, sc, B, n) ==
    LET b == B[n] IN
    IF n = doc.root /\ sc.std = "HTML5"
    THEN If(b.ch # sc.h - b.kt - b.kb, Broken("root height", n, {"C20"}, "", <<"expected", sc.h - b.kt - b.kb, "observed", b.ch>>))
    ELSE IF IsInline(doc, n)
    THEN LET want == InlineHeight(doc, sc, n, b) IN
         If(b.ch \notin want, Broken("inline height", n, {"C17"} \cup Around(doc, n) \cup (IF Lengthy(St(doc, n, "height")) THEN {"C21"} ELSE {}), "", <<"expected", want, "observed", b.ch>>))
    ELSE LET h == BlockHeights(doc, sc, B, n)
             kf == IF b.ch \in h.K2 THEN "K2" ELSE IF b.ch \in h.K5 THEN "K5" ELSE IF b.ch \in h.K25 THEN "K5" ELSE IF b.ch \in h.K8 THEN "K8" ELSE ""
             blame == {"C15"} \cup Around(doc, n) \cup (IF IsAuto(doc, n, "height") THEN {"C14"} ELSE {"C21"})
         IN If(b.ch \notin h.right, Broken("block height", n, blame, kf, <<"expected", h.right, "observed", b.ch>>))

\* absolute position
OriginRules(doc, sc, B, n) ==
    LET b == B[n]
        t == IF n = doc.root THEN 0 ELSE B[Par(doc, n)].ot + B[Par(doc, n)].ct
        l == IF n = doc.root THEN 0 ELSE B[Par(doc, n)].ol + B[Par(doc, n)].cl
    IN If(b.ot # t \/ b.ol # l, Broken("origin", n, {"C12"} \cup Around(doc, n), "", <<"expected", t, l, "observed", b.ot, b.ol>>))

Numbers == {"ct", "cl", "cw", "ch", "ot", "ol", "mt", "mr", "mb", "ml", "kt", "kb", "bt", "br", "bb", "bl", "pt", "pr", "pb", "pl"}
OnGrid(B, n) == \A f \in Numbers : B[n][f] # Odd /\ B[n][f] # Auto

BoxRules(doc, sc, B) == UNION {If(B[n].shown # (n \in Shown(doc)), Broken("has a box", n, {"C18"}, "", B[n].shown)) : n \in Attached(doc)}
NodeRules(doc, sc, B, n) ==
    EdgeRules(doc, sc, B, n) \cup WidthRules(doc, sc, B, n) \cup LeftRules(doc, sc, B, n) \cup TopRules(doc, sc, B, n)
    \cup CollapseRules(doc, sc, B, n) \cup HeightRules(doc, sc, B, n) \cup OriginRules(doc, sc, B, n)
RulesBroken(doc, sc, B) ==
    LET boxes == BoxRules(doc, sc, B)
        off == {n \in Shown(doc) : B[n].shown /\ ~OnGrid(B, n)}
    IN IF boxes # {} THEN boxes
       ELSE IF off # {} THEN UNION {Broken("on the grid", n, {"C21"} \cup (IF IsInline(doc, n) THEN {"C17"} ELSE {"C13", "C15"}), "", B[n]) : n \in off}
       ELSE UNION {NodeRules(doc, sc, B, n) : n \in Shown(doc)}

-----------------------------------------------------------------------------
(* The layout, computed. *)
One(S) == CHOOSE x \in S : \A y \in S : x <= y
OneOf(S) == CHOOSE x \in S : TRUE
NoneBox == [shown |-> FALSE, ct |-> 0, cl |-> 0, cw |-> 0, ch |-> 0, ot |-> 0, ol |-> 0, mt |-> 0, mr |-> 0, mb |-> 0, ml |-> 0, kt |-> 0, kb |-> 0,
            bt |-> 0, br |-> 0, bb |-> 0, bl |-> 0, pt |-> 0, pr |-> 0, pb |-> 0, pl |-> 0]

\* top down: edges, widths, horizontal positions
WideBox(doc, sc, n, avail) ==
    LET r(p) == One(Res(St(doc, n, p), sc, avail))
        z(p) == IF IsAuto(doc, n, p) THEN 0 ELSE r(p)
        e == [NoneBox EXCEPT !.shown = TRUE, !.mt = z("margin_top"), !.mb = z("margin_bottom"), !.ml = z("margin_left"), !.mr = z("margin_right"),
                !.pt = r("padding_top"), !.pr = r("padding_right"), !.pb = r("padding_bottom"), !.pl = r("padding_left"),
                !.bt = r("border_top_width"), !.br = r("border_right_width"), !.bb = r("border_bottom_width"), !.bl = r("border_left_width")]
        w == IF IsInline(doc, n) THEN [cw |-> One(InlineWidth(doc, sc, n, e, avail).right), ml |-> e.ml, mr |-> e.mr]
             ELSE OneOf(BlockWidths(doc, sc, n, e, avail).right)
        f == [e EXCEPT !.cw = w.cw, !.ml = w.ml, !.mr = w.mr]
    IN [f EXCEPT !.cl = (IF IsInline(doc, n) /\ ~Replaced(doc, n) THEN 0 ELSE f.ml + f.bl + f.pl) + One(ShiftLeft(doc, sc, n, avail))]

RECURSIVE Wide(_, _, _, _, _)
RECURSIVE WideKids(_, _, _, _, _)
\* B: boxes so far
Wide(doc, sc, B, n, avail) ==
    IF IsNone(doc, n) THEN B
    ELSE LET b == TLCEval(WideBox(doc, sc, n, avail)) IN WideKids(doc, sc, TLCEval([B EXCEPT ![n] = b]), Kids(doc, n), b.cw)
WideKids(doc, sc, B, ks, avail) == IF ks = <<>> THEN B ELSE WideKids(doc, sc, Wide(doc, sc, B, Head(ks), avail), Tail(ks), avail)

\* bottom up: collapsed margins, heights; then positions of the children
RECURSIVE Tall(_, _, _, _)
RECURSIVE TallKids(_, _, _, _)
Tall(doc, sc, B0, n) ==
    IF IsNone(doc, n) THEN B0
    ELSE LET B1 == TallKids(doc, sc, B0, Kids(doc, n))
             \* positions of the children (they depend on n's own border and padding only)
             ks == ShownKids(doc, n)
             B2 == TLCEval([m \in DOMAIN B1 |-> IF \E k \in 1..Len(ks) : ks[k] = m
                                THEN [B1[m] EXCEPT !.ct = StaticTop(doc, B1, m) + B1[m].bt + B1[m].pt + One(ShiftTop(doc, sc, m))] ELSE B1[m]])
             B3 == TLCEval([B2 EXCEPT ![n].kt = TopExtent(doc, B2, n), ![n].kb = BottomExtent(doc, B2, n)])
             h == IF IsInline(doc, n) THEN One(InlineHeight(doc, sc, n, B3[n])) ELSE One(BlockHeights(doc, sc, B3, n).right)
         IN TLCEval([B3 EXCEPT ![n].ch = h])
TallKids(doc, sc, B, ks) == IF ks = <<>> THEN B ELSE TallKids(doc, sc, Tall(doc, sc, B, Head(ks)), Tail(ks))

RECURSIVE Place(_, _, _, _, _)
RECURSIVE PlaceKids(_, _, _, _, _)
Place(doc, B, n, t, l) ==
    IF IsNone(doc, n) THEN B
    ELSE PlaceKids(doc, TLCEval([B EXCEPT ![n].ot = t, ![n].ol = l]), Kids(doc, n), t + B[n].ct, l + B[n].cl)
PlaceKids(doc, B, ks, t, l) == IF ks = <<>> THEN B ELSE PlaceKids(doc, Place(doc, B, Head(ks), t, l), Tail(ks), t, l)

LayoutOf(doc, sc) ==
    LET B0 == [n \in 1..Len(doc.nodes) |-> NoneBox]
        r == doc.root
    IN IF IsNone(doc, r) THEN B0
       ELSE LET B1 == TLCEval(Wide(doc, sc, B0, r, sc.w))
                B2 == TLCEval(Tall(doc, sc, B1, r))
                top == StaticTop(doc, B2, r) + B2[r].bt + B2[r].pt + One(ShiftTop(doc, sc, r))
                B3 == TLCEval([B2 EXCEPT ![r].ct = top, ![r].ch = IF sc.std = "HTML5" THEN sc.h - B2[r].kt - B2[r].kb ELSE @])
            IN TLCEval(Place(doc, B3, r, 0, 0))

-----------------------------------------------------------------------------
(* Editing documents. *)
RemoveAt(s, k) == [j \in 1..(Len(s) - 1) |-> IF j < k THEN s[j] ELSE s[j + 1]]
InsertAt(s, k, x) == [j \in 1..(Len(s) + 1) |-> IF j < k THEN s[j] ELSE IF j = k THEN x ELSE s[j - 1]]
Detach(doc, n) ==
    LET p == Par(doc, n)
        k == CHOOSE j \in 1..Len(Kids(doc, p)) : Kids(doc, p)[j] = n
    IN [doc EXCEPT !.nodes[p].kids = RemoveAt(@, k), !.nodes[n].par = 0]
Attach(doc, n, p, k) == [doc EXCEPT !.nodes[p].kids = InsertAt(@, k, n), !.nodes[n].par = p]
Edit(doc, op) ==
    CASE op.op = "set" -> [doc EXCEPT !.nodes[op.n].st = (op.p :> op.v) @@ @]
      [] op.op = "del" -> [doc EXCEPT !.nodes[op.n].st = [q \in DOMAIN @ \ {op.p} |-> @[q]]]
      [] op.op = "intr" -> [doc EXCEPT !.nodes[op.n].intr = op.v]
      [] op.op = "detach" -> Detach(doc, op.n)
      [] op.op = "attach" -> Attach(doc, op.n, op.par, op.at)
      [] op.op = "move" -> Attach(Detach(doc, op.n), op.n, op.par, op.at)
      [] OTHER -> doc
=============================================================================
