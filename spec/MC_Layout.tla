----------------------------- MODULE MC_Layout -----------------------------
(***************************************************************************)
(* Documents are built by deciding, slot by slot, which declaration a node *)
(* gets; every document of a family is laid out by the specification, its  *)
(* properties are checked, and it is printed for the real engine.          *)
(*                                                                         *)
(* For C18, C19 and C24 the states are documents being edited between layouts;  *)
(* every history of Depth edits is printed.                                *)
(***************************************************************************)
EXTENDS Layout, Json, IOUtils

Focus == IOEnv.FOCUS
Depth == atoi(IOEnv.DEPTH)
Big == IOEnv.BIG = "1"

VARIABLES vDoc, vSlot, vHist, vScreen
vars == <<vDoc, vSlot, vHist, vScreen>>

Dot(n) == LenV(n, 1, "px")
Pc(n) == LenV(n, 1, "%")
Half(n) == LenV(n, 2, "px")
Block == KwV("block")
Rel == KwV("relative")
Nd(par, kids, st) == [par |-> par, kids |-> kids, st |-> st, intr |-> NoIntrinsic]
B(st) == ("display" :> Block) @@ st
NoStyle == [x \in {} |-> x]
W(n) == ("width" :> Dot(n))
Screen(std) == [dpi |-> 96, w |-> 64 * 400, h |-> 64 * 300, thin |-> 64, medium |-> 192, thick |-> 384, std |-> std]

\* root; root > A > A1; root > B
Two == [root |-> 1, nodes |-> <<Nd(0, <<2>>, B(W(300))), Nd(1, <<>>, B(NoStyle))>>]
Four == [root |-> 1, nodes |-> <<Nd(0, <<2, 4>>, B(NoStyle)), Nd(1, <<3>>, B(NoStyle)), Nd(2, <<>>, B("height" :> Dot(12))), Nd(1, <<>>, B("height" :> Dot(15)))>>]
Pic == [root |-> 1, nodes |-> <<Nd(0, <<2>>, B(NoStyle)), [Nd(1, <<>>, NoStyle) EXCEPT !.intr = [NoIntrinsic EXCEPT !.rep = TRUE]]>>]

Start == CASE Focus \in {"C13", "C21"} -> Two [] Focus \in {"C17"} -> Pic [] OTHER -> Four
S(n, p, vs) == [n |-> n, p |-> p, vs |-> vs]
Intrinsics == {[NoIntrinsic EXCEPT !.rep = TRUE, !.w = w, !.h = h, !.rn = r, !.rd = 1] : w \in {Odd, 64 * 90}, h \in {Odd, 64 * 35, 0}, r \in {0, 2}}
              \cup {[NoIntrinsic EXCEPT !.w = 64 * 33, !.h = 64 * 21]}
Lengths21 == {LenV(3, 1, "px"), LenV(7, 4, "px"), LenV(10, 1, "%"), LenV(37, 2, "%"), LenV(2, 1, "vw"), LenV(2, 1, "vh"), LenV(2, 1, "vmin"), LenV(2, 1, "vmax"),
              LenV(9, 1, "pt"), LenV(1, 1, "pc"), LenV(1, 4, "in"), LenV(4, 1, "mm"), LenV(1, 1, "cm")}
Slots ==
    CASE Focus = "C13" -> <<S(2, "width", {Dot(100), Pc(50), Dot(320)}), S(2, "min_width", {Dot(150), Dot(310)}), S(2, "max_width", {Dot(80), Half(241)}),
                            S(2, "margin_left", {AutoV, Dot(10), Dot(-20)}), S(2, "margin_right", {AutoV, Half(61)}), S(2, "padding_left", {Dot(5)}),
                            S(2, "border_right_width", {KwV("thick")}), S(2, "direction", {KwV("rtl")})>>
                          \o (IF Big THEN <<S(2, "padding_right", {Pc(3)}), S(2, "border_left_width", {Half(3)}), S(1, "direction", {KwV("rtl")})>> ELSE <<>>)
      [] Focus = "C14" -> <<S(2, "margin_top", {Dot(20)}), S(2, "margin_bottom", {Dot(30)}), S(3, "margin_top", {Dot(40)}), S(3, "margin_bottom", {Dot(25)}),
                            S(2, "padding_top", {Dot(3)}), S(2, "border_bottom_width", {Dot(2)}), S(2, "height", {Dot(50)}), S(4, "margin_top", {Dot(35)}),
                            S(4, "display", {NoneV}), S(3, "display", {NoneV}), S(1, "padding_top", {Dot(4)})>>
                          \o (IF Big THEN <<S(1, "border_bottom_width", {Dot(1)}), S(4, "margin_bottom", {Dot(45)}), S(3, "height", {Dot(0), Half(15)})>> ELSE <<>>)
      [] Focus = "C15" -> <<S(2, "height", {Dot(60), Pc(50), Dot(10)}), S(2, "min_height", {Dot(40)}), S(2, "max_height", {Dot(30)}), S(3, "height", {Dot(50), AutoV}),
                            S(3, "margin_bottom", {Dot(10), AutoV}), S(2, "padding_bottom", {Dot(3)}), S(2, "border_bottom_width", {Dot(2)}), S(3, "display", {NoneV}),
                            S(1, "height", {Dot(200)}), S(2, "margin_top", {AutoV})>>
                          \o (IF Big THEN <<S(4, "margin_bottom", {Dot(6)}), S(1, "min_height", {Dot(250)}), S(3, "min_height", {Half(131)})>> ELSE <<>>)
      [] Focus = "C16" -> <<S(2, "position", {Rel}), S(2, "left", {Dot(10), Pc(10)}), S(2, "right", {Dot(20)}), S(2, "top", {Dot(5), Dot(-5)}), S(2, "bottom", {Half(15)}),
                            S(1, "direction", {KwV("rtl")}), S(2, "padding_top", {Dot(3)}), S(2, "margin_bottom", {Dot(9)}), S(4, "position", {Rel}), S(4, "top", {Dot(7)})>>
                          \o (IF Big THEN <<S(3, "position", {Rel}), S(3, "left", {Dot(1)}), S(1, "position", {Rel}), S(1, "top", {Dot(2)})>> ELSE <<>>)
      [] Focus = "C17" -> <<S(2, "intr", Intrinsics), S(2, "width", {Dot(50), Pc(25)}), S(2, "height", {Dot(40)}), S(2, "margin_left", {AutoV, Dot(5)}),
                            S(2, "margin_top", {AutoV, Dot(6)}), S(2, "padding_top", {Dot(3)}), S(2, "border_left_width", {KwV("medium")})>>
                          \o (IF Big THEN <<S(2, "margin_right", {AutoV, Dot(8)}), S(2, "margin_bottom", {AutoV, Dot(4)}), S(2, "padding_right", {Dot(2)})>> ELSE <<>>)
      [] Focus = "C20" -> <<S(1, "margin_top", {Dot(20)}), S(1, "margin_bottom", {Dot(30)}), S(2, "margin_top", {Dot(40)}), S(4, "margin_bottom", {Dot(25)}), S(1, "padding_top", {Dot(3)}),
                            S(1, "border_bottom_width", {Dot(2)}), S(1, "height", {Dot(100), Pc(50)}), S(1, "min_height", {Dot(150)}), S(1, "max_height", {Dot(80)}),
                            S(4, "display", {NoneV})>>
                          \o (IF Big THEN <<S(1, "width", {Pc(50)}), S(1, "margin_left", {AutoV})>> ELSE <<>>)
      [] OTHER -> <<>>

Put(doc, n, p, v) == IF p = "intr" THEN [doc EXCEPT !.nodes[n].intr = v] ELSE [doc EXCEPT !.nodes[n].st = (p :> v) @@ @]

-----------------------------------------------------------------------------
(* Families *)
Histories == Focus \in {"C18", "C19", "C24"}
Last == vSlot > Len(Slots)
Emit(doc, ops) == PrintT("@@" \o ToJson([doc |-> doc, ops |-> ops]))
Lay(sc) == [op |-> "layout", sc |-> sc]

Screens == IF Focus = "C20" THEN {Screen("HTML4"), Screen("HTML5")} ELSE {Screen("HTML4")}
\* C21: every property that takes a length, every unit
Props21 == {"margin_top", "margin_right", "margin_bottom", "margin_left", "padding_top", "padding_right", "padding_bottom", "padding_left",
            "border_top_width", "border_right_width", "border_bottom_width", "border_left_width", "width", "min_width", "max_width", "height", "min_height", "max_height"}
Fits21(p, v) == v.u = "%" => p \notin {"border_top_width", "border_right_width", "border_bottom_width", "border_left_width", "min_height", "max_height"}
Init == /\ vScreen \in Screens
        /\ vHist = <<>>
        /\ IF Focus = "C21"
           THEN \E p \in Props21, q \in {"width", "height", "none"} : \E v \in Lengths21 :
                  /\ Fits21(p, v)
                  /\ vSlot = 1000
                  /\ vDoc = Put(Put(Put(Two, 1, "height", Dot(120)), 2, IF q = "none" THEN "position" ELSE q, IF q = "none" THEN KwV("static") ELSE Dot(90)), 2, p, v)
                  /\ Emit(vDoc, <<Lay(vScreen)>>)
           ELSE vDoc = Start /\ vSlot = 1

Decide == /\ ~Histories /\ vSlot <= Len(Slots)
          /\ \E d \in {vDoc} \cup {Put(vDoc, Slots[vSlot].n, Slots[vSlot].p, v) : v \in Slots[vSlot].vs} :
               /\ vDoc' = d
               /\ IF vSlot = Len(Slots) THEN Emit(d, <<Lay(vScreen)>>) ELSE TRUE
          /\ vSlot' = vSlot + 1
          /\ UNCHANGED <<vHist, vScreen>>

SetOp(n, p, v) == [op |-> "set", n |-> n, p |-> p, v |-> v]
Movable(doc, n, p) == n # doc.root /\ Par(doc, n) # 0 /\ p \notin Within(doc, n) /\ Par(doc, p) + (IF p = doc.root THEN 1 ELSE 0) # 0
\* C24: features the engine has no answer to, coming and going
Edits24(doc) ==
    {SetOp(n, "display", IF IsNone(doc, n) THEN Block ELSE NoneV) : n \in 2..4}
    \cup {SetOp(n, "float", v) : n \in {1, 3, 4}, v \in {KwV("left"), KwV("right")}}
    \cup {SetOp(n, "position", v) : n \in {1, 2, 3}, v \in {KwV("absolute"), KwV("fixed"), Rel}}
    \cup {SetOp(3, "display", KwV(s)) : s \in {"inline-block", "table-cell", "inline-table", "flex"}}
    \cup {[op |-> "intr", n |-> n, v |-> [NoIntrinsic EXCEPT !.rep = r, !.w = 64 * 90]] : n \in {1, 4}, r \in {TRUE}}
    \cup UNION {{[op |-> "del", n |-> n, p |-> p] : p \in {"float", "position"} \cap DOMAIN doc.nodes[n].st} : n \in 1..4}
    \cup {SetOp(3, "margin_top", Dot(40))}
Edits(doc) == IF Focus = "C24" THEN Edits24(doc) ELSE
    {SetOp(n, "display", IF IsNone(doc, n) THEN Block ELSE NoneV) : n \in 1..4}
    \cup {SetOp(2, "margin_top", Dot(20)), SetOp(3, "margin_top", Dot(40)), SetOp(3, "height", Dot(33)), SetOp(2, "padding_top", Dot(3)), SetOp(1, "padding_left", Dot(6)), SetOp(2, "width", Dot(70))}
    \cup {[op |-> "del", n |-> n, p |-> p] : n \in {3}, p \in {"height", "margin_top"} \cap DOMAIN doc.nodes[3].st}
    \cup {[op |-> "detach", n |-> n] : n \in {m \in {3, 4} : Par(doc, m) # 0}}
    \cup UNION {{[op |-> "attach", n |-> n, par |-> p, at |-> 1] : p \in {q \in {1, 2} : Par(doc, n) = 0}} : n \in {3, 4}}
    \cup {[op |-> "move", n |-> n, par |-> p, at |-> 1] : n \in {m \in {3, 4} : Par(doc, m) # 0}, p \in {1, 2}}
    \cup (IF Focus = "C19" THEN {SetOp(2, "position", Rel), SetOp(2, "top", Dot(5)), SetOp(4, "margin_left", AutoV)} ELSE {})

Editing == /\ Histories /\ Len(vHist) < Depth
           /\ \E op \in Edits(vDoc) :
              /\ vDoc' = Edit(vDoc, op)
              /\ vHist' = Append(vHist, op)
              \* a layout after every edit, or only at the end
              /\ IF Len(vHist') = Depth
                 THEN /\ Emit(Start, <<Lay(vScreen)>> \o [k \in 1..(2 * Depth) |-> IF k % 2 = 1 THEN vHist'[(k + 1) \div 2] ELSE Lay(vScreen)])
                      /\ Emit(Start, <<Lay(vScreen)>> \o vHist' \o <<Lay(vScreen)>>)
                 ELSE TRUE
           /\ UNCHANGED <<vSlot, vScreen>>
Next == Decide \/ Editing
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Ready == (Histories \/ Last) /\ ~Unsupported(vDoc)
Now == LayoutOf(vDoc, vScreen)
Flow(doc) == {n \in Shown(doc) : IsBlock(doc, n)}
WidthOf(doc, BB, n) == LET b == BB[n] IN b.ml + b.bl + b.pl + b.cw + b.pr + b.br + b.mr

C13_Equation(doc, BB) == \A n \in Flow(doc) :
    LET avail == IF n = doc.root THEN vScreen.w ELSE BB[Par(doc, n)].cw
        both == IsAuto(doc, n, "margin_left") /\ IsAuto(doc, n, "margin_right")
    IN /\ ~both => WidthOf(doc, BB, n) = avail
       /\ both /\ WidthOf(doc, BB, n) # avail => BB[n].ml = BB[n].mr /\ BB[n].ml >= 0 /\ avail - WidthOf(doc, BB, n) \in 1..127
       /\ (~IsRelative(doc, n)) => BB[n].cl = BB[n].ml + BB[n].bl + BB[n].pl
BorderTop(b) == b.ct - b.pt - b.bt
C14_Stack(doc, BB) == \A n \in Flow(doc) : BlockFlow(doc, n) =>
    LET ks == ShownKids(doc, n) IN \A k \in 1..(Len(ks) - 1) :
      LET x == BB[ks[k]] y == BB[ks[k + 1]] IN
      ~IsRelative(doc, ks[k]) /\ ~IsRelative(doc, ks[k + 1]) => BorderTop(y) = BorderTop(x) + BorderHeight(x) + Mx(x.kb, y.kt) /\ BorderTop(y) >= BorderTop(x) + BorderHeight(x)
\* a margin is never lost: it is outside (collapsed into the parent's) or inside (takes up space)
C14_First(doc, BB) == \A n \in Flow(doc) : BlockFlow(doc, n) =>
    LET c == BB[ShownKids(doc, n)[1]] IN
      ~IsRelative(doc, ShownKids(doc, n)[1]) => (BB[n].kt >= c.kt /\ BorderTop(c) = 0) \/ (BorderTop(c) = c.kt /\ BB[n].bt + BB[n].pt > 0)
C15_Height(doc, BB) == \A n \in Flow(doc) \ (IF vScreen.std = "HTML5" THEN {doc.root} ELSE {}) :
    LET mn == One(Res(St(doc, n, "min_height"), vScreen, 0)) mx == One(ResMax(St(doc, n, "max_height"), vScreen, 0)) IN
    /\ mn # Auto => BB[n].ch >= mn
    /\ mx # Auto /\ mx >= mn => BB[n].ch <= mx
Unshift(doc) == [doc EXCEPT !.nodes = [n \in 1..Len(@) |-> [@[n] EXCEPT !.st = [p \in DOMAIN @ \ SideNames |-> @[p]]]]]
C16_Undisturbed(doc, BB) == LET U == LayoutOf(Unshift(doc), vScreen) IN \A n \in Shown(doc) :
    /\ \A f \in Numbers \ {"ct", "cl", "ot", "ol"} : BB[n][f] = U[n][f]
    /\ ~IsRelative(doc, n) => BB[n].ct = U[n].ct /\ BB[n].cl = U[n].cl
Prune(doc) == [doc EXCEPT !.nodes = [n \in 1..Len(@) |-> [@[n] EXCEPT !.kids = SelectSeq(@, LAMBDA m : ~IsNone(doc, m))]]]
C18_NoTrace(doc, BB) == (~IsNone(doc, doc.root)) => LET U == LayoutOf(Prune(doc), vScreen) IN \A n \in Shown(doc) : BB[n] = U[n]
C18_NoBox(doc, BB) == \A n \in 1..Len(doc.nodes) : BB[n].shown = (n \in Shown(doc))
C20_Mode(doc, BB) == LET U == LayoutOf(doc, Screen(IF vScreen.std = "HTML4" THEN "HTML5" ELSE "HTML4")) IN \A n \in Shown(doc) \ {doc.root} : BB[n] = U[n]
C20_Root(doc, BB) == doc.root \in Shown(doc) /\ vScreen.std = "HTML5" => BB[doc.root].kt + BB[doc.root].ch + BB[doc.root].kb = vScreen.h
C12_Anchored(doc, BB) == \A n \in Shown(doc) \ {doc.root} : BB[n].ot = BB[Par(doc, n)].ot + BB[Par(doc, n)].ct /\ BB[n].ol = BB[Par(doc, n)].ol + BB[Par(doc, n)].cl

\* what is not displayed is no reason to refuse
C24_Hidden(doc) == (~IsNone(doc, doc.root)) => Endings(Prune(doc)) = Endings(doc)
RefusedRightly == Histories => Assert(C24_Hidden(vDoc), <<"C24_Hidden", vDoc>>)

\* every property on the computed layout (the costlier ones for their own family only), and the rules agree with the computation
Due(p) == Big \/ Focus = p
LayoutGood == Ready => \E BB \in {Now} :
    /\ Assert(RulesBroken(vDoc, vScreen, BB) = {}, <<"rules", vDoc, RulesBroken(vDoc, vScreen, BB)>>)
    /\ Assert(C13_Equation(vDoc, BB), <<"C13_Equation", vDoc, BB>>)
    /\ Assert(C14_Stack(vDoc, BB), <<"C14_Stack", vDoc>>) /\ Assert(C14_First(vDoc, BB), <<"C14_First", vDoc, BB>>)
    /\ Assert(C15_Height(vDoc, BB), <<"C15_Height", vDoc>>)
    /\ Assert(Due("C16") => C16_Undisturbed(vDoc, BB), <<"C16_Undisturbed", vDoc>>)
    /\ Assert(Due("C18") => C18_NoTrace(vDoc, BB), <<"C18_NoTrace", vDoc>>) /\ Assert(C18_NoBox(vDoc, BB), <<"C18_NoBox", vDoc>>)
    /\ Assert(Due("C20") => C20_Mode(vDoc, BB), <<"C20_Mode", vDoc>>) /\ Assert(C20_Root(vDoc, BB), <<"C20_Root", vDoc>>)
    /\ Assert(C12_Anchored(vDoc, BB), <<"C12_Anchored", vDoc>>)
=============================================================================
