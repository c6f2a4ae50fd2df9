---------------------------- MODULE Trace_Layout ----------------------------
(***************************************************************************)
(* Validates recorded layouts against Layout.  One history per line of the *)
(* file named by TRACE: [id, doc, ev]; an event is an edit of the document *)
(* or a layout of it, with the boxes that were observed:                   *)
(*   obs.boxes    the boxes after the layout                               *)
(*   obs.fresh    ... of a document built anew, same structure and styles  *)
(*   obs.pruned   ... of one without the elements that are not displayed   *)
(*   obs.other    ... laid out in the other HTML standard                  *)
(*   obs.unshifted ... with all offsets of relative positioning auto       *)
(*   obs.inputs   structure, styles, intrinsic sizes before and after      *)
(***************************************************************************)
EXTENDS Layout, Json, IOUtils

BX == INSTANCE Box
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES vCase, vPos, vDoc, vHid, vRef
vars == <<vCase, vPos, vDoc, vHid, vRef>>

LayoutProps == {"C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C24"}

\* nodes for which there is no size: the layout may fail (K7)
Sizeless(doc) == \E n \in Shown(doc) : IsInline(doc, n) /\ ~Replaced(doc, n) /\ (Intr(doc, n).w = Odd \/ Intr(doc, n).h = Odd)
CrashKf(doc) == IF \E n \in Shown(doc) : UsesInherit(doc, n) THEN "K6" ELSE IF Sizeless(doc) THEN "K7" ELSE ""

\* Nothing is said about the attempt to lay out what cannot be laid out, except that it is refused and leaves the document alone.
Outcome(doc, o) == IF Unsupported(doc)
                   THEN If(IF Endings(doc) = "*" THEN o.out = "ok" ELSE o.out # Endings(doc), Broken("is refused", 0, {"C24"}, "", <<"expected", Endings(doc), "observed", o.out>>))
                   ELSE If(o.out # "ok", Broken("layout succeeds", 0, LayoutProps, CrashKf(doc), o.out))

Compare(doc, cl, blame, B, o, S) ==
    IF o.out # "ok" THEN Broken(cl, 0, blame, "", o.out)
    ELSE LET diff == {n \in S : B[n] # o.boxes[n]} IN
         If(diff # {}, LET n == CHOOSE m \in diff : TRUE IN
                       Broken(cl, n, blame, "", <<{<<f, B[n][f], o.boxes[n][f]>> : f \in {g \in DOMAIN NoneBox : B[n][g] # o.boxes[n][g]}}>>))

\* C16: without the offsets, every size and every position but those of the shifted boxes is the same
Stable(doc) == \A n \in Shown(doc) : IsBlock(doc, n) /\ IsAuto(doc, n, "height") /\ ShownKids(doc, n) # <<>>
                 => LET ks == ShownKids(doc, n) IN ~IsRelative(doc, ks[Len(ks)])      \* (else K2 applies)
Unshifted(doc, sc, B, o) ==
    IF o.out # "ok" THEN Broken("without offsets", 0, {"C16"}, "", o.out)
    ELSE LET U == o.boxes
             same(n) == /\ \A f \in Numbers \ {"ct", "cl", "ot", "ol"} : B[n][f] = U[n][f]
                        /\ IF IsRelative(doc, n)
                           THEN /\ B[n].ct - U[n].ct \in ShiftTop(doc, sc, n)
                                /\ B[n].cl - U[n].cl \in ShiftLeft(doc, sc, n, CbWidth(doc, sc, B, n))
                           ELSE B[n].ct = U[n].ct /\ B[n].cl = U[n].cl
             bad == {n \in Shown(doc) : ~same(n)}
         IN If(bad # {} /\ Stable(doc) /\ ~(\E n \in Shown(doc) : UsesInherit(doc, n)),
               LET n == CHOOSE m \in bad : TRUE IN Broken("without offsets", n, {"C16"}, "", <<"with", B[n], "without", U[n]>>))

\* C11 on boxes as the layout leaves them
Consistent(doc, o) == UNION {
    LET b == o.boxes[n] d == o.derived[n] IN
    If(d.content # BX!ContentBox(b) \/ d.padding # BX!PaddingBox(b) \/ d.border # BX!BorderBox(b) \/ d.abscontent # BX!Absolute(b, BX!ContentBox(b))
       \/ d.abspadding # BX!Absolute(b, BX!PaddingBox(b)) \/ d.absborder # BX!Absolute(b, BX!BorderBox(b)), Broken("derived boxes", n, {"C11"}, "", d))
    : n \in {m \in Attached(doc) : o.boxes[m].shown}}

OnLayout(doc, sc, o, hid, ref) ==
    Outcome(doc, o)
    \cup (IF o.out # "ok" \/ Unsupported(doc) THEN {}
          ELSE RulesBroken(doc, sc, o.boxes)
               \cup (IF "fresh" \in DOMAIN o THEN Compare(doc, "as a fresh document", {"C19"} \cup (IF hid THEN {"C18"} ELSE {}) \cup (IF ref THEN {"C24"} ELSE {}), o.boxes, o.fresh, Attached(doc)) ELSE {})
               \cup (IF "pruned" \in DOMAIN o THEN Compare(doc, "as without undisplayed elements", {"C18"}, o.boxes, o.pruned, Shown(doc)) ELSE {})
               \cup (IF "other" \in DOMAIN o THEN Compare(doc, "as in the other standard", {"C20"}, o.boxes, o.other, Shown(doc) \ {doc.root}) ELSE {})
               \cup (IF "unshifted" \in DOMAIN o THEN Unshifted(doc, sc, o.boxes, o.unshifted) ELSE {})
               \cup (IF "derived" \in DOMAIN o THEN Consistent(doc, o) ELSE {}))
    \cup (IF "inputs" \in DOMAIN o /\ o.inputs[1] # o.inputs[2] THEN Broken("inputs unchanged", 0, {"C19"} \cup (IF Unsupported(doc) THEN {"C24"} ELSE {}), "", o.inputs) ELSE {})

Report(cls) == \A x \in cls : PrintT("@@" \o ToJson([id |-> Cases[vCase].id, i |-> vPos, cl |-> x.cl, o |-> x.n, blame |-> x.blame, kf |-> x.kf, detail |-> ToString(x.detail)]))

Init == vCase \in 1..Len(Cases) /\ vPos = 1 /\ vDoc = Cases[vCase].doc /\ vHid = FALSE /\ vRef = FALSE
Step == /\ vPos <= Len(Cases[vCase].ev)
        /\ \E e \in {Cases[vCase].ev[vPos]} :
           /\ IF e.op = "layout" THEN \E cls \in {OnLayout(vDoc, e.sc, e.obs, vHid \/ \E n \in Attached(vDoc) : IsNone(vDoc, n), vRef)} : Report(cls)
              ELSE IF e.out # "ok" THEN Report(Broken("edit", e.n, {"C06", "C18", "C19"}, "", e)) ELSE TRUE
           /\ vDoc' = Edit(vDoc, e)
           /\ vHid' = (vHid \/ (e.op \in {"set", "del"} /\ e.p = "display"))
           /\ vRef' = (vRef \/ (e.op = "layout" /\ Unsupported(vDoc)))
        /\ vPos' = vPos + 1
        /\ UNCHANGED vCase
Spec == Init /\ [][Step]_vars
=============================================================================
