------------------------------ MODULE Trace_Box ------------------------------
(***************************************************************************)
(* Validates recorded histories of trees of boxes against Box.  One        *)
(* history per line of the file named by TRACE: [id, par, ev].             *)
(***************************************************************************)
EXTENDS Box, Json, IOUtils, FiniteSets

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES vCase, vPos, vWorld
vars == <<vCase, vPos, vWorld>>

Clause(name, n, blame, detail) == [cl |-> name, o |-> n, blame |-> blame, detail |-> ToString(detail)]
If(p, cl) == IF p THEN {cl} ELSE {}
Stored == Plain \cup {"ct", "cl"}
Pick(r, S) == [f \in S |-> r[f]]
Differ(a, b, S) == {<<f, a[f], b[f]>> : f \in {g \in S : a[g] # b[g]}}

\* Derived values are compared with what the *observed* stored quantities determine (C11), the stored quantities
\* and origins with the ones the history determines (C12, and C11 for plain quantities).
OnNode(n, want, got, loose) ==
    IF want.shown # got.shown THEN {Clause("has a box", n, {"C12"}, got.shown)}
    ELSE IF ~want.shown THEN {}
    ELSE LET b == got IN
         If(Differ(want, b, Stored) # {}, Clause("stored", n, {"C11", "C12"}, <<"expected/observed", Differ(want, b, Stored)>>))
         \cup If(~loose /\ Differ(want, b, {"ot", "ol"}) # {}, Clause("origin", n, {"C12"}, <<"expected/observed", Differ(want, b, {"ot", "ol"})>>))
         \cup If(Differ(want, b, Collapses \cup DOMAIN Margins) # {}, Clause("margins", n, {"C12"}, <<"expected/observed", Differ(want, b, Collapses \cup DOMAIN Margins)>>))
         \cup If(want.dirty # b.dirty, Clause("dirty", n, {"C12"}, <<"expected", want.dirty, "observed", b.dirty>>))
         \cup If(got.content # ContentBox(b), Clause("content box", n, {"C11"}, <<"expected", ContentBox(b), "observed", got.content>>))
         \cup If(got.padding # PaddingBox(b), Clause("padding box", n, {"C11"}, <<"expected", PaddingBox(b), "observed", got.padding>>))
         \cup If(got.border # BorderBox(b), Clause("border box", n, {"C11"}, <<"expected", BorderBox(b), "observed", got.border>>))
         \cup If(got.abscontent # Absolute(b, ContentBox(b)), Clause("absolute content box", n, {"C11", "C12"}, <<"expected", Absolute(b, ContentBox(b)), "observed", got.abscontent>>))
         \cup If(got.text # Text(b), Clause("text form", n, {"C11"}, <<"expected", Text(b), "observed", got.text>>))
         \cup If(got.abspadding # Absolute(b, PaddingBox(b)), Clause("absolute padding box", n, {"C11"}, <<"expected", Absolute(b, PaddingBox(b)), "observed", got.abspadding>>))
         \cup If(got.absborder # Absolute(b, BorderBox(b)), Clause("absolute border box", n, {"C11"}, <<"expected", Absolute(b, BorderBox(b)), "observed", got.absborder>>))
\* where a box away from its place (and what is under it) is meanwhile is nobody's concern
Loose(w) == UNION {Under(w, n) : n \in Adrift(w)}
\* the statement of C12 itself, on what was observed
OnTree(w, obs) ==
    {Clause("anchored", n, {"C12"}, <<"parent's corner", obs[w.par[n]].abscontent, "origin", obs[n].ot, obs[n].ol>>) :
       n \in {m \in Nodes(w) \ Adrift(w) : w.par[m] # 0 /\ obs[m].shown /\ obs[w.par[m]].shown
                 /\ (obs[m].ot # obs[w.par[m]].abscontent[1] \/ obs[m].ol # obs[w.par[m]].abscontent[4])}}

Seen(w, obs) == [w EXCEPT !.box = [n \in Nodes(w) |-> IF ~obs[n].shown THEN NoBox ELSE [f \in DOMAIN ZeroBox |-> obs[n][f]]]]

Report(cls) == \A x \in cls : PrintT("@@" \o ToJson([id |-> Cases[vCase].id, i |-> vPos, cl |-> x.cl, o |-> x.o, blame |-> x.blame, detail |-> x.detail]))

Init == vCase \in 1..Len(Cases) /\ vPos = 1 /\ vWorld = FreshWorld(Cases[vCase].par)
Step == /\ vPos <= Len(Cases[vCase].ev)
        /\ \E e \in {Cases[vCase].ev[vPos]} : \E a \in {Apply(vWorld, e.op)} :
           \E cls \in {
                If(e.out # "ok", Clause("outcome", 0, {"C11", "C12"}, e.out))
                \cup UNION {OnNode(n, a.box[n], e.obs[n], e.op.op # "reset" /\ n \in Loose(a)) : n \in Nodes(a)}
                \cup OnTree(a, e.obs)} :
              /\ Report(cls)
              /\ vPos' = vPos + 1
              /\ vWorld' = IF cls = {} THEN a ELSE Seen(a, e.obs)
        /\ UNCHANGED vCase
Spec == Init /\ [][Step]_vars
=============================================================================
