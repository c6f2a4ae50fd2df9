----------------------------- MODULE Trace_Style -----------------------------
(***************************************************************************)
(* Validates recorded histories of style declarations against Style.       *)
(*                                                                         *)
(* The file named by the environment variable TRACE has one history per    *)
(* line: [id, pars, ev], ev a sequence of events [op, obs] where obs is    *)
(* what could be observed of every declaration and node after the          *)
(* operation.  A history is a behaviour of the specification iff each      *)
(* event's observation is the one Apply(world, op) determines.  Every          *)
(* disagreement is printed, with the clause that fails and the properties  *)
(* it violates; validation then goes on from the observed state, so that   *)
(* the rest of the history is judged too.                                  *)
(***************************************************************************)
EXTENDS Style, Json, IOUtils, FiniteSets

Cases == ndJsonDeserialize(IOEnv.TRACE)

\* (names used nowhere else: TLC caches no constant in whose definition a variable's name is bound)
VARIABLES vCase, vPos, vWorld
vars == <<vCase, vPos, vWorld>>

NamesIn(S) == {x[1] : x \in S}

\* names (targets) an operation speaks about
Named(op) == CASE op.op \in {"set", "del"} -> {op.n}
               [] op.op \in {"setitem", "delitem", "getitem"} -> {NameOf(op.n)}
               [] op.op \in {"new", "update"} -> {NameOf(op.items[k].n) : k \in 1..Len(op.items)}
               [] OTHER -> {}
Multi == DOMAIN Sided \cup DOMAIN Short
ByItem == {"setitem", "delitem", "getitem", "update", "new"}
StyleOps == {"set", "del", "setitem", "delitem", "update", "copy"}

\* Which properties a disagreement about an observation violates.
BlameOut(op, exp, got) ==
    {"C02"} \cup (IF Named(op) \cap Multi # {} THEN {"C03"} ELSE {})
    \cup (IF op.op \in ByItem THEN {"C04"} ELSE {})
    \cup (IF op.op = "copy" THEN {"C05"} ELSE {})
    \cup (IF op.op \in {"dirty", "intr"} \/ (op.op \in StyleOps \ {"copy"} /\ vWorld.objs[op.o].node # 0 /\ ~vWorld.nodes[vWorld.objs[op.o].node].box) THEN {"C06"} ELSE {})
    \cup (IF exp = "ok" /\ op.op # "copy" THEN {"C01"} ELSE {})
BlameEff(op, exp, o, names) ==
    {"C01"} \cup (IF exp = "ValueError" \/ Named(op) \cap names # {} THEN {"C02"} ELSE {})
    \cup (IF (Named(op) \cup names) \cap Multi # {} THEN {"C03"} ELSE {})
    \cup (IF op.op \in ByItem THEN {"C04"} ELSE {})
    \cup (IF op.op = "copy" \/ ("o" \in DOMAIN op /\ op.o # o) THEN {"C05"} ELSE {})
    \cup (IF op.op \in {"spoil", "tamper"} THEN {"C04", "C10", "C02"} ELSE {})
BlameView(op, exp) == {"C04"} \cup (IF exp = "ValueError" THEN {"C02"} ELSE {})
BlameDirty(op, exp) == {"C06"} \cup (IF exp = "ValueError" THEN {"C02"} ELSE {})
    \cup (IF op.op \in StyleOps THEN {"C05"} ELSE {})

Clause(name, o, blame, detail) == [cl |-> name, o |-> o, blame |-> blame, detail |-> ToString(detail)]

\* Disagreements about declaration o.
OnObj(op, exp, o, decl, obs) ==
    LET e == Diff(decl)
        g == SetOf(obs.eff)
        wrong == NamesIn((e \ g) \cup (g \ e))
        ei == Items(decl)
        gi == SetOf(obs.items)
    IN (IF e # g THEN {Clause("reads", o, BlameEff(op, exp, o, wrong), <<"expected", e \ g, "observed", g \ e>>)} ELSE {})
       \cup (IF SetOf(obs.keys) # DOMAIN decl THEN {Clause("keys", o, BlameView(op, exp), <<DOMAIN decl, obs.keys>>)} ELSE {})
       \cup (IF gi # ei \/ Len(obs.items) # Cardinality(ei) THEN {Clause("items", o, BlameView(op, exp), <<"expected", ei \ gi, "observed", gi \ ei>>)} ELSE {})
       \cup (IF TextDetermined(decl) /\ obs.str # TextOf(decl) THEN {Clause("text", o, BlameView(op, exp), <<TextOf(decl), obs.str>>)} ELSE {})
       \cup (IF obs.itemdiff # <<>> THEN {Clause("item access", o, {"C04"}, obs.itemdiff)} ELSE {})

OnNodes(op, exp, nodes, nodesAlt, obs) ==
    LET fits(nn) == \A n \in 1..Len(nn) : (nn[n].box /\ nn[n].dirty = "?" /\ obs.dirty[n] # "X") \/ obs.dirty[n] = (IF nn[n].box THEN nn[n].dirty ELSE "X")
    IN IF fits(nodes) \/ fits(nodesAlt) THEN {}
       ELSE {Clause("dirty", 0, BlameDirty(op, exp), <<"expected", [n \in 1..Len(nodes) |-> IF nodes[n].box THEN nodes[n].dirty ELSE "X"], "observed", obs.dirty>>)}

\* dirtiness as seen through the style and the intrinsic size of a node
OnViews(op, exp, ww, obs) ==
    LET seen(n) == IF n = 0 \/ obs.dirty[n] = "X" THEN "N" ELSE obs.dirty[n]
    IN (IF \E o \in 1..Len(ww.objs) : obs.odirty[o] # seen(ww.objs[o].node)
        THEN {Clause("style.dirty", 0, {"C06", "C05"}, obs)} ELSE {})
       \cup (IF \E n \in 1..Len(ww.nodes) : obs.idirty[n] # seen(n) THEN {Clause("intrinsic.dirty", 0, {"C06"}, obs)} ELSE {})

\* every read of a declaration that declares nothing
OnPristine(full) ==
    LET e == {<<n, Eff0[n]>> : n \in AllNames}
        g == SetOf(full)
        wrong == NamesIn((e \ g) \cup (g \ e))
    IN IF e = g THEN {}
       ELSE {Clause("initial values", 0, {"C01"} \cup (IF wrong \cap Multi # {} THEN {"C03"} ELSE {}), <<"expected", e \ g, "observed", g \ e>>)}

\* What was seen of declaration o after event j: recorded there or, if it looked the same before, where it last changed.
Seen(o, j) == LET x == Cases[vCase].ev[j].obs.objs[o] IN IF x.at = j THEN x ELSE Cases[vCase].ev[x.at].obs.objs[o]

ObservedWorld(ww, obs) ==
    [ objs |-> [o \in 1..Len(ww.objs) |->
                 [ww.objs[o] EXCEPT !.decl = [p \in {Seen(o, vPos).items[k][1] : k \in 1..Len(Seen(o, vPos).items)} |->
                     LET k == CHOOSE j \in 1..Len(Seen(o, vPos).items) : Seen(o, vPos).items[j][1] = p IN Seen(o, vPos).items[k][2]]]],
      nodes |-> [n \in 1..Len(ww.nodes) |-> [ww.nodes[n] EXCEPT !.box = (obs.dirty[n] # "X"), !.dirty = IF obs.dirty[n] = "X" THEN @ ELSE obs.dirty[n]]] ]

Report(cls) == \A x \in cls : PrintT("@@" \o ToJson([id |-> Cases[vCase].id, i |-> vPos, cl |-> x.cl, o |-> x.o, blame |-> x.blame, detail |-> x.detail]))

Init == /\ vCase \in 1..Len(Cases)
        /\ vPos = 1
        /\ vWorld = FreshWorld(Cases[vCase].pars)

\* (\E x \in {e} : P  is  LET x == e IN P  with e evaluated once)
\* An operation after which nobody looked: what a change that may or may not count left dirty is open.
Unseen == /\ vPos <= Len(Cases[vCase].ev)
          /\ "out" \notin DOMAIN Cases[vCase].ev[vPos].obs
          /\ \E e \in {Cases[vCase].ev[vPos]} : \E r \in {Apply(vWorld, e.op)} :
             vWorld' = IF r.ch = "may" /\ vWorld.objs[e.op.o].node # 0 /\ vWorld.nodes[vWorld.objs[e.op.o].node].box
                       THEN [r.w EXCEPT !.nodes = SetDirty(r.w.nodes, vWorld.objs[e.op.o].node, "?")] ELSE r.w
          /\ vPos' = vPos + 1
          /\ UNCHANGED vCase

Step == /\ vPos <= Len(Cases[vCase].ev)
        /\ "out" \in DOMAIN Cases[vCase].ev[vPos].obs
        /\ \E e \in {Cases[vCase].ev[vPos]} : \E r \in {Apply(vWorld, e.op)} :
           LET sized == Len(e.obs.objs) = Len(r.w.objs)
               target == IF "o" \in DOMAIN e.op THEN vWorld.objs[e.op.o].node ELSE 0
               alt == IF r.ch = "may" THEN SetDirty(r.w.nodes, target, "T") ELSE r.w.nodes
           IN \E cls \in {
                (IF e.obs.out # r.out THEN {Clause("outcome", 0, BlameOut(e.op, r.out, e.obs.out), <<"expected", r.out, "observed", e.obs.out>>)} ELSE {})
                \cup (IF "full" \in DOMAIN e.obs THEN OnPristine(e.obs.full) ELSE {})
                \cup (IF sized
                      THEN UNION {OnObj(e.op, r.out, o, r.w.objs[o].decl, Seen(o, vPos)) :
                                    o \in {x \in 1..Len(r.w.objs) : \/ e.obs.objs[x].at = vPos \/ (vPos > 1 /\ "out" \notin DOMAIN Cases[vCase].ev[vPos - 1].obs)
                                                                    \/ r.w.objs[x].decl # vWorld.objs[x].decl}}
                           \cup OnNodes(e.op, r.out, r.w.nodes, alt, e.obs)
                           \cup OnViews(e.op, r.out, r.w, e.obs)
                      ELSE IF e.obs.out # r.out THEN {}
                      ELSE {Clause("declarations", 0, {"C01", "C02", "C04", "C05"}, <<Len(r.w.objs), Len(e.obs.objs)>>)})} :
              /\ Report(cls)
              /\ IF ~sized THEN vPos' = Len(Cases[vCase].ev) + 1 /\ vWorld' = vWorld
                 ELSE vPos' = vPos + 1 /\ vWorld' = IF cls = {} /\ r.ch # "may" /\ (\A n \in 1..Len(r.w.nodes) : r.w.nodes[n].dirty # "?") THEN r.w ELSE ObservedWorld(r.w, e.obs)
        /\ UNCHANGED vCase

Next == Step \/ Unseen
Spec == Init /\ [][Next]_vars
=============================================================================
