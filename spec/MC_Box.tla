------------------------------- MODULE MC_Box -------------------------------
(***************************************************************************)
(* Every history of Depth operations on small trees of boxes.  Histories   *)
(* are printed (each shown behaviour is later executed on the real boxes). *)
(***************************************************************************)
EXTENDS Box, Json, IOUtils, FiniteSets

Depth == atoi(IOEnv.DEPTH)
EmitDepth == atoi(IOEnv.EMIT)
Pars == CASE IOEnv.TREE = "chain" -> <<0, 1, 2>>
          [] IOEnv.TREE = "fork" -> <<0, 1, 1>>
          [] IOEnv.TREE = "deep" -> <<0, 1, 2, 3, 1>>
Focus == IOEnv.FOCUS

VARIABLES vWorld, vHist
vars == <<vWorld, vHist>>

\* position and structure operations (C12) or every stored quantity (C11)
Fields == IF Focus = "C11" THEN Settable ELSE {"ct", "cl", "mt", "mr", "mb", "ml", "kt", "kr", "kb", "kl"}
Vals(f) == IF f \in DOMAIN Margins THEN {-96, 64, Auto} ELSE IF f \in {"ct", "cl"} THEN {0, 65, -128} ELSE {64, 130}
SetOps(n) == {[op |-> "set", n |-> n, f |-> f, v |-> v] : f \in Fields, v \in {-128, -96, 0, 64, 65, 130, Auto}}
Ops(w) ==
    LET up == {n \in Nodes(w) : w.box[n].shown}
        down == Nodes(w) \ up
        loose == Adrift(w) IN
    IF loose # {} THEN
        LET top == {m \in loose : w.par[m] \notin loose} IN
        {[op |-> "anchor", n |-> n] : n \in top}
        \cup {o \in {[op |-> "set", n |-> w.par[n], f |-> f, v |-> v] : n \in top, f \in {"ct", "cl"}, v \in {0, 65, -128}} : o.v # w.box[o.n][o.f]}
    ELSE {o \in UNION {SetOps(n) : n \in up} : o.v \in Vals(o.f)}
         \cup {[op |-> "origin", n |-> 1, t |-> t, l |-> l] : t \in {-64, 32}, l \in {64}}
         \cup {[op |-> "reset", n |-> n] : n \in up}
         \cup {[op |-> "dirty", n |-> n, v |-> v] : n \in up, v \in IF Focus = "C11" THEN {"F"} ELSE {"F", "N"}}
         \cup {[op |-> "hide", n |-> n] : n \in up \ {1}}
         \cup (IF Focus = "C11" THEN {} ELSE {[op |-> "move", n |-> n, par |-> p] : n \in up \ {1}, p \in up})
         \cup {[op |-> "show", n |-> n] : n \in {m \in down : w.box[w.par[m]].shown}}

RECURSIVE Beneath(_, _)
Beneath(w, n) == {n} \cup UNION {Beneath(w, m) : m \in Kids(w, n)}
\* (the origin op is on the root only when it is displayed)
Enabled(w, op) == /\ op.op = "origin" => w.box[1].shown
                  /\ op.op = "move" => op.par # w.par[op.n] /\ op.par \notin Beneath(w, op.n)

(* C12: an operation moves what it names, everything under it, and nothing else. *)
Must(p, name, op) == Assert(p, <<"transition violates", name, op>>)
Geometry(b) == <<b.cw, b.ch, b.bt, b.br, b.bb, b.bl, b.pt, b.pr, b.pb, b.pl>>
InPlace(b, S) == S \cap Adrift(b) = {}
C12_Moves(b, op, a) == op.op = "set" =>
    \A m \in Nodes(b) \ {op.n} :
      /\ m \notin Under(b, op.n) => a.box[m] = b.box[m]
      /\ m \in Under(b, op.n) =>
           /\ InPlace(b, Under(b, op.n)) =>
                /\ AbsTop(a.box[m]) - AbsTop(b.box[m]) = AbsTop(a.box[op.n]) - AbsTop(b.box[op.n])
                /\ AbsLeft(a.box[m]) - AbsLeft(b.box[m]) = AbsLeft(a.box[op.n]) - AbsLeft(b.box[op.n])
           /\ Geometry(a.box[m]) = Geometry(b.box[m])
\* wherever its children were, a box that moves has them at its corner afterwards
C12_Gathers(b, op, a) == op.op = "set" => \A m \in ShownKids(a, op.n) :
    /\ a.box[op.n].ct # b.box[op.n].ct => a.box[m].ot = AbsTop(a.box[op.n])
    /\ a.box[op.n].cl # b.box[op.n].cl => a.box[m].ol = AbsLeft(a.box[op.n])
C12_Reset(b, op, a) == op.op = "reset" => \A m \in Under(b, op.n) : a.box[m] = ZeroBox
C12_Collapse(b, op, a) == op.op = "set" =>
    \A k \in Collapses : a.box[op.n][k] # b.box[op.n][k] => a.box[op.n][k] = op.v /\ op.v > b.box[op.n][k] /\ (op.f = k \/ Margins[op.f] = k)
StepOK(b, op, a) == Must(C12_Moves(b, op, a), "C12_Moves", op) /\ Must(C12_Reset(b, op, a), "C12_Reset", op)
                    /\ Must(C12_Gathers(b, op, a), "C12_Gathers", op)
                    /\ Must(C12_Collapse(b, op, a), "C12_Collapse", op)

Init == vWorld = FreshWorld(Pars) /\ vHist = <<>>
Emit(h) == IF Len(h) = EmitDepth THEN PrintT("@@" \o ToJson([par |-> Pars, ops |-> h])) ELSE TRUE
Next == /\ Len(vHist) < Depth
        /\ \E op \in Ops(vWorld) :
           /\ Enabled(vWorld, op)
           /\ \E a \in {Apply(vWorld, op)} :
              /\ vWorld' = a
              /\ vHist' = Append(vHist, op)
              /\ StepOK(vWorld, op, a)
              /\ Emit(vHist')
Spec == Init /\ [][Next]_vars
View == <<vWorld, Len(vHist)>>

-----------------------------------------------------------------------------
\* C11: width = right - left and height = bottom - top, for each of the three boxes; absolute = origin + relative
C11_Sizes == \A n \in Nodes(vWorld) : \A e \in {ContentBox(vWorld.box[n]), PaddingBox(vWorld.box[n]), BorderBox(vWorld.box[n])} :
    e[5] = e[2] - e[4] /\ e[6] = e[3] - e[1]
C11_Absolute == \A n \in Nodes(vWorld) : LET b == vWorld.box[n] IN \A e \in {ContentBox(b), PaddingBox(b), BorderBox(b)} :
    LET x == Absolute(b, e) IN x[2] - x[4] = e[5] /\ x[3] - x[1] = e[6]
\* C12: each displayed child is anchored at its parent's content corner (a box just reset is put there next)
C12_Anchored == \A n \in Adrift(vWorld) : \E i \in 1..Len(vHist) :
    /\ vHist[i].n = n /\ vHist[i].op \in {"reset", "show", "move"}
    /\ \A j \in (i + 1)..Len(vHist) : ~(vHist[j].op = "anchor" /\ vHist[j].n = n)
C12_Extent == \A n \in Nodes(vWorld) : LET b == vWorld.box[n] IN
    \A f \in DOMAIN Margins : b[f] # Auto => b[Margins[f]] >= b[f] /\ b[Margins[f]] >= 0
=============================================================================
