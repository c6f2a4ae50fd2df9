-------------------------------- MODULE Box --------------------------------
(***************************************************************************)
(* Layout boxes: their stored geometry, and a tree of nodes with boxes as  *)
(* a state machine.  All distances are integers, in 1/64 pixel.            *)
(*                                                                         *)
(* A world is [par, box]: par[n] is the parent of node n (0 for the root), *)
(* box[n] its box; box[n].shown is FALSE if node n has no box.             *)
(*   c   content: ct, cl position relative to the containing block;        *)
(*       cw, ch size                                                       *)
(*   o   origin: ot, ol absolute position of the containing block          *)
(*   m   margins mt mr mb ml (or Auto)    k   collapsed margin extents     *)
(*   b   border widths                    p   paddings                     *)
(*   dirty  "T" dirty, "F" clean, "N" being laid out                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Auto == -999999999
Max2(a, b) == IF a > b THEN a ELSE b
Sides == <<"t", "r", "b", "l">>
Margins == [mt |-> "kt", mr |-> "kr", mb |-> "kb", ml |-> "kl"]
Plain == {"cw", "ch", "bt", "br", "bb", "bl", "pt", "pr", "pb", "pl"}
Collapses == {"kt", "kr", "kb", "kl"}
Settable == {"ct", "cl"} \cup Plain \cup DOMAIN Margins \cup Collapses

ZeroBox == [shown |-> TRUE, ct |-> 0, cl |-> 0, cw |-> 0, ch |-> 0, ot |-> 0, ol |-> 0,
            mt |-> 0, mr |-> 0, mb |-> 0, ml |-> 0, kt |-> 0, kr |-> 0, kb |-> 0, kl |-> 0,
            bt |-> 0, br |-> 0, bb |-> 0, bl |-> 0, pt |-> 0, pr |-> 0, pb |-> 0, pl |-> 0, dirty |-> "T"]
NoBox == [ZeroBox EXCEPT !.shown = FALSE]

(* The three boxes of a box: <<top, right, bottom, left, width, height>>, relative to the containing block. *)
ContentBox(b) == <<b.ct, b.cl + b.cw, b.ct + b.ch, b.cl, b.cw, b.ch>>
Grow(e, t, r, b, l) == <<e[1] - t, e[2] + r, e[3] + b, e[4] - l, e[5] + l + r, e[6] + t + b>>
PaddingBox(b) == Grow(ContentBox(b), b.pt, b.pr, b.pb, b.pl)
BorderBox(b) == Grow(PaddingBox(b), b.bt, b.br, b.bb, b.bl)
(* ... and their absolute edges. *)
Absolute(b, e) == <<b.ot + e[1], b.ol + e[2], b.ot + e[3], b.ol + e[4]>>
\* what the text form of a box says: size and absolute position of the content
Text(b) == <<b.cw, b.ch, b.ol + b.cl, b.ot + b.ct>>
AbsTop(b) == b.ot + b.ct
AbsLeft(b) == b.ol + b.cl

Nodes(w) == 1..Len(w.par)
Kids(w, n) == {m \in Nodes(w) : w.par[m] = n}
ShownKids(w, n) == {m \in Kids(w, n) : w.box[m].shown}
\* n and the nodes below it that are reached through nodes with boxes
RECURSIVE Under(_, _)
Under(w, n) == {n} \cup UNION {Under(w, m) : m \in ShownKids(w, n)}
RECURSIVE UnderAll(_, _, _)
UnderAll(w, S, n) == IF n \notin S THEN {} ELSE {n} \cup UNION {UnderAll(w, S, m) : m \in ShownKids(w, n)}

(* The corner of a displayed node's parent has moved vertically (or horizontally): the node is put where it *)
(* belongs, and so is everything under it that thereby moves - wherever it was before.                       *)
RECURSIVE PutTops(_, _)
PutTops(w, S) ==
    IF S = {} THEN w
    ELSE LET n == CHOOSE m \in S : TRUE
             t == AbsTop(w.box[w.par[n]])
         IN IF w.box[n].ot = t THEN PutTops(w, S \ {n})
            ELSE LET w2 == TLCEval([w EXCEPT !.box[n].ot = t]) IN PutTops(w2, (S \ {n}) \cup ShownKids(w, n))
RECURSIVE PutLefts(_, _)
PutLefts(w, S) ==
    IF S = {} THEN w
    ELSE LET n == CHOOSE m \in S : TRUE
             l == AbsLeft(w.box[w.par[n]])
         IN IF w.box[n].ol = l THEN PutLefts(w, S \ {n})
            ELSE LET w2 == TLCEval([w EXCEPT !.box[n].ol = l]) IN PutLefts(w2, (S \ {n}) \cup ShownKids(w, n))

(* Put everything under n (n excluded) at the corner its parent's box gives it. *)
RECURSIVE Anchor(_, _)
Anchor(w, S) ==      \* S: nodes whose origins have to be put right
    IF S = {} THEN w
    ELSE LET n == CHOOSE m \in S : TRUE
             pb == w.box[w.par[n]]
             w2 == TLCEval([w EXCEPT !.box[n].ot = AbsTop(pb), !.box[n].ol = AbsLeft(pb)])
         IN Anchor(w2, (S \ {n}) \cup ShownKids(w, n))

Set(w, n, f, v) ==
    CASE f = "ct" -> IF v = w.box[n].ct THEN w ELSE PutTops([w EXCEPT !.box[n].ct = v], ShownKids(w, n))
      [] f = "cl" -> IF v = w.box[n].cl THEN w ELSE PutLefts([w EXCEPT !.box[n].cl = v], ShownKids(w, n))
      [] f \in Plain -> [w EXCEPT !.box[n][f] = v]
      [] f \in Collapses -> [w EXCEPT !.box[n][f] = IF v # Auto THEN Max2(@, v) ELSE @]
      [] f \in DOMAIN Margins ->
           LET w2 == [w EXCEPT !.box[n][f] = v] IN
           IF v = Auto THEN w2 ELSE [w2 EXCEPT !.box[n][Margins[f]] = Max2(@, v)]

Apply(w, op) ==
    CASE op.op = "set" -> Set(w, op.n, op.f, op.v)
      [] op.op = "origin" ->
           LET w2 == IF op.t = w.box[op.n].ot THEN w ELSE TLCEval(PutTops([w EXCEPT !.box[op.n].ot = op.t], ShownKids(w, op.n)))
           IN IF op.l = w.box[op.n].ol THEN w2 ELSE PutLefts([w2 EXCEPT !.box[op.n].ol = op.l], ShownKids(w, op.n))
      \* as the layout does for a box it has just made
      [] op.op = "anchor" -> Anchor(w, {op.n})
      [] op.op = "reset" -> [w EXCEPT !.box = [m \in Nodes(w) |-> IF m \in Under(w, op.n) THEN ZeroBox ELSE w.box[m]]]
      [] op.op = "dirty" -> [w EXCEPT !.box = [m \in Nodes(w) |-> IF m \in Under(w, op.n) THEN [w.box[m] EXCEPT !.dirty = op.v] ELSE w.box[m]]]
      \* a box that takes up space but is not drawn; a node that moves below another parent (and is put in
      \* its place there next: by anchoring it, or because its new parent moves)
      [] op.op = "visible" -> w
      [] op.op = "move" -> [w EXCEPT !.par[op.n] = op.par]
      [] op.op = "hide" -> [w EXCEPT !.box[op.n] = NoBox]
      [] op.op = "show" -> LET w2 == [w EXCEPT !.box[op.n] = ZeroBox] IN Anchor(w2, ShownKids(w2, op.n))

FreshWorld(par) == [par |-> par, box |-> [n \in 1..Len(par) |-> ZeroBox]]

(* The boxes away from the corner of their parent: just made, reset or moved, they have to be anchored next, *)
(* or are once their parent moves.                                                                           *)
Adrift(w) == {n \in Nodes(w) : w.par[n] # 0 /\ w.box[n].shown /\ w.box[w.par[n]].shown
                               /\ (w.box[n].ot # AbsTop(w.box[w.par[n]]) \/ w.box[n].ol # AbsLeft(w.box[w.par[n]]))}
=============================================================================
