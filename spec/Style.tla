------------------------------- MODULE Style --------------------------------
(***************************************************************************)
(* Style declarations and the dirtiness of the layouts they belong to, as  *)
(* a state machine.                                                        *)
(*                                                                         *)
(* A world is a record                                                     *)
(*   objs  - the style declarations in existence: [decl, node], decl being *)
(*           a function from the declared longhands to their values, node  *)
(*           the node the declaration is bound to (0: none)                *)
(*   nodes - the nodes: [par, box, dirty, intr], box telling whether the   *)
(*           node has a layout box, dirty in {"T", "F", "N"} (N: being     *)
(*           evaluated), intr its intrinsic attributes                     *)
(*                                                                         *)
(* Apply(w, op) is the transition function: it gives the world after the   *)
(* operation and what the caller sees.                                     *)
(***************************************************************************)
EXTENDS Props

NoDecl == [p \in {} |-> None]

InitialOf(decl, p) ==
    LET i == Longhand[p].init IN
    CASE i.t = "follows" -> IF i.s \in DOMAIN decl THEN decl[i.s] ELSE Longhand[i.s].init
      [] i.t = "bydirection" -> IF "direction" \in DOMAIN decl /\ decl["direction"] = Kw("rtl") THEN Kw("right") ELSE Kw("left")
      [] OTHER -> i

Effective(decl, p) == IF p \in DOMAIN decl THEN decl[p] ELSE InitialOf(decl, p)

Parts(name) == [k \in 1..3 |-> Short[name][k].p]
RECURSIVE DeclaredParts(_, _)
DeclaredParts(decl, ps) ==
    IF ps = <<>> THEN <<>>
    ELSE (IF Head(ps) \in DOMAIN decl THEN <<<<Head(ps), decl[Head(ps)]>>>> ELSE <<>>) \o DeclaredParts(decl, Tail(ps))

(* What reading a name gives. *)
Read(decl, name) ==
    IF name \in Longhands THEN Effective(decl, name)
    ELSE IF name \in DOMAIN Sided THEN [t |-> "seq", p |-> [k \in 1..4 |-> Effective(decl, Sided[name][k])]]
    ELSE LET k == IF name = "border" THEN <<>> ELSE DeclaredParts(decl, Parts(name))
         IN IF k = <<>> THEN Kw("") ELSE [t |-> "short", k |-> k]

-----------------------------------------------------------------------------
(* Assignments.  A result says whether the declaration was accepted, the   *)
(* declarations afterwards, and whether anything changed: "yes", "no", or  *)
(* "may" where an equal value of a compound kind is assigned again, which  *)
(* may or may not count as a change.                                       *)
Res(ok, decl, ch) == [ok |-> ok, decl |-> decl, ch |-> ch]

Compound(v) == v.t \in {"rgb", "hsl", "spacing"} \/ (v.t = "cursor" /\ \E k \in 1..Len(v.p) : v.p[k].t = "uri")
\* an undeclared property whose initial value is not a plain value never counts as already having the value
ComputedInit(p) == Longhand[p].init.t \in {"follows", "bydirection", "spacing"}

AssignValue(decl, p, v) ==
    IF p \notin DOMAIN decl
    THEN IF ~ComputedInit(p) /\ v = Longhand[p].init THEN Res(TRUE, decl, "no")
         ELSE Res(TRUE, (p :> v) @@ decl, "yes")
    ELSE IF decl[p] = v THEN Res(TRUE, decl, IF Compound(v) THEN "may" ELSE "no")
    ELSE Res(TRUE, [decl EXCEPT ![p] = v], "yes")

Worse(a, b) == IF a = "yes" \/ b = "yes" THEN "yes" ELSE IF a = "may" \/ b = "may" THEN "may" ELSE "no"
RECURSIVE AssignAll(_, _, _)
\* ps: longhands, vs: values, in turn
AssignAll(decl, ps, vs) ==
    IF ps = <<>> THEN Res(TRUE, decl, "no")
    ELSE LET r == AssignValue(decl, Head(ps), Head(vs))
             s == AssignAll(r.decl, Tail(ps), Tail(vs))
         IN Res(TRUE, s.decl, Worse(r.ch, s.ch))

Remove(decl, ps) ==
    LET gone == {ps[k] : k \in 1..Len(ps)} \cap DOMAIN decl
    IN Res(TRUE, [q \in DOMAIN decl \ gone |-> decl[q]], IF gone = {} THEN "no" ELSE "yes")

\* the four sides, from one value or a tuple of one to four
SideRaws(raw) ==
    IF raw.k = "tuple"
    THEN CASE Len(raw.p) = 1 -> <<raw.p[1], raw.p[1], raw.p[1], raw.p[1]>>
           [] Len(raw.p) = 2 -> <<raw.p[1], raw.p[2], raw.p[1], raw.p[2]>>
           [] Len(raw.p) = 3 -> <<raw.p[1], raw.p[2], raw.p[3], raw.p[2]>>
           [] Len(raw.p) = 4 -> raw.p
           [] OTHER -> <<>>
    ELSE <<raw, raw, raw, raw>>

AssignSides(decl, name, raw) ==
    LET rs == SideRaws(raw)
        kind == KindOf(Sided[name][1])
        vs == TLCEval([k \in 1..Len(rs) |-> Validate(kind, rs[k])])
    IN IF rs # <<>> /\ \A k \in 1..4 : OK(vs[k]) THEN AssignAll(decl, Sided[name], vs)
       ELSE Res(FALSE, decl, "no")

\* the parts written in a shorthand, or <<>> if it is not made of one to three parts
ShortRaws(raw) ==
    CASE raw.k = "str" -> LET ps == SplitWs(Chars(raw.s)) IN [k \in 1..Len(ps) |-> StrRaw(Str(ps[k]))]
      [] raw.k \in {"tuple", "list"} -> raw.p
      [] OTHER -> <<>>
\* which part (1..3) a written part belongs to: the first whose kind accepts it
PartFor(name, raw) == LET S == {k \in 1..3 : OK(Validate(Kinds[Short[name][k].kind], raw))}
                      IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
LonghandsOf(part) == IF part \in DOMAIN Sided THEN Sided[part] ELSE <<part>>

AssignShort(decl, name, raw) ==
    LET rs == TLCEval(ShortRaws(raw))
        which == TLCEval([k \in 1..Len(rs) |-> PartFor(name, rs[k])])
        valid == Len(rs) \in 1..3 /\ (\A k \in 1..Len(rs) : which[k] # 0)
                 /\ (\A j, k \in 1..Len(rs) : j # k => which[j] # which[k])
        RECURSIVE Go(_, _)
        Go(d, part) ==
            IF part > 3 THEN d
            ELSE LET lhs == LonghandsOf(Short[name][part].p)
                     used == {k \in 1..Len(rs) : which[k] = part}
                 IN IF used = {} THEN Go(Remove(d, lhs).decl, part + 1)
                    ELSE LET v == Validate(Kinds[Short[name][part].kind], rs[CHOOSE k \in used : TRUE])
                         IN Go(AssignAll(d, lhs, [k \in 1..Len(lhs) |-> v]).decl, part + 1)
    IN IF valid THEN LET d == Go(decl, 1) IN Res(TRUE, d, IF d = decl THEN "may" ELSE "yes") ELSE Res(FALSE, decl, "no")

Assign(decl, name, raw) ==
    IF name \in Longhands
    THEN LET v == Validate(KindOf(name), raw) IN IF OK(v) THEN AssignValue(decl, name, v) ELSE Res(FALSE, decl, "no")
    ELSE IF name \in DOMAIN Sided THEN AssignSides(decl, name, raw)
    ELSE AssignShort(decl, name, raw)

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
AllLonghandsOf(name) ==
    IF name \in Longhands THEN <<name>>
    ELSE IF name \in DOMAIN Sided THEN Sided[name]
    ELSE Concat([k \in 1..3 |-> LonghandsOf(Short[name][k].p)])

Delete(decl, name) ==
    LET r == Remove(decl, AllLonghandsOf(name))
    IN IF name \in DOMAIN Short /\ r.ch = "no" THEN Res(TRUE, r.decl, "may") ELSE r

\* the property a spelling names (the table is there for speed only)
Spelled == TLCEval([s \in AllNames \cup {Hyphened(n) : n \in AllNames} |-> Underscored(s)])
NameOf(s) == IF s \in DOMAIN Spelled THEN Spelled[s] ELSE Underscored(s)

RECURSIVE Update(_, _)
\* items: sequence of [n |-> name as spelled, raw]; stops at the first one refused
Update(decl, items) ==
    IF items = <<>> THEN [out |-> "ok", decl |-> decl, ch |-> "no"]
    ELSE LET nm == NameOf(Head(items).n)
             raw == Head(items).raw
         IN IF nm \notin AllNames THEN [out |-> "NameError", decl |-> decl, ch |-> "no"]
            ELSE LET r == IF raw.k = "none" THEN Delete(decl, nm) ELSE Assign(decl, nm, raw)
                 IN IF ~r.ok THEN [out |-> "ValueError", decl |-> decl, ch |-> "no"]
                    ELSE LET s == Update(r.decl, Tail(items))
                         IN [out |-> s.out, decl |-> s.decl, ch |-> Worse(r.ch, s.ch)]

(* A copy re-declares each declared value on a fresh declaration. *)
CopyDecl(decl) ==
    LET kept == {p \in DOMAIN decl : ComputedInit(p) \/ decl[p] # Longhand[p].init}
    IN [p \in kept |-> decl[p]]

-----------------------------------------------------------------------------
(* Views *)
HyphenOf == TLCEval([n \in AllNames |-> Hyphened(n)])
Items(decl) == {<<p, decl[p]>> : p \in DOMAIN decl}
TextOf(decl) ==
    LET declared(p) == p \in DOMAIN decl
        names == SelectSeq(SortedLonghands, declared)
    IN JoinS([k \in 1..Len(names) |-> HyphenOf[names[k]] \o ": " \o Write(decl[names[k]])], "; ")
TextDetermined(decl) == \A p \in DOMAIN decl : Writable(decl[p])

(* The names whose reading differs from what an empty declaration gives, with what they read as. *)
SetOf(s) == {s[k] : k \in 1..Len(s)}
Eff0 == TLCEval([n \in AllNames |-> Read(NoDecl, n)])
\* the names whose reading depends on the declaration of longhand p
Affects == TLCEval([p \in Longhands |->
    LET follow == {q \in Longhands : \/ q = p
                                      \/ Longhand[q].init = Follows(p)
                                      \/ (Longhand[q].init = ByDirection /\ p = "direction")}
    IN follow \cup {n \in AllNames \ Longhands : SetOf(AllLonghandsOf(n)) \cap follow # {}}])
Diff(decl) == {<<n, Read(decl, n)>> : n \in {m \in UNION {Affects[p] : p \in DOMAIN decl} : Read(decl, m) # Eff0[m]}}

-----------------------------------------------------------------------------
(* Dirtiness *)
RECURSIVE SetDirty(_, _, _)
RECURSIVE SetDirtyKids(_, _, _)
SetDirty(nodes, n, val) ==
    IF n = 0 \/ ~nodes[n].box THEN nodes
    ELSE SetDirtyKids([nodes EXCEPT ![n].dirty = val], {m \in 1..Len(nodes) : nodes[m].par = n}, val)
SetDirtyKids(nodes, kids, val) ==
    IF kids = {} THEN nodes
    ELSE LET m == CHOOSE x \in kids : TRUE IN SetDirtyKids(SetDirty(nodes, m, val), kids \ {m}, val)

DirtyOf(nodes, n) == IF n = 0 \/ ~nodes[n].box THEN "N" ELSE nodes[n].dirty

-----------------------------------------------------------------------------
(* The transition function.  ch tells whether the bound node was marked.   *)
Out(w, out, ch) == [w |-> w, out |-> out, ch |-> ch]
Changed(w, o, decl, out, ch) ==
    LET w1 == [w EXCEPT !.objs[o].decl = decl]
    IN Out(IF ch = "yes" THEN [w1 EXCEPT !.nodes = SetDirty(@, w.objs[o].node, "T")] ELSE w1, out, ch)

FromRes(w, o, r) == Changed(w, o, r.decl, IF r.ok THEN "ok" ELSE "ValueError", r.ch)

Apply(w, op) ==
    CASE op.op = "new" ->
           LET u == Update(NoDecl, op.items)
           IN Out(IF u.out = "ok" THEN [w EXCEPT !.objs = Append(@, [decl |-> u.decl, node |-> 0])] ELSE w, u.out, "no")
      [] op.op = "set" -> FromRes(w, op.o, Assign(w.objs[op.o].decl, op.n, op.raw))
      [] op.op = "setitem" ->
           LET nm == NameOf(op.n) IN
           IF nm \in AllNames THEN FromRes(w, op.o, Assign(w.objs[op.o].decl, nm, op.raw)) ELSE Out(w, "KeyError", "no")
      [] op.op = "del" -> FromRes(w, op.o, Delete(w.objs[op.o].decl, op.n))
      [] op.op = "delitem" ->
           LET nm == NameOf(op.n) IN
           IF nm \in AllNames THEN FromRes(w, op.o, Delete(w.objs[op.o].decl, nm)) ELSE Out(w, "KeyError", "no")
      [] op.op = "getitem" ->
           LET nm == NameOf(op.n) IN Out(w, IF nm \in AllNames THEN "ok" ELSE "KeyError", "no")
      [] op.op = "update" ->
           LET u == Update(w.objs[op.o].decl, op.items) IN Changed(w, op.o, u.decl, u.out, u.ch)
      [] op.op = "copy" ->
           LET d == CopyDecl(w.objs[op.o].decl)
               w1 == [w EXCEPT !.objs = Append(@, [decl |-> d, node |-> op.node])]
           IN Out(IF DOMAIN d = {} THEN w1 ELSE [w1 EXCEPT !.nodes = SetDirty(@, op.node, "T")],
                  "ok", IF DOMAIN d = {} THEN "no" ELSE "yes")
      [] op.op = "dirty" -> Out([w EXCEPT !.nodes = SetDirty(@, op.node, op.val)], "ok", "no")
      [] op.op = "intr" ->
           IF w.nodes[op.node].intr[op.attr] = op.v THEN Out(w, "ok", "no")
           ELSE LET w1 == [w EXCEPT !.nodes[op.node].intr[op.attr] = op.v]
                IN Out([w1 EXCEPT !.nodes = SetDirty(@, op.node, "T")], "ok", "yes")
      \* the caller changes what it passed in before, or what it was given: that is its own
      [] op.op \in {"spoil", "tamper"} -> Out(w, "ok", "no")
      \* a node moves to another place in its document, or out of it (par 0); a box is made invisible: dirtiness is as it was
      [] op.op = "reparent" -> Out([w EXCEPT !.nodes[op.node].par = op.par], "ok", "no")
      [] op.op = "visible" -> Out(w, "ok", "no")
      [] op.op = "hide" -> Out([w EXCEPT !.nodes[op.node].box = FALSE], "ok", "no")
      [] op.op = "show" -> Out(IF w.nodes[op.node].box THEN w
                               ELSE [w EXCEPT !.nodes[op.node].box = TRUE, !.nodes[op.node].dirty = "T"], "ok", "no")

NoneI == [t |-> "none"]
BoolI(b) == [t |-> "bool", b |-> b]
FreshIntrinsic == [width |-> NoneI, height |-> NoneI, exact_width |-> BoolI(TRUE), exact_height |-> BoolI(TRUE),
                   ratio |-> NoneI, is_replaced |-> BoolI(FALSE)]
FreshNode(par) == [par |-> par, box |-> TRUE, dirty |-> "T", intr |-> FreshIntrinsic]
FreshWorld(pars) == [objs |-> <<>>, nodes |-> [k \in 1..Len(pars) |-> FreshNode(pars[k])]]
=============================================================================
