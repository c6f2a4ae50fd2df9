------------------------------ MODULE MC_Style ------------------------------
(***************************************************************************)
(* Style explored exhaustively to a depth, over the operation alphabet of  *)
(* one focus.  The properties are stated here in terms of what a user      *)
(* sees (readings, views, dirtiness), not in terms of how Apply computes.  *)
(*                                                                         *)
(* Environment: FOCUS - the property whose alphabet is used, DEPTH - how   *)
(* many operations deep, EMIT - up to which depth each transition is       *)
(* printed as a history, to be executed on the real code.                  *)
(***************************************************************************)
EXTENDS Style, Json, IOUtils, FiniteSets

VARIABLES vWorld, vHist
vars == <<vWorld, vHist>>

NumIn(s) == ReadNum(Chars(s)).n
Focus == IOEnv.FOCUS
Depth == NumIn(IOEnv.DEPTH)
EmitDepth == NumIn(IOEnv.EMIT)

IntRaw(k) == [k |-> "int", i |-> k]
NoneRaw == [k |-> "none"]
TupleRaw(p) == [k |-> "tuple", p |-> p]
SetOp(o, n, raw) == [op |-> "set", o |-> o, n |-> n, raw |-> raw]
ItemOp(o, n, raw) == [op |-> "setitem", o |-> o, n |-> n, raw |-> raw]
DelOp(o, n) == [op |-> "del", o |-> o, n |-> n]
DelItemOp(o, n) == [op |-> "delitem", o |-> o, n |-> n]
UpdateOp(o, items) == [op |-> "update", o |-> o, items |-> items]
It(n, raw) == [n |-> n, raw |-> raw]
CopyOp(o, node) == [op |-> "copy", o |-> o, node |-> node]
DirtyOp(node, val) == [op |-> "dirty", node |-> node, val |-> val]
NewOp == [op |-> "new", items |-> <<>>]

\* the operations of each focus, on the declarations os
Sets(os, ns, raws) == {SetOp(o, n, r) : o \in os, n \in ns, r \in raws}
Ops(os, nodes) ==
    CASE Focus = "C01" ->
           Sets(os, {"color", "border_top_color"}, {StrRaw("red"), StrRaw("blue"), StrRaw("no")})
           \cup Sets(os, {"direction"}, {StrRaw("rtl"), StrRaw("ltr")})
           \cup Sets(os, {"text_align"}, {StrRaw("center"), StrRaw("left")})
           \cup Sets(os, {"margin_top", "width"}, {IntRaw(0), IntRaw(5), StrRaw("auto")})
           \cup Sets(os, {"border_color"}, {StrRaw("red"), TupleRaw(<<StrRaw("red"), StrRaw("blue")>>)})
           \cup {DelOp(o, n) : o \in os, n \in {"color", "border_top_color", "direction", "text_align", "margin_top", "width", "border_color"}}
      [] Focus = "C02" ->
           Sets(os, {"margin_top", "margin", "padding"}, {IntRaw(3), StrRaw("auto"), StrRaw("x"), NoneRaw, TupleRaw(<<IntRaw(1), StrRaw("x")>>), TupleRaw(<<IntRaw(1), IntRaw(2)>>)})
           \cup Sets(os, {"border", "border_left"}, {StrRaw("solid"), StrRaw("solid solid"), StrRaw("red 1px"), StrRaw("")})
           \cup {UpdateOp(o, <<It("margin-top", IntRaw(4)), It("border-left-style", r)>>) : o \in os, r \in {StrRaw("dashed"), StrRaw("x"), NoneRaw}}
           \cup {DirtyOp(n, "F") : n \in nodes}
      [] Focus = "C03" ->
           Sets(os, {"border", "border_top", "outline"}, {StrRaw("solid"), StrRaw("red 3px"), StrRaw("dashed blue thin"), StrRaw("3px 3px")})
           \cup Sets(os, {"border_width", "border_style"}, {TupleRaw(<<IntRaw(1)>>), TupleRaw(<<IntRaw(1), StrRaw("thin")>>), StrRaw("double"),
                                                              TupleRaw(<<StrRaw("solid"), StrRaw("none"), StrRaw("ridge")>>)})
           \cup Sets(os, {"border_top_width"}, {IntRaw(7), IntRaw(0)})
           \cup {DelOp(o, n) : o \in os, n \in {"border", "border_top", "border_width", "border_style", "border_top_width", "outline"}}
      [] Focus = "C04" ->
           {ItemOp(o, n, r) : o \in os, n \in {"margin-top", "margin_top", "z-index", "border-top", "nope"}, r \in {IntRaw(2), StrRaw("auto")}}
           \cup {DelItemOp(o, n) : o \in os, n \in {"margin-top", "margin", "z_index", "border_top", "nope"}}
           \cup {UpdateOp(o, <<It("margin-top", r)>>) : o \in os, r \in {IntRaw(2), NoneRaw}}
           \cup {UpdateOp(o, <<It("z_index", IntRaw(9)), It("outline-color", StrRaw("red"))>>) : o \in os}
           \cup Sets(os, {"margin"}, {TupleRaw(<<IntRaw(1), IntRaw(2)>>), IntRaw(0)})
      [] Focus = "C05" ->
           Sets(os, {"margin_top", "clip"}, {IntRaw(5), StrRaw("auto"), StrRaw("rect(1,2,3,4)")})
           \cup Sets(os, {"color"}, {StrRaw("red")})
           \cup {DelOp(o, n) : o \in os, n \in {"margin_top", "color"}}
           \cup {CopyOp(o, n) : o \in os, n \in nodes \cup {0}}
           \cup {DirtyOp(n, "F") : n \in nodes}
      [] Focus = "C06" ->
           Sets(os, {"width"}, {IntRaw(5), IntRaw(6), StrRaw("auto"), StrRaw("x")})
           \cup {DelOp(o, "width") : o \in os}
           \cup {DirtyOp(n, v) : n \in nodes, v \in {"F", "N"}}
           \cup {[op |-> "intr", node |-> n, attr |-> "height", v |-> v] : n \in nodes, v \in {[t |-> "none"], [t |-> "num", i |-> 4]}}
           \cup {[op |-> x, node |-> n] : x \in {"hide", "show"}, n \in nodes}
           \cup {[op |-> "reparent", node |-> 3, par |-> p] : p \in {0, 1, 2}}
Pars == CASE Focus \in {"C01", "C02", "C03"} -> <<0>> [] Focus = "C04" -> <<>> [] Focus = "C05" -> <<0, 0>> [] Focus = "C06" -> <<0, 1, 2>>
Start == CASE Focus \in {"C01", "C02", "C03"} -> <<NewOp, CopyOp(1, 1)>>
           [] Focus = "C04" -> <<NewOp>>
           [] Focus = "C05" -> <<NewOp, CopyOp(1, 1)>>
           [] Focus = "C06" -> <<NewOp, CopyOp(1, 1), CopyOp(1, 2), CopyOp(1, 3)>>
\* declarations the operations act on, and the most there may be
Acting(ww) == CASE Focus \in {"C01", "C02", "C03"} -> {2} [] OTHER -> 1..Len(ww.objs)
MaxObjs == IF Focus = "C05" THEN 4 ELSE 4

-----------------------------------------------------------------------------
(* The properties of one transition: from b, by op with outcome out, to a. *)
Old(b) == 1..Len(b.objs)
Reads(decl) == TLCEval([n \in AllNames |-> Read(decl, n)])
LongReads(decl) == TLCEval([p \in Longhands |-> Read(decl, p)])
NamedBy(op) == CASE op.op \in {"set", "del"} -> {op.n}
                 [] op.op \in {"setitem", "delitem"} -> {NameOf(op.n)}
                 [] op.op = "update" -> {NameOf(op.items[k].n) : k \in 1..Len(op.items)}
                 [] OTHER -> {}

\* C01: an assigned longhand reads as what was assigned; nothing but what the operation names changes
C01_Set(b, op, out, a) == op.op = "set" /\ out = "ok" /\ op.n \in Longhands
    => Read(a.objs[op.o].decl, op.n) = Validate(KindOf(op.n), op.raw)
C01_Frame(b, op, out, a) ==
    LET touched == UNION {SetOf(AllLonghandsOf(n)) : n \in NamedBy(op) \cap AllNames} IN
    \A o \in Old(b) : {x \in Items(a.objs[o].decl) : x[1] \notin touched} = {x \in Items(b.objs[o].decl) : x[1] \notin touched}
\* C02: a refused declaration changes nothing at all (a refused batch keeps what preceded the refused one)
C02_Refused(b, op, out, a) == out # "ok" /\ op.op # "update" => a = b
C02_Verdict(b, op, out, a) == op.op = "set" /\ op.n \in Longhands => (out = "ok") = (Validate(KindOf(op.n), op.raw) # Bad)
\* C03: after an accepted multi-side or shorthand assignment, exactly the named parts are what was written and the
\* others are initial; a deletion leaves every part initial
C03_Sides(b, op, out, a) == op.op = "set" /\ out = "ok" /\ op.n \in DOMAIN Sided =>
    LET rs == IF op.raw.k = "tuple" THEN op.raw.p ELSE <<op.raw>>
        pick == <<1, IF Len(rs) >= 2 THEN 2 ELSE 1, IF Len(rs) >= 3 THEN 3 ELSE 1, IF Len(rs) = 4 THEN 4 ELSE IF Len(rs) >= 2 THEN 2 ELSE 1>>
    IN \A k \in 1..4 : Read(a.objs[op.o].decl, Sided[op.n][k]) = Validate(KindOf(Sided[op.n][k]), rs[pick[k]])
C03_Short(b, op, out, a) == op.op = "set" /\ out = "ok" /\ op.n \in DOMAIN Short =>
    LET words == SplitWs(Chars(op.raw.s))
        d == a.objs[op.o].decl
        Fits(part) == {k \in 1..Len(words) : OK(Validate(Kinds[part.kind], StrRaw(Str(words[k]))))}
    IN \A j \in 1..3 : LET part == Short[op.n][j] IN
         \A p \in SetOf(LonghandsOf(part.p)) :
           IF Fits(part) = {} THEN p \notin DOMAIN d
           ELSE Read(d, p) = Validate(Kinds[part.kind], StrRaw(Str(words[CHOOSE k \in Fits(part) : TRUE])))
C03_Del(b, op, out, a) == op.op \in {"del", "delitem"} /\ out = "ok" =>
    SetOf(AllLonghandsOf(NameOf(op.n))) \cap DOMAIN a.objs[op.o].decl = {}
\* C04: an unknown name changes nothing
C04_Unknown(b, op, out, a) == out = "KeyError" => a = b
\* C05: a copy reads as the original, and no operation on one declaration touches another
C05_Copy(b, op, out, a) == op.op = "copy" =>
    LongReads(a.objs[Len(a.objs)].decl) = LongReads(b.objs[op.o].decl) /\ a.objs[Len(a.objs)].node = op.node
C05_Independent(b, op, out, a) == \A o \in Old(b) : (~("o" \in DOMAIN op) \/ op.op = "copy" \/ op.o # o) => a.objs[o] = b.objs[o]
\* C06: whatever changes a declaration's readings, or an intrinsic attribute, leaves the node and all below it dirty
Below(a, n) == LET RECURSIVE Up(_) Up(m) == m = n \/ (a.nodes[m].par # 0 /\ a.nodes[a.nodes[m].par].box /\ Up(a.nodes[m].par))
               IN {m \in 1..Len(a.nodes) : a.nodes[m].box /\ Up(m)}
C06_Dirty(b, op, out, a) == \A o \in Old(b) :
    a.objs[o].node # 0 /\ a.nodes[a.objs[o].node].box /\ a.objs[o].decl # b.objs[o].decl /\ Reads(a.objs[o].decl) # Reads(b.objs[o].decl)
    => \A m \in Below(a, a.objs[o].node) : a.nodes[m].dirty = "T"
C06_Intr(b, op, out, a) == \A n \in 1..Len(a.nodes) :
    a.nodes[n].intr # b.nodes[n].intr /\ a.nodes[n].box => \A m \in Below(a, n) : a.nodes[m].dirty = "T"
C06_Quiet(b, op, out, a) == op.op \in {"set", "setitem", "del", "delitem", "getitem"} /\ op.n \notin DOMAIN Short
    /\ (\A o \in Old(b) : a.objs[o] = b.objs[o]) => a.nodes = b.nodes

Must(p, name, op) == Assert(p, <<"transition violates", name, op>>)
StepOK(b, op, out, a) ==
    /\ Must(C01_Set(b, op, out, a), "C01_Set", op) /\ Must(C01_Frame(b, op, out, a), "C01_Frame", op)
    /\ Must(C02_Refused(b, op, out, a), "C02_Refused", op) /\ Must(C02_Verdict(b, op, out, a), "C02_Verdict", op)
    /\ Must(C03_Sides(b, op, out, a), "C03_Sides", op) /\ Must(C03_Short(b, op, out, a), "C03_Short", op)
    /\ Must(C03_Del(b, op, out, a), "C03_Del", op) /\ Must(C04_Unknown(b, op, out, a), "C04_Unknown", op)
    /\ Must(C05_Copy(b, op, out, a), "C05_Copy", op) /\ Must(C05_Independent(b, op, out, a), "C05_Independent", op)
    /\ Must(C06_Dirty(b, op, out, a), "C06_Dirty", op) /\ Must(C06_Intr(b, op, out, a), "C06_Intr", op)
    /\ Must(C06_Quiet(b, op, out, a), "C06_Quiet", op)

-----------------------------------------------------------------------------
RECURSIVE Run(_, _)
Run(ww, ops) == IF ops = <<>> THEN ww ELSE Run(Apply(ww, Head(ops)).w, Tail(ops))

Init == /\ vWorld = Run(FreshWorld(Pars), Start)
        /\ vHist = <<>>

Emit(h) == IF Len(h) <= EmitDepth THEN PrintT("@@" \o ToJson([pars |-> Pars, ops |-> Start \o h])) ELSE TRUE

Next == /\ Len(vHist) < Depth
        /\ \E op \in Ops(Acting(vWorld), {k \in 1..Len(Pars) : TRUE}) :
           /\ op.op = "copy" => Len(vWorld.objs) < MaxObjs
           /\ op.op = "dirty" => vWorld.nodes[op.node].box
           /\ \E r \in {Apply(vWorld, op)} :
              /\ vWorld' = r.w
              /\ vHist' = Append(vHist, op)
              /\ StepOK(vWorld, op, r.out, r.w)
              /\ Emit(vHist')
Spec == Init /\ [][Next]_vars
View == vWorld

-----------------------------------------------------------------------------
(* The properties of one state. *)
now(o) == vWorld.objs[o].decl
\* C01: a longhand reads as declared, else as its initial value
C01_Read == \A o \in 1..Len(vWorld.objs) : \A p \in Longhands :
    Read(now(o), p) = IF p \in DOMAIN now(o) THEN now(o)[p]
                      ELSE CASE p \in {"border_top_color", "border_right_color", "border_bottom_color", "border_left_color"} -> Read(now(o), "color")
                             [] p = "text_align" -> IF Read(now(o), "direction") = Kw("rtl") THEN Kw("right") ELSE Kw("left")
                             [] OTHER -> Longhand[p].init
\* C04: the text form, read back as declarations, gives a declaration that reads the same
Declarations(text) ==
    LET ds == SplitOn(Chars(text), ";")
        colon(cs) == CHOOSE k \in 1..Len(cs) : cs[k] = ":" /\ \A j \in 1..(k - 1) : cs[j] # ":"
    IN [k \in 1..Len(ds) |-> It(Str(Strip(Front(ds[k], colon(ds[k]) - 1))), StrRaw(Str(Strip(From(ds[k], colon(ds[k]) + 1)))))]
C04_Text == \A o \in 1..Len(vWorld.objs) :
    TextDetermined(now(o)) /\ DOMAIN now(o) # {} /\ (\A p \in DOMAIN now(o) : now(o)[p] # None) =>   \* (none is written None)
      LET u == Update(NoDecl, TLCEval(Declarations(TextOf(now(o))))) IN u.out = "ok" /\ LongReads(u.decl) = LongReads(now(o))
C04_Items == \A o \in 1..Len(vWorld.objs) : Cardinality(Items(now(o))) = Cardinality(DOMAIN now(o))
=============================================================================
