------------------------------ MODULE MC_Blocks -----------------------------
(***************************************************************************)
(* Every small set of choices with every small raw, every history of       *)
(* Depth assignments and deletions on two objects whose properties refer   *)
(* to one another, and every shorthand of up to Depth parts.  Each is      *)
(* printed, to be executed on the real code.                               *)
(***************************************************************************)
EXTENDS Blocks, Json, IOUtils, FiniteSets

Focus == IOEnv.FOCUS
Depth == atoi(IOEnv.DEPTH)
EmitDepth == atoi(IOEnv.EMIT)

VARIABLES vConf, vWorld, vHist
vars == <<vConf, vWorld, vHist>>

V(fn) == [fn |-> fn, lo |-> <<>>, hi |-> <<>>]
From0(fn) == [fn |-> fn, lo |-> <<RInt(0)>>, hi |-> <<>>]
Range(fn) == [fn |-> fn, lo |-> <<RInt(-2)>>, hi |-> <<RInt(7)>>]
Consts == {Kw("auto"), None, Kw("10"), IntV(3), Kw("Big_Word")}
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o AsSeq(S \ {x})
Confs == {[cs |-> AsSeq(S), vs |-> vs, df |-> df, full |-> TRUE] :
            S \in {T \in SUBSET Consts : Cardinality(T) <= 3},
            vs \in {<<>>, <<V("integer")>>, <<From0("integer")>>, <<Range("number")>>, <<V("number")>>, <<V("length")>>, <<V("percentage")>>,
                    <<V("length"), V("percentage")>>, <<V("percentage"), V("length")>>, <<V("color")>>, <<V("color"), Range("integer")>>, <<V("uri")>>, <<V("cursor")>>,
                    <<V("integer"), V("length")>>, <<V("number"), V("integer")>>, <<From0("integer"), Range("integer")>>, <<V("spacing"), V("length")>>,
                    <<V("rect")>>, <<V("quotes")>>, <<V("spacing")>>},
            df \in {<<>>, <<"inherit">>, <<"initial", "auto", "inherit">>}}
S(x) == StrRaw(x)
I(i) == [k |-> "int", i |-> i]
Q(n, d) == [k |-> "float", n |-> n, d |-> d]
Raws == <<S("auto"), S("none"), [k |-> "none"], S("10"), I(10), I(3), I(0), I(-1), I(-2), I(-3), I(7), I(8), Q(3, 1), Q(15, 2), Q(-1, 2), S("7"), S("7.5"), S("-2"), S("-2.5"), S("3"),
          S("Big_Word"), S("big-word"), S("big_word"), S("inherit"), S("initial"), S("unset"), S("5%"), S("-5%"), S("0%"), S("5px"), S("red"), S("#123"), S("url(a)"), S("help"),
          S("url(a), help"), S("rect(1 2 3 4)"), S("'a' 'b'"), S("1px 2px"), S(""), S("Auto"), [k |-> "tuple", p |-> <<I(1), I(2)>>], [k |-> "list", p |-> <<S("a"), S("b")>>],
          [k |-> "val", v |-> Px(3)], [k |-> "val", v |-> Length("%", 5, 1)]>>
RawOf(v) == CASE v.t = "none" -> [k |-> "none"] [] v.t = "kw" -> S(v.s) [] v.t = "int" -> I(v.i) [] v.t = "num" -> Q(v.n, v.d) [] OTHER -> [k |-> "val", v |-> v]

\* what was chosen is chosen again (except for a pixel length taken for a constant number, which a validator may read otherwise)
Again(c) == \A k \in 1..Len(Raws) : LET v == Choose(c, Raws[k]) IN OK(v) /\ ~(v.t = "int" /\ Raws[k].k = "val") => Choose(c, RawOf(v)) = v
\* a further constant or defaulting keyword takes nothing away, and adds only itself
More(c) == \A x \in Consts : \A k \in 1..Len(Raws) :
    LET v == Choose(c, Raws[k])
        w == Choose([c EXCEPT !.cs = Append(@, x)], Raws[k])
    IN IF OK(v) THEN w = v ELSE OK(w) => w = x
\* no validator accepts what a looser one refuses
Looser(c) == \A j \in 1..Len(c.vs) : \A k \in 1..Len(Raws) : OK(Check(c.vs[j], Raws[k])) => OK(Check([c.vs[j] EXCEPT !.lo = <<>>, !.hi = <<>>], Raws[k]))
ConfOK == Focus = "choices" => Again(vConf) /\ More(vConf) /\ Looser(vConf)

-----------------------------------------------------------------------------
Chs == <<[cs |-> <<Kw("auto"), None>>, vs |-> <<From0("integer")>>, df |-> <<>>, full |-> FALSE],
         [cs |-> <<Kw("auto")>>, vs |-> <<V("length")>>, df |-> <<"inherit">>, full |-> FALSE]>>
Styled == <<[n |-> "alpha", c |-> 1, init |-> S("auto"), free |-> FALSE], [n |-> "beta", c |-> 1, init |-> [k |-> "ref", s |-> "alpha"], free |-> FALSE],
            [n |-> "gamma", c |-> 2, init |-> [k |-> "by", s |-> "beta", eq |-> None, a |-> Kw("yes"), b |-> Kw("no")], free |-> FALSE],
            [n |-> "delta", c |-> 1, init |-> S("auto"), free |-> TRUE]>>
Prelude == <<[op |-> "choices", c |-> Chs[1]], [op |-> "choices", c |-> Chs[2]], [op |-> "class", props |-> Styled], [op |-> "new", c |-> 1], [op |-> "new", c |-> 1]>>
RECURSIVE After(_, _)
After(w, ops) == IF ops = <<>> THEN w ELSE After(ApplyB(w, Head(ops)).w, Tail(ops))
DefOps == {[op |-> "set", o |-> 1, p |-> p, raw |-> raw] : p \in {"alpha", "beta", "gamma"}, raw \in {S("auto"), S("none"), I(4), I(-4), S("inherit"), S("5px")}}
          \cup {[op |-> "set", o |-> 2, p |-> "alpha", raw |-> S("none")]}
          \cup {[op |-> "set", o |-> 1, p |-> "delta", raw |-> raw] : raw \in {S("auto"), S("whatever"), I(-4), [k |-> "none"]}}
          \cup {[op |-> "del", o |-> 1, p |-> "delta"]}
          \cup {[op |-> "del", o |-> o, p |-> p] : o \in {1, 2}, p \in {"alpha", "beta", "gamma"}}
Must(p, name, op) == Assert(p, <<"transition violates", name, op>>)
AllReads(w, k) == [p \in NamesOf(Styled) |-> Reads(w, w.obj[k], p)]
StepOK(b, op, r) ==
    /\ Must(\A k \in {1, 2} \ {op.o} : AllReads(r.w, k) = AllReads(b, k), "other objects stay", op)
    /\ Must(r.out # "ok" => r.w = b, "refused: nothing changes", op)
    /\ Must(op.op = "set" /\ r.out = "ok" => Reads(r.w, r.w.obj[op.o], op.p) = Means(b, PropOf(Styled, op.p), op.raw), "reads what was set", op)
    /\ Must((r.ch = "no") = (r.w = b), "marked iff changed", op)
    /\ Must(op.op = "del" => ApplyB(r.w, op).w = r.w /\ op.p \notin DOMAIN r.w.obj[op.o].decl, "deleting twice is deleting once", op)

-----------------------------------------------------------------------------
Tokens == {S("solid"), S("none"), S("red"), S("thin"), S("2px"), S("inherit"), S("invert"), S("nope"), I(0), [k |-> "none"]}
ShortOps(ts) == LET text == \A k \in 1..Len(ts) : ts[k].k = "str" IN
    {[op |-> "short", fn |-> f, raw |-> [k |-> t, p |-> ts]] : f \in DOMAIN Short, t \in {"tuple"}}
    \cup (IF text THEN {[op |-> "short", fn |-> f, raw |-> S(JoinS([k \in 1..Len(ts) |-> ts[k].s], " "))] : f \in DOMAIN Short} ELSE {})
Reversed(ts) == [k \in 1..Len(ts) |-> ts[Len(ts) + 1 - k]]
\* a shorthand has as many parts as were written, in any order; and all four sides read alike
ShortOK == Focus = "short" =>
    LET raw(ts) == [k |-> "tuple", p |-> ts]
        one(f) == ReadShort(f, raw(vHist))
    IN \A f \in DOMAIN Short :
        /\ one(f) # {} => Cardinality(one(f)) = Len(vHist) /\ Cardinality({x[1] : x \in one(f)}) = Len(vHist)
        /\ ReadShort(f, raw(Reversed(vHist))) = one(f)
        /\ f # "outline" => Cardinality(one(f)) = Cardinality(one("border")) /\ {x[2] : x \in one(f)} = {x[2] : x \in one("border")}

-----------------------------------------------------------------------------
Say(x) == PrintT("@@" \o ToJson([ops |-> x]))
Init == CASE Focus = "choices" -> /\ vConf \in Confs
                                  /\ vWorld = Empty
                                  /\ vHist = <<>>
                                  /\ Say(<<[op |-> "choices", c |-> vConf]>> \o [k \in 1..Len(Raws) |-> [op |-> "choose", k |-> 1, raw |-> Raws[k]]])
          [] Focus = "defs" -> vConf = Chs[1] /\ vWorld = After(Empty, Prelude) /\ vHist = <<>>
          [] OTHER -> vConf = Chs[1] /\ vWorld = Empty /\ vHist = <<>> /\ Say(AsSeq(ShortOps(<<>>)))
Next == /\ UNCHANGED vConf
        /\ Len(vHist) < Depth
        /\ CASE Focus = "defs" ->
                  \E op \in DefOps : \E r \in {ApplyB(vWorld, op)} :
                     /\ vWorld' = r.w
                     /\ vHist' = Append(vHist, op)
                     /\ StepOK(vWorld, op, r)
                     /\ IF Len(vHist') = EmitDepth THEN Say(Prelude \o vHist') ELSE TRUE
             [] Focus = "short" -> \E t \in Tokens : vHist' = Append(vHist, t) /\ UNCHANGED vWorld /\ (IF Len(vHist') <= EmitDepth THEN Say(AsSeq(ShortOps(vHist'))) ELSE TRUE)
             [] OTHER -> FALSE
Spec == Init /\ [][Next]_vars
View == IF Focus = "defs" THEN <<vConf, vWorld, Len(vHist)>> ELSE <<vConf, vWorld, vHist>>
DefsOK == Focus = "defs" => \A k \in 1..2 : \A p \in NamesOf(Styled) \ {"delta"} :
    LET v == Reads(vWorld, vWorld.obj[k], p) IN v \notin {Kw("yes"), Kw("no")} => OK(Choose(vWorld.ch[PropOf(Styled, p).c], RawOf(v))) \/ p \notin DOMAIN vWorld.obj[k].decl
=============================================================================
