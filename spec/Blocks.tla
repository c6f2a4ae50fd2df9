------------------------------- MODULE Blocks -------------------------------
(***************************************************************************)
(* The building blocks with which properties are defined: validators,      *)
(* choices, properties on any class (with plain, referring and computed    *)
(* initial values), and the readers and records of shorthands.             *)
(*                                                                         *)
(* A *validator* is [fn, lo, hi]; lo and hi are <<>> or <<[n, d]>> and     *)
(* only used for numbers and integers.                                     *)
(* A *choices* is [cs, vs, df]: constants (values), validators, defaulting *)
(* keywords.                                                               *)
(* A *class* is a sequence of properties [n, c, init, free]: its name, its *)
(* choices, and its initial value: [k |-> "ref", s] the value of property  *)
(* s, [k |-> "by", s, eq, a, b] a if property s is eq and b otherwise, or  *)
(* a raw.  A free property takes any value, and its initial value is one   *)
(* of its choices.                                                         *)
(* The world is [ch, cls, obj, rec], everything made so far: choices,      *)
(* classes, objects [c, decl], records [cls, keys, parts].                 *)
(***************************************************************************)
EXTENDS Style

NumV(n, d) == [t |-> "num", n |-> n, d |-> d]
ReadNumber(raw) ==
    CASE raw.k = "int" -> NumV(raw.i, 1)
      [] raw.k = "float" -> NumV(raw.n, raw.d)
      [] raw.k = "str" -> LET m == ReadNum(Chars(raw.s)) IN IF m.ok THEN NumV(m.n, m.d) ELSE Bad
      [] OTHER -> Bad
Within(v, x) == LET r == IF v.t = "int" THEN RInt(v.i) ELSE [n |-> v.n, d |-> v.d]
                IN /\ x.lo # <<>> => ~RLess(r, x.lo[1])
                   /\ x.hi # <<>> => ~RLess(x.hi[1], r)
Limited(v, x) == IF OK(v) /\ Within(v, x) THEN v ELSE Bad
Check(x, raw) ==
    CASE x.fn = "number" -> Limited(ReadNumber(raw), x)
      [] x.fn = "integer" -> Limited(ReadInteger(raw), x)
      [] x.fn = "length" -> ReadLength(raw)
      [] x.fn = "percentage" -> LET v == ReadLength(raw) IN IF OK(v) /\ v.u = "%" /\ v.n >= 0 THEN v ELSE Bad
      [] x.fn = "color" -> ReadColor(raw)
      [] x.fn = "spacing" -> ReadSpacing(raw)
      [] x.fn = "rect" -> ReadRect(raw)
      [] x.fn = "quotes" -> ReadQuotes(raw)
      [] x.fn = "uri" -> ReadUri(raw)
      [] x.fn = "cursor" -> ReadCursor(raw)

Described == [
  number |-> "<number>", integer |-> "<integer>", length |-> "<length>", percentage |-> "<percentage>", color |-> "<color>",
  spacing |-> "<length> <length>?", rect |-> "<rect>", quotes |-> "[<string> <string>]+", uri |-> "<uri>",
  cursor |-> "[ [<uri> ,]* [ auto | crosshair | default | pointer | move | e-resize | ne-resize | nw-resize | n-resize | se-resize | sw-resize | s-resize | w-resize | text | wait | help | progress ] ]"]

-----------------------------------------------------------------------------
(* Choices *)
Plain(raw) ==      \* the constant a raw stands for if it is one, or Bad
    CASE raw.k = "none" -> None
      [] raw.k = "str" -> IF raw.s = "none" THEN None ELSE Kw(raw.s)
      [] raw.k = "int" -> IntV(raw.i)
      [] raw.k = "float" -> IF raw.d = 1 THEN IntV(raw.n) ELSE Bad
      [] raw.k = "val" -> IF raw.v.t = "kw" /\ raw.v.s = "none" THEN None ELSE IF raw.v.t \in {"kw", "none", "default"} THEN raw.v
                           ELSE IF raw.v.t = "len" /\ raw.v.u = "px" /\ raw.v.d = 1 THEN IntV(raw.v.n) ELSE Bad   \* so many pixels equal the number
      [] OTHER -> Bad
RECURSIVE FirstCheck(_, _)
FirstCheck(vs, raw) == IF vs = <<>> THEN Bad
                       ELSE LET v == Check(Head(vs), raw) IN IF OK(v) THEN v ELSE FirstCheck(Tail(vs), raw)
Choose(c, raw) ==
    LET v == FirstCheck(c.vs, raw)
        k == Plain(raw)
    IN IF OK(v) THEN v
       ELSE IF OK(k) /\ (k \in {c.cs[j] : j \in 1..Len(c.cs)} \/ (k.t = "kw" /\ k.s \in {c.df[j] : j \in 1..Len(c.df)})) THEN k
       ELSE Bad

(* The text of choices: what may be written, each once, in order. *)
Order == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
OrderOf == TLCEval([c \in {SubSeq(Order, k, k) : k \in 1..Len(Order)} |-> CHOOSE k \in 1..Len(Order) : SubSeq(Order, k, k) = c])
RECURSIVE Before(_, _)
Before(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                ELSE IF Head(a) = Head(b) THEN Before(Tail(a), Tail(b)) ELSE OrderOf[Head(a)] < OrderOf[Head(b)]
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S \ {y} : Before(Chars(y), Chars(z)) IN <<x>> \o Sorted(S \ {x})
NameOfConstant(v) == CASE v.t = "none" -> "none" [] v.t = "int" -> ToString(v.i) [] v.t = "kw" -> Hyphened(Lower(v.s))
ChoicesText(c) == JoinS(Sorted({NameOfConstant(c.cs[j]) : j \in 1..Len(c.cs)} \cup {Described[c.vs[j].fn] : j \in 1..Len(c.vs)}
                               \cup {c.df[j] : j \in 1..Len(c.df)}), ", ")

-----------------------------------------------------------------------------
(* Properties on classes *)
NamesOf(cl) == {cl[j].n : j \in 1..Len(cl)}
PropOf(cl, p) == cl[CHOOSE j \in 1..Len(cl) : cl[j].n = p]
Refers(init) == init.k \in {"ref", "by"}
Definable(w, props) == \A j \in 1..Len(props) :
    IF Refers(props[j].init) THEN ~props[j].free ELSE OK(Choose(w.ch[props[j].c], props[j].init))
RECURSIVE Reads(_, _, _)
Reads(w, o, p) ==
    LET cl == w.cls[o.c]
    IN IF p \notin NamesOf(cl) THEN [t |-> "raises", s |-> "ValueError"]
       ELSE IF p \in DOMAIN o.decl THEN o.decl[p]
       ELSE LET init == PropOf(cl, p).init IN
            CASE init.k = "ref" -> Reads(w, o, init.s)
              [] init.k = "by" -> IF Reads(w, o, init.s) = init.eq THEN init.a ELSE init.b
              [] OTHER -> Choose(w.ch[PropOf(cl, p).c], init)
\* a declared property that refers to no property: left open
OpenRead(w, o, p) == p \in DOMAIN o.decl /\ LET init == PropOf(w.cls[o.c], p).init IN Refers(init) /\ init.s \notin NamesOf(w.cls[o.c])

\* what a free property takes a raw for (only texts, integers and nothing are given to one)
Itself(raw) == CASE raw.k = "none" -> None [] raw.k = "str" -> Kw(raw.s) [] raw.k = "int" -> IntV(raw.i)
Means(w, x, raw) == IF x.free THEN Itself(raw) ELSE Choose(w.ch[x.c], raw)
SetResult(w, o, p, raw) ==
    LET x == PropOf(w.cls[o.c], p)
        v == Means(w, x, raw)
        had == IF p \in DOMAIN o.decl THEN o.decl[p] ELSE IF Refers(x.init) THEN Bad ELSE Choose(w.ch[x.c], x.init)
    IN IF ~OK(v) THEN [out |-> "ValueError", decl |-> o.decl, ch |-> "no"]
       ELSE IF v = had THEN [out |-> "ok", decl |-> o.decl, ch |-> IF Compound(v) THEN "may" ELSE "no"]
       ELSE [out |-> "ok", decl |-> (p :> v) @@ o.decl, ch |-> "yes"]
DelResult(o, p) == [out |-> "ok", decl |-> [q \in DOMAIN o.decl \ {p} |-> o.decl[q]], ch |-> IF p \in DOMAIN o.decl THEN "yes" ELSE "no"]

-----------------------------------------------------------------------------
(* Shorthands *)
ReadShort(name, raw) ==      \* the set of <<part, value>>, or {} if it is not one
    LET rs == TLCEval(ShortRaws(raw))
        which == TLCEval([k \in 1..Len(rs) |-> PartFor(name, rs[k])])
        valid == Len(rs) \in 1..3 /\ (\A k \in 1..Len(rs) : which[k] # 0)
                 /\ (\A j, k \in 1..Len(rs) : j # k => which[j] # which[k])
    IN IF valid THEN {<<Short[name][which[k]].p, Validate(Kinds[Short[name][which[k]].kind], rs[k])>> : k \in 1..Len(rs)} ELSE {}

KeysOf(op) == IF op.cls \in DOMAIN Short THEN Parts(op.cls) ELSE op.keys
GivenKeys(parts) == {parts[k][1] : k \in 1..Len(parts)}
RecordOK(op) == KeysOf(op) # <<>> /\ GivenKeys(op.parts) \subseteq {KeysOf(op)[k] : k \in 1..Len(KeysOf(op))}
InOrder(keys, parts) ==
    LET has(k) == k \in GivenKeys(parts)
        ks == SelectSeq(keys, has)
    IN [j \in 1..Len(ks) |-> parts[CHOOSE i \in 1..Len(parts) : parts[i][1] = ks[j]]]
RecordText(r) == JoinS([k \in 1..Len(r.parts) |-> Write(r.parts[k][2])], " ")

-----------------------------------------------------------------------------
Empty == [ch |-> <<>>, cls |-> <<>>, obj |-> <<>>, rec |-> <<>>]
Done(out, w, ch) == [out |-> out, w |-> w, ch |-> ch]
ApplyB(w, op) ==
    CASE op.op = "check" -> Done(IF OK(Check(op.v, op.raw)) THEN "ok" ELSE "ValidationError", w, "no")
      [] op.op = "choices" -> Done("ok", [w EXCEPT !.ch = Append(@, op.c)], "no")
      [] op.op = "choose" -> Done(IF OK(Choose(w.ch[op.k], op.raw)) THEN "ok" ELSE "ValueError", w, "no")
      [] op.op = "class" -> IF Definable(w, op.props) THEN Done("ok", [w EXCEPT !.cls = Append(@, op.props)], "no") ELSE Done("ValueError", w, "no")
      [] op.op = "new" -> Done("ok", [w EXCEPT !.obj = Append(@, [c |-> op.c, decl |-> NoDecl])], "no")
      [] op.op = "set" -> LET r == SetResult(w, w.obj[op.o], op.p, op.raw) IN Done(r.out, [w EXCEPT !.obj[op.o].decl = r.decl], r.ch)
      [] op.op = "del" -> LET r == DelResult(w.obj[op.o], op.p) IN Done(r.out, [w EXCEPT !.obj[op.o].decl = r.decl], r.ch)
      [] op.op = "short" -> Done(IF ReadShort(op.fn, op.raw) # {} THEN "ok" ELSE "ValueError", w, "no")
      [] op.op = "record" -> IF RecordOK(op) THEN Done("ok", [w EXCEPT !.rec = Append(@, [cls |-> op.cls, keys |-> KeysOf(op), parts |-> InOrder(KeysOf(op), op.parts)])], "no")
                             ELSE Done("ValueError", w, "no")
      [] OTHER -> Done("ok", w, "no")       \* "same", "spoil": looking, and changing what was handed out
=============================================================================
