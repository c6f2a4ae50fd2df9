------------------------------ MODULE ValueOps ------------------------------
(***************************************************************************)
(* A history of operations on values: parsing text, converting, comparing, *)
(* multiplying, and attempts to modify.  The state is the sequence of the  *)
(* values made so far; no operation changes a value already made.          *)
(***************************************************************************)
EXTENDS Units, Wide

Parse(fn, raw) ==
    CASE fn = "length" -> ReadLength(raw)
      [] fn = "color" -> ReadColor(raw)
      [] fn = "rect" -> ReadRect(raw)
      [] fn = "spacing" -> ReadSpacing(raw)
      [] fn = "quotes" -> ReadQuotes(raw)
      [] fn = "uri" -> ReadUri(raw)
      [] fn = "cursor" -> ReadCursor(raw)
FnOf(v) == CASE v.t = "len" -> "length" [] v.t \in {"rgb", "hsl"} -> "color" [] OTHER -> v.t

\* the text form of v can be parsed again
QuoteFree(s) == \A k \in 1..Len(s) : SubSeq(s, k, k) \notin {"'", "\"", "\\", " ", "\t", "\n"}
UriPlain(s) == /\ \A k \in 1..Len(s) : SubSeq(s, k, k) \notin {"\"", ","}
Reparsable(v) ==
    CASE v.t \in {"len", "rgb", "rect", "spacing"} -> TRUE
      [] v.t = "quotes" -> \A k \in 1..Len(v.q) : QuoteFree(v.q[k][1]) /\ QuoteFree(v.q[k][2])
      [] v.t = "uri" -> UriPlain(v.s)
      [] v.t = "cursor" -> \A k \in 1..Len(v.p) : v.p[k].t = "uri" => UriPlain(v.p[k].s)
      [] OTHER -> FALSE

(* The values after an operation. *)
ApplyV(objs, op) ==
    CASE op.op = "parse" -> LET v == Parse(op.fn, op.raw) IN IF OK(v) THEN [out |-> "ok", objs |-> Append(objs, v)] ELSE [out |-> "ValueError", objs |-> objs]
      [] op.op = "unit" -> [out |-> "ok", objs |-> Append(objs, op.v)]
      [] op.op = "mul" -> [out |-> "ok", objs |-> Append(objs, Times(objs[op.o], [n |-> op.n, d |-> op.d]))]
      [] op.op = "neg" -> [out |-> "ok", objs |-> Append(objs, Negated(objs[op.o]))]
      \* attributes of a value cannot be assigned; a list that was passed in is the caller's own
      [] op.op = "assign" -> [out |-> "refused", objs |-> objs]
      [] op.op = "spoil" -> [out |-> "ok", objs |-> objs]
      [] op.op = "copylist" -> [out |-> "ok", objs |-> Append(objs, objs[op.o])]
      [] op.op = "level" -> [out |-> IF op.k < Len(objs[op.o].q) THEN "ok" ELSE "IndexError", objs |-> objs]
      [] op.op = "mutate" -> [out |-> "TypeError", objs |-> objs]
      [] OTHER -> [out |-> "ok", objs |-> objs]
=============================================================================
