---------------------------- MODULE Trace_Blocks ----------------------------
(***************************************************************************)
(* Validates recorded histories of building blocks against Blocks.  One    *)
(* history per line of the file named by TRACE: [id, ev], ev a sequence of *)
(* [op, obs].  obs.reads: what every object reads; obs.dirty: whether each *)
(* was marked; obs.recs: the parts and text of every record.               *)
(***************************************************************************)
EXTENDS Blocks, Json, IOUtils, FiniteSets

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES vCase, vPos, vWorld
vars == <<vCase, vPos, vWorld>>

Clause(name, blame, detail) == [cl |-> name, blame |-> blame, detail |-> ToString(detail)]
If(p, cl) == IF p THEN {cl} ELSE {}
Blame(op) == IF op.op \in {"short", "record", "same", "spoil"} THEN {"C23"} ELSE {"C22"}
OnResult(w, op, obs) ==
    CASE op.op = "check" -> LET v == Check(op.v, op.raw) IN
            If(OK(v) /\ obs.out = "ok" /\ obs.val # v, Clause("validated value", {"C22"}, <<op, "expected", v, "observed", obs.val>>))
      [] op.op = "choices" -> If(obs.out = "ok" /\ obs.text # ChoicesText(op.c), Clause("text of choices", {"C22"}, <<op.c, "expected", ChoicesText(op.c), "observed", obs.text>>))
      [] op.op = "choose" -> LET v == Choose(w.ch[op.k], op.raw) IN
            If(OK(v) /\ obs.out = "ok" /\ obs.val # v, Clause("chosen value", {"C22"}, <<w.ch[op.k], op.raw, "expected", v, "observed", obs.val>>))
      [] op.op = "set" -> LET x == PropOf(w.cls[w.obj[op.o].c], op.p)
                              want == "Invalid value '" \o op.raw.s \o "' for CSS property '" \o op.p \o "'; Valid values are: " \o ChoicesText(w.ch[x.c])
                          IN If(obs.out = "ValueError" /\ op.raw.k = "str" /\ ~x.free /\ ~OK(Choose(w.ch[x.c], op.raw)) /\ obs.msg # want,
                                Clause("message", {"C22"}, <<"expected", want, "observed", obs.msg>>))
      [] op.op = "short" -> LET S == ReadShort(op.fn, op.raw)
                                T == {obs.parts[k] : k \in 1..Len(obs.parts)}
                            IN If(S # {} /\ obs.out = "ok" /\ S # T, Clause("parts", {"C23"}, <<op, "expected", S, "observed", T>>))
      [] op.op = "same" -> LET b == w.rec[op.r].cls = w.rec[op.s].cls /\ w.rec[op.r].keys = w.rec[op.s].keys /\ w.rec[op.r].parts = w.rec[op.s].parts IN
            \* whether two colors or spacings count as equal parts is left open
            If(obs.out # "ok" \/ (obs.b # b /\ ~(b /\ \E k \in 1..Len(w.rec[op.r].parts) : Compound(w.rec[op.r].parts[k][2]))), Clause("equality", {"C23"}, <<w.rec[op.r], w.rec[op.s], obs>>))
      [] OTHER -> {}

OnWorld(op, a, ch, obs) ==
    UNION {UNION {LET p == a.cls[a.obj[k].c][j].n IN
                  If(~OpenRead(a, a.obj[k], p) /\ obs.reads[k][j] # Reads(a, a.obj[k], p),
                     Clause("reading", {"C22"}, <<op, "object", k, p, "expected", Reads(a, a.obj[k], p), "observed", obs.reads[k][j]>>))
                  : j \in 1..Len(a.cls[a.obj[k].c])} : k \in 1..Len(a.obj)}
    \cup UNION {LET mine == op.op \in {"set", "del"} /\ op.o = k
                    want == IF mine THEN ch ELSE "no"
                IN If(want # "may" /\ obs.dirty[k] # (want = "yes"), Clause("marked as changed", {"C22"}, <<op, "object", k, "expected", want, "observed", obs.dirty[k]>>))
                : k \in 1..Len(a.obj)}
    \cup UNION {If(obs.recs[k].parts # a.rec[k].parts, Clause("record", {"C23"}, <<op, "expected", a.rec[k], "observed", obs.recs[k]>>))
                \cup If(obs.recs[k].attrs # a.rec[k].parts, Clause("attributes", {"C23"}, <<op, "expected", a.rec[k], "observed", obs.recs[k]>>))
                \cup If((\A j \in 1..Len(a.rec[k].parts) : Writable(a.rec[k].parts[j][2])) /\ obs.recs[k].str # RecordText(a.rec[k]),
                        Clause("record text", {"C23"}, <<"expected", RecordText(a.rec[k]), "observed", obs.recs[k].str>>))
                : k \in 1..Len(a.rec)}

Report(cls) == \A x \in cls : PrintT("@@" \o ToJson([id |-> Cases[vCase].id, i |-> vPos, cl |-> x.cl, blame |-> x.blame, detail |-> x.detail]))

Init == vCase \in 1..Len(Cases) /\ vPos = 1 /\ vWorld = Empty
Step == /\ vPos <= Len(Cases[vCase].ev)
        /\ \E e \in {Cases[vCase].ev[vPos]} : \E r \in {ApplyB(vWorld, e.op)} :
           LET sized == Len(e.obs.reads) = Len(r.w.obj) /\ Len(e.obs.recs) = Len(r.w.rec) IN
           \E cls \in {If(e.obs.out # r.out, Clause("outcome", Blame(e.op), <<e.op, "expected", r.out, "observed", e.obs.out>>))
                       \cup OnResult(vWorld, e.op, e.obs)
                       \cup (IF sized THEN OnWorld(e.op, r.w, r.ch, e.obs) ELSE {})} :
              /\ Report(cls)
              \* after a difference the history is over: what it made is not what the specification thinks
              /\ IF sized /\ cls = {} THEN vPos' = vPos + 1 /\ vWorld' = r.w ELSE vPos' = Len(Cases[vCase].ev) + 1 /\ vWorld' = vWorld
        /\ UNCHANGED vCase
Spec == Init /\ [][Step]_vars
=============================================================================
