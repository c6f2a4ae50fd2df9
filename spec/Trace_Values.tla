---------------------------- MODULE Trace_Values ----------------------------
(***************************************************************************)
(* Validates recorded histories of value operations against ValueOps.      *)
(* One history per line of the file named by TRACE: [id, ev], ev a         *)
(* sequence of [op, obs].                                                  *)
(***************************************************************************)
EXTENDS ValueOps, Json, IOUtils, FiniteSets

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES vCase, vPos, vObjs
vars == <<vCase, vPos, vObjs>>

Home(fn) == CASE fn = "length" -> "C07" [] fn = "color" -> "C09" [] OTHER -> "C10"
HomeOf(v) == IF v.t \in {"len", "ang"} THEN "C07" ELSE IF v.t \in {"rgb", "hsl"} THEN "C09" ELSE "C10"
\* composite values are made of lengths
HomesOf(fn) == {Home(fn)} \cup (IF fn \in {"rect", "spacing"} THEN {"C07"} ELSE {})
Clause(name, blame, detail) == [cl |-> name, blame |-> blame, detail |-> ToString(detail)]
If(p, cl) == IF p THEN {cl} ELSE {}

\* a new value: what it is, its text form, what its text form parses back to, its equality with itself parsed again
OnNew(v, obs, blame) ==
    If(obs.val # v, Clause("value", blame, <<"expected", v, "observed", obs.val>>))
    \cup (IF obs.val = v
          THEN If(v.t # "ang" /\ Writable(v) /\ obs.str # Write(v), Clause("text form", blame, <<"expected", Write(v), "observed", obs.str>>))
               \cup If(v.t # "ang" /\ Reparsable(v) /\ obs.back # v, Clause("text form parses back", blame, <<v, obs.str, obs.back>>))
          ELSE {})

OnResult(op, obs) ==
    CASE op.op = "px" ->
           IF obs.out # "ok" THEN {Clause("conversion", {"C08"}, obs)}
           ELSE LET want == Nearest(Exact64(vObjs[op.o], op.ctx)) IN
                If("lu2" \in DOMAIN obs /\ obs.lu2 # obs.lu, Clause("logical units", {"C08"}, obs)) \cup
                If(obs.lu \notin want, Clause("pixels", {"C08"}, <<vObjs[op.o], op.ctx, "expected (1/64 px)", want, "observed", obs.lu>>))
                \cup If(obs.isint # (obs.lu % 64 = 0), Clause("whole pixels are ints", {"C08"}, obs))
      [] op.op = "deg" ->
           IF obs.out # "ok" THEN {Clause("degrees", {"C08"}, obs)}
           ELSE LET v == vObjs[op.o] IN
                IF v.u = "rad"
                THEN LET lo == RMul([n |-> v.n, d |-> v.d], RInt(RadianBounds[1]))
                         hi == RMul([n |-> v.n, d |-> v.d], RInt(RadianBounds[2]))
                     IN If(obs.m < RFloor(IF v.n < 0 THEN hi ELSE lo) - 1 \/ obs.m > RFloor(IF v.n < 0 THEN lo ELSE hi) + 2,
                           Clause("degrees", {"C08"}, <<v, obs.m>>))
                ELSE If(obs.q # Degrees(v), Clause("degrees", {"C08"}, <<v, "expected", Degrees(v), "observed", obs.q>>))
                     \cup If((v.d \in {1, 2, 4, 8} /\ (v.u # "grad" \/ Degrees(v).d = 1)) /\ obs.isint # (Degrees(v).d = 1), Clause("whole degrees are ints", {"C08"}, obs))
      [] op.op = "rgb" ->
           LET v == vObjs[op.o]
               w == ToRgb(v)
               ties == RgbTies(v)
               ok(x, e, k) == x = e \/ (ties[k] /\ Abs(x - e) <= 1)
           IN IF obs.out # "ok" \/ obs.val.t # "rgb" THEN {Clause("rgb", {"C09"}, obs)}
              ELSE If(~(ok(obs.val.r, w.r, 1) /\ ok(obs.val.g, w.g, 2) /\ ok(obs.val.b, w.b, 3) /\ obs.val.an = w.an /\ obs.val.ad = w.ad),
                      Clause("rgb", {"C09"}, <<v, "expected", w, "observed", obs.val>>))
      [] op.op = "hslrow" ->     \* many conversions at once: hue h/hd, then <<s, l, r, g, b>> with s and l in parts of den
           IF obs.out # "ok" THEN {Clause("rgb", {"C09"}, obs)}
           ELSE UNION {LET x == obs.row[k]
                           ch == HslChannelsAt(op.h, op.hd, Rat(x[1], op.den), Rat(x[2], op.den))
                           ok(y, q) == y \in Nearest(q)
                       IN If(~(ok(x[3], ch[1]) /\ ok(x[4], ch[2]) /\ ok(x[5], ch[3])), Clause("rgb", {"C09"}, <<op.h, op.hd, op.den, "expected", ch, "observed", x>>))
                       : k \in 1..Len(obs.row)}
      [] op.op = "eq" ->
           If(obs.out # "ok" \/ obs.b # (vObjs[op.o] = vObjs[op.p]), Clause("equality", {HomeOf(vObjs[op.o])}, <<vObjs[op.o], vObjs[op.p], obs>>))
      [] op.op = "wide" ->
           LET w == <<WideLength(op.ts[1]), WideLength(op.ts[2])>>
               open(k) == WideOpen(op.ts[k])
               one(k) == LET o == obs.w[k] IN
                   IF open(k) THEN {}
                   ELSE If(o.out # (IF w[k].ok THEN "ok" ELSE "ValueError"), Clause("outcome", {"C07"}, <<op.ts[k], o.out>>))
                        \cup (IF o.out = "ok" /\ w[k].ok
                              THEN If(o.val.u # w[k].u \/ (Short(w[k]) /\ o.val # w[k]), Clause("value", {"C07"}, <<op.ts[k], "expected", w[k], "observed", o.val>>))
                                   \cup If(o.back # o.val, Clause("text form parses back", {"C07"}, <<op.ts[k], o.str, o.val, o.back>>))
                                   \cup If(Short(w[k]) /\ Whole(w[k]) /\ w[k].e <= 15 /\ o.str # WriteWhole(w[k]),
                                           Clause("text form", {"C07"}, <<op.ts[k], "expected", WriteWhole(w[k]), "observed", o.str>>))
                              ELSE {})
           IN one(1) \cup one(2)
              \cup (IF obs.eq \in {"T", "F"} /\ w[1].ok /\ w[2].ok /\ Short(w[1]) /\ Short(w[2]) /\ ~open(1) /\ ~open(2)
                    THEN If((obs.eq = "T") # (w[1] = w[2]), Clause("equality", {"C07"}, <<op.ts, obs.eq>>)) ELSE {})
      [] op.op = "level" ->
           If(obs.out = "ok" /\ op.k < Len(vObjs[op.o].q) /\ obs.pair # vObjs[op.o].q[op.k + 1], Clause("quotes of a level", {"C10"}, <<vObjs[op.o], op.k, obs.pair>>))
      [] OTHER -> {}

Agrees(want, got) == IF want = "refused" THEN got \notin {"ok", "Hung"} ELSE got = want
Blame(op) == CASE op.op = "parse" -> HomesOf(op.fn)
               [] op.op \in {"mul", "neg"} -> {"C08", "C07"}
               [] op.op \in {"mutate", "assign", "spoil", "copylist", "level"} -> {"C10"}
               [] op.op = "unit" -> {"C07", "C08"}
               [] op.op \in {"px", "deg"} -> {"C08"}
               [] op.op \in {"rgb", "hslrow"} -> {"C09"}
               [] op.op = "eq" -> {HomeOf(vObjs[op.o])}
               [] op.op = "wide" -> {"C07"}

Report(cls) == \A x \in cls : PrintT("@@" \o ToJson([id |-> Cases[vCase].id, i |-> vPos, cl |-> x.cl, blame |-> x.blame, detail |-> x.detail]))

Init == vCase \in 1..Len(Cases) /\ vPos = 1 /\ vObjs = <<>>
Step == /\ vPos <= Len(Cases[vCase].ev)
        /\ \E e \in {Cases[vCase].ev[vPos]} : \E r \in {ApplyV(vObjs, e.op)} :
           LET made == Len(r.objs) > Len(vObjs)
               sized == Len(e.obs.objs) = Len(r.objs)
           IN \E cls \in {
                If(~Agrees(r.out, e.obs.out), Clause("outcome", Blame(e.op), <<"expected", r.out, "observed", e.obs.out>>))
                \cup (IF made /\ e.obs.out = "ok" THEN OnNew(r.objs[Len(r.objs)], e.obs, Blame(e.op)) ELSE {})
                \cup (IF made THEN {} ELSE OnResult(e.op, e.obs))
                \cup (IF sized THEN UNION {If(e.obs.objs[k] # r.objs[k] /\ (k <= Len(vObjs)),
                                              Clause("an existing value changed", Blame(e.op) \cup {HomeOf(r.objs[k])}, <<r.objs[k], e.obs.objs[k]>>)) : k \in 1..Len(r.objs)}
                      ELSE {})} :
              /\ Report(cls)
              /\ IF sized THEN vPos' = vPos + 1 /\ vObjs' = e.obs.objs ELSE vPos' = Len(Cases[vCase].ev) + 1 /\ vObjs' = vObjs
        /\ UNCHANGED vCase
Spec == Init /\ [][Step]_vars
=============================================================================
