-------------------------------- MODULE Units -------------------------------
(***************************************************************************)
(* What lengths measure, on the 1/64-pixel grid, and what angles measure.  *)
(*                                                                         *)
(* A context is a record [dpi, w, h, em, ex, ch, sn, sd]: dots per inch    *)
(* (dpi/dd, where there is a dd),                                          *)
(* viewport width and height (in 1/64 px), the font's em, ex and ch (in    *)
(* 1/10 pt), and the reference size sn/sd for percentages (px).            *)
(***************************************************************************)
EXTENDS Values

\* points per unit
Points(u) == CASE u = "pt" -> RInt(1) [] u = "pc" -> RInt(12) [] u = "in" -> RInt(72)
               [] u = "cm" -> Rat(283465, 10000) [] u = "mm" -> Rat(283465, 100000)

Dpi(ctx) == Rat(ctx.dpi, IF "dd" \in DOMAIN ctx THEN ctx.dd ELSE 1)

(* The exact size, in 1/64 px, of the length v. *)
Exact64(v, ctx) ==
    LET q == [n |-> v.n, d |-> v.d]
        font(x) == RMul(RMul(RMul(Rat(x, 10 * 72), Dpi(ctx)), RInt(64)), q)
    IN CASE v.u = "px" -> RMul(q, RInt(64))
         [] v.u \in {"pt", "pc", "in", "cm", "mm"} -> RMul(q, RMul(RMul(Points(v.u), Rat(8, 9)), Dpi(ctx)))
         [] v.u = "em" -> font(ctx.em)
         [] v.u = "ex" -> font(ctx.ex)
         [] v.u = "ch" -> font(ctx.ch)
         [] v.u = "vw" -> RMul(q, Rat(ctx.w, 100))
         [] v.u = "vh" -> RMul(q, Rat(ctx.h, 100))
         [] v.u = "vmin" -> RMul(q, Rat(MinI(ctx.w, ctx.h), 100))
         [] v.u = "vmax" -> RMul(q, Rat(MaxI(ctx.w, ctx.h), 100))
         [] v.u = "%" -> RMul(q, RMul(Rat(16, 25), [n |-> ctx.sn, d |-> ctx.sd]))

(* The grid points a length may be rounded to: the nearest, or either one  *)
(* when it lies exactly half way.                                          *)
Nearest(x) == IF RTie(x) THEN {RFloor(x), RFloor(x) + 1} ELSE {RRound(x)}

(* Angles: value times the size of the unit, in degrees; a radian lies     *)
(* between these bounds (in 1/100000 degree).                              *)
AngleUnits == {"deg", "grad", "rad", "turn"}
Degrees(v) == RMul([n |-> v.n, d |-> v.d], CASE v.u = "deg" -> RInt(1) [] v.u = "grad" -> Rat(9, 10) [] v.u = "turn" -> RInt(360))
RadianBounds == <<5729577, 5729578>>

(* Multiplication and negation. *)
Times(v, k) == LET p == RMul([n |-> v.n, d |-> v.d], k) IN [v EXCEPT !.n = p.n, !.d = p.d]
Negated(v) == [v EXCEPT !.n = -v.n]
=============================================================================
