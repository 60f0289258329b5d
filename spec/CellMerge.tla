------------------------------ MODULE CellMerge ------------------------------
(* How the cell kinds merge observations, in exact integer arithmetic.       *)
(* An observation has occupancy p/16, quality q/8, and an obstacle point.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Base == 0   Affine == 1   Mean == 2   Gmap == 3
Abs(x) == IF x < 0 THEN -x ELSE x
\* n: valid observations; s: sum of contributions; h, sx, sy: hits and sums of obstacle points
Fresh == [n |-> 0, s |-> 0, h |-> 0, sx |-> 0, sy |-> 0, last |-> -1]
Valid(o) == o.bad = 0
Merge(kind, c, o) ==
   IF ~Valid(o) THEN c
   ELSE CASE kind = Mean -> [c EXCEPT !.n = @ + 1, !.s = @ + 64 + (o.p - 8) * o.q]        \* of 128
          [] kind = Gmap -> IF o.p <= 8 THEN [c EXCEPT !.n = @ + 1]
                            ELSE [c EXCEPT !.n = @ + 1, !.s = @ + o.p, !.h = @ + 1,       \* of 16
                                           !.sx = @ + o.x, !.sy = @ + o.y]
          [] OTHER       -> [c EXCEPT !.n = @ + 1]
Unknown(c) == c.n = 0
=============================================================================
