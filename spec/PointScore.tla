----------------------------- MODULE PointScore -----------------------------
(* The score of a scan point: how well the cells its area covers agree with an obstacle there.
   Lengths in 1/U cells; Imp(c) is the agreement of cell c, in 1/64. Scores are fractions <<num, den>> of 1/64. *)
EXTENDS GridGeom, Rects
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN f[c] + SumOver(S \ {c}, f)
MaxOver(S, f) == IF S = {} THEN 0 ELSE CHOOSE v \in {f[c] : c \in S} : \A c \in S : f[c] <= v
IsPoint(r) == r[1] = r[2] /\ r[3] = r[4]
Covered(r, U) == IF IsPoint(r) THEN {CellOf(<<r[1], r[3]>>, U)} ELSE RectCells(r[1], r[2], r[3], r[4], U, TRUE)
Square(c, U) == <<Lo(c[1], U), Hi(c[1], U), Lo(c[2], U), Hi(c[2], U)>>
CoverShare(r, U) == [c \in Covered(r, U) |-> IF IsPoint(r) THEN 1 ELSE CommonArea(r, Square(c, U))]
Obstacle(p, imp, U) == <<imp[CellOf(p, U)], 1>>
Maximum(r, imp, U) == <<MaxOver(Covered(r, U), imp), 1>>
Mean(r, imp, U) == <<SumOver(Covered(r, U), imp), Cardinality(Covered(r, U))>>
Overlap(r, imp, U) ==
  LET w == CoverShare(r, U) IN
  <<SumOver(Covered(r, U), [c \in Covered(r, U) |-> imp[c] * w[c]]), SumOver(Covered(r, U), w)>>
\* the best agreement among the occupied enough cells of a window around the obstacle; 0 if there are none
Window(p, k, U) == LET c == CellOf(p, U) IN (c[1] - k .. c[1] + k) \X (c[2] - k .. c[2] + k)
Full(p, k, occ, th, U) == {c \in Window(p, k, U) : occ[c] >= th}
Windowed(p, k, occ, imp, th, U) == <<MaxOver(Full(p, k, occ, th, U), imp), 1>>
=============================================================================
