------------------------------ MODULE GridTrace ------------------------------
(* Recorded geometry queries of grids, rectangles and beams against GridGeom. *)
EXTENDS GridGeom, Json, IOUtils, TLC
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, l, bad
vars == <<e, l, bad>>
Ep == Eps[e]
U == Ep.U
TInit == e \in 1 .. Len(Eps) /\ l = 0 /\ bad = ""
Point(ev) ==
  IF ev.c # CellOf(ev.p, U) THEN "a point belongs to another cell"
  ELSE IF ev.m # <<Lo(ev.c[1], U), Hi(ev.c[1], U), Lo(ev.c[2], U), Hi(ev.c[2], U)>> THEN "the bounds are not the cell's square"
  ELSE IF ev.mid # <<2 * U * ev.c[1] + U, 2 * U * ev.c[2] + U>> THEN "the centre is not the middle of the square"
  ELSE IF ev.back # ev.c THEN "the centre belongs to another cell"
  ELSE ""
Shift(ev) ==  \* internal and external coordinates
  IF ev.ext # <<ev.i[1] - ev.o[1], ev.i[2] - ev.o[2]>> THEN "external coordinates are not shifted by the origin"
  ELSE IF ev.int # ev.i THEN "internal coordinates do not come back"
  ELSE IF ev.has # (ev.any \/ (0 <= ev.i[1] /\ ev.i[1] < ev.w /\ 0 <= ev.i[2] /\ ev.i[2] < ev.h)) THEN "has_cell is wrong"
  ELSE ""
Rect(ev) ==
  LET cells == {ev.c[i] : i \in DOMAIN ev.c} IN
  IF Cardinality(cells) # Len(ev.c) THEN "a cell of the rectangle is repeated"
  ELSE IF ev.r[1] = ev.r[2] /\ ev.r[3] = ev.r[4]
       THEN IF cells = {CellOf(<<ev.r[1], ev.r[3]>>, U)} THEN "" ELSE "a point is in exactly one cell"
  ELSE IF cells = RectCells(ev.r[1], ev.r[2], ev.r[3], ev.r[4], U, ev.border) THEN "" ELSE "wrong cells of a rectangle"
Whole(ev) == \* the rectangle without bounds: all cells of the map
  LET cells == {ev.c[i] : i \in DOMAIN ev.c} IN
  IF Cardinality(cells) = Len(ev.c) /\ cells = ((-ev.o[1]) .. (ev.w - 1 - ev.o[1])) \X ((-ev.o[2]) .. (ev.h - 1 - ev.o[2]))
  THEN "" ELSE "the unbounded rectangle is not the whole map"
Verdict(ev) ==
   CASE ev.op = "pt" -> Point(ev)
     [] ev.op = "shift" -> Shift(ev)
     [] ev.op = "rect" -> Rect(ev)
     [] ev.op = "whole" -> Whole(ev)
     [] ev.op = "beam" -> PathFault(ev.a, ev.b, ev.c, U)
     [] ev.op = "line" -> LineFault(ev.a, ev.b, ev.c)
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ bad' = Verdict(Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
