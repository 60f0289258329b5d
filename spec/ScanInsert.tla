----------------------------- MODULE ScanInsert -----------------------------
(* What inserting a scan does to a map: which observation every cell gets from every beam.
   Points in 1/U cells; probabilities and qualities in 1/64. *)
EXTENDS GridGeom
Len2(a, b) == (b[1] - a[1]) * (b[1] - a[1]) + (b[2] - a[2]) * (b[2] - a[2])
Dist2(c, d) == (c[1] - d[1]) * (c[1] - d[1]) + (c[2] - d[2]) * (c[2] - d[2])
\* beam i of n is used when it is inside the margins and not too long (r2x4: four times the squared range, or -1)
Used(beams, margin, r2x4) ==
  {i \in DOMAIN beams : i > margin /\ i <= Len(beams) - margin
                        /\ (r2x4 = -1 \/ 4 * Len2(beams[i].a, beams[i].b) <= r2x4)}
(* blurring: the squared hole width in cells as a fraction, given by B:
   B > 0: B/4 cells; B < 0: |B|/64 cells per squared unit of the beam's length; 0: none *)
HoleNum(B, a, b) == IF B >= 0 THEN B * B ELSE (B * Len2(a, b)) * (B * Len2(a, b))
HoleDen(B) == IF B >= 0 THEN 16 ELSE 4096
Blurs(B, occ, a, b, c, U) ==
  /\ occ /\ B # 0
  /\ HoleDen(B) * Dist2(c, CellOf(b, U)) < HoleNum(B, a, b)
  /\ HoleNum(B, a, b) < HoleDen(B) * Dist2(CellOf(a, U), CellOf(b, U))
\* the cells of a beam as a set
CellsFault(a, b, cells, U) ==
  IF CellOf(b, U) \notin cells THEN "the beam's end got no observation"
  ELSE IF CellOf(a, U) \notin cells THEN "the beam's beginning got no observation"
  ELSE IF \E c \in cells : ~Touches(a, b, c, U) THEN "a cell off the beam got an observation"
  ELSE IF \E c \in Box(a, b, U) \ cells : Crosses(a, b, c, U) THEN "a crossed cell got no observation"
  ELSE ""
=============================================================================
