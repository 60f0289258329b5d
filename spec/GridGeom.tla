------------------------------ MODULE GridGeom ------------------------------
(* Geometry of a regular squares grid. Lengths are integers in units of 1/U cell;
   a cell is a pair of integers, its square is half-open (left and bottom sides in). *)
EXTENDS Integers, Sequences, FiniteSets
CellOf(p, U) == <<p[1] \div U, p[2] \div U>>
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
\* bounds of a cell
Lo(c, U) == U * c
Hi(c, U) == U * (c + 1)
InSquare(p, c, U) == /\ Lo(c[1], U) <= p[1] /\ p[1] < Hi(c[1], U)
                     /\ Lo(c[2], U) <= p[2] /\ p[2] < Hi(c[2], U)

(* Cells of a rectangle [l, r] x [b, t] *)
Range(lo, hi, U, border) ==
  IF border THEN (lo \div U) .. (hi \div U)                 \* squares having a point of the closed rectangle
            ELSE (lo \div U) .. (-((-hi) \div U) - 1)         \* squares whose inside meets the rectangle's inside
RectCells(l, r, b, t, U, border) == Range(l, r, U, border) \X Range(b, t, U, border)

(* A segment and the square of a cell *)
Cross(a, b, x, y) == (b[1] - a[1]) * (y - a[2]) - (b[2] - a[2]) * (x - a[1])
Corners(a, b, c, U) == { Cross(a, b, x, y) : x \in {Lo(c[1], U), Hi(c[1], U)}, y \in {Lo(c[2], U), Hi(c[2], U)} }
Touches(a, b, c, U) ==  \* closed square and segment have a common point
  /\ Max(a[1], b[1]) >= Lo(c[1], U) /\ Min(a[1], b[1]) <= Hi(c[1], U)
  /\ Max(a[2], b[2]) >= Lo(c[2], U) /\ Min(a[2], b[2]) <= Hi(c[2], U)
  /\ LET cs == Corners(a, b, c, U) IN (\E v \in cs : v <= 0) /\ (\E v \in cs : v >= 0)
Crosses(a, b, c, U) ==  \* the segment passes through the inside of the square
  /\ Max(a[1], b[1]) > Lo(c[1], U) /\ Min(a[1], b[1]) < Hi(c[1], U)
  /\ Max(a[2], b[2]) > Lo(c[2], U) /\ Min(a[2], b[2]) < Hi(c[2], U)
  /\ a = b \/ LET cs == Corners(a, b, c, U) IN (\E v \in cs : v < 0) /\ (\E v \in cs : v > 0)
Adjacent(c, d) == c # d /\ Abs(c[1] - d[1]) <= 1 /\ Abs(c[2] - d[2]) <= 1
Box(a, b, U) == LET p == CellOf(a, U)  q == CellOf(b, U) IN
  (Min(p[1], q[1]) - 1 .. Max(p[1], q[1]) + 1) \X (Min(p[2], q[2]) - 1 .. Max(p[2], q[2]) + 1)

(* What is wrong with a path of cells as the rasterization of the segment a-b; "" if nothing is *)
PathFault(a, b, path, U) ==
  LET cells == {path[i] : i \in DOMAIN path} IN
  IF path = <<>> THEN "a beam has no cells"
  ELSE IF path[1] # CellOf(a, U) THEN "the path does not start with the cell of the beam's beginning"
  ELSE IF path[Len(path)] # CellOf(b, U) THEN "the path does not end with the cell of the beam's end"
  ELSE IF Cardinality(cells) # Len(path) THEN "a cell is repeated"
  ELSE IF \E i \in 1 .. Len(path) - 1 : ~Adjacent(path[i], path[i + 1]) THEN "the path is broken"
  ELSE IF \E c \in cells : ~Touches(a, b, c, U) THEN "a cell the beam does not touch"
  ELSE IF \E c \in Box(a, b, U) \ cells : Crosses(a, b, c, U) THEN "a cell the beam crosses is missing"
  ELSE ""

(* What is wrong with a sequence of points as the line of whole points between a and b: one point for each step along the
   longer axis, never further than half a step across from the segment *)
LineFault(a, b, line) ==
  LET dx == b[1] - a[1] dy == b[2] - a[2] m == Max(Abs(dx), Abs(dy))
      Along(i) == IF Abs(dx) >= Abs(dy) THEN Abs(line[i + 1][1] - a[1]) ELSE Abs(line[i + 1][2] - a[2]) IN
  IF Len(line) # m + 1 THEN "a line has not one point for each step along its longer axis"
  ELSE IF line[1] # a \/ line[Len(line)] # b THEN "a line does not connect its ends"
  ELSE IF \E i \in 1 .. m : ~Adjacent(line[i], line[i + 1]) THEN "a line is broken"
  ELSE IF \E i \in 0 .. m : Along(i) # i THEN "a line does not step along its longer axis"
  ELSE IF \E i \in DOMAIN line : 2 * Abs(Cross(a, b, line[i][1], line[i][2])) > m THEN "a point of a line is further than half a step from the segment"
  ELSE ""
=============================================================================
