----------------------------- MODULE BeamPathMC -----------------------------
(* The stepping rule of beam rasterization (walk towards the end, at each step to the
   neighbour whose centre is nearer to the segment's line, diagonally through corners),
   run on every segment between points of a small grid: the path it makes is exactly
   a connected path of the cells the segment touches. *)
EXTENDS GridGeom
CONSTANTS U, N
VARIABLES a, b, path, err, done
vars == <<a, b, path, err, done>>
P == (-N .. N) \X (-N .. N)
\* twice the signed offset of the centre of cell c from the line, times the length
Off(c) == 2 * Cross(a, b, U * c[1], U * c[2]) + U * ((b[1] - a[1]) - (b[2] - a[2]))
Init == /\ a \in P /\ b \in P /\ path = <<CellOf(a, U)>> /\ err = 0 /\ done = FALSE
Inc(d) == IF d > 0 THEN 1 ELSE -1
Step ==
  /\ ~done /\ UNCHANGED <<a, b, err>>
  /\ LET c == path[Len(path)]
         z == CellOf(b, U)
         ix == Inc(b[1] - a[1])  iy == Inc(b[2] - a[2])
         ex == Abs(Off(<<c[1] + ix, c[2]>>))  ey == Abs(Off(<<c[1], c[2] + iy>>)) IN
     IF c = z THEN done' = TRUE /\ UNCHANGED path
     ELSE /\ done' = FALSE
          /\ path' = Append(path,
               IF ex = ey THEN IF c[1] = z[1] THEN <<c[1], c[2] + iy>>
                               ELSE IF c[2] = z[2] THEN <<c[1] + ix, c[2]>>
                               ELSE <<c[1] + ix, c[2] + iy>>
               ELSE IF ex < ey THEN <<c[1] + ix, c[2]>> ELSE <<c[1], c[2] + iy>>)
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
LengthBound == Len(path) <= Abs(CellOf(b, U)[1] - CellOf(a, U)[1]) + Abs(CellOf(b, U)[2] - CellOf(a, U)[2]) + 1
Right == done => PathFault(a, b, path, U) = ""
=============================================================================
