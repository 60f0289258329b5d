---------------------------- MODULE GridGeomMC ----------------------------
(* Every point of a small lattice is in exactly one square, and the cells of a rectangle
   are exactly those its points are in. *)
EXTENDS GridGeom
CONSTANTS U, N
VARIABLES l, r, b, t
V == -N .. N
Init == l \in V /\ r \in V /\ b \in V /\ t \in V /\ l <= r /\ b <= t
Spec == Init /\ [][UNCHANGED <<l, r, b, t>>]_<<l, r, b, t>>
Cells == (-N .. N) \X (-N .. N)
OneSquare == \A c \in Cells : InSquare(<<l, b>>, c, U) <=> c = CellOf(<<l, b>>, U)
Bordered == RectCells(l, r, b, t, U, TRUE) = {CellOf(<<x, y>>, U) : x \in l .. r, y \in b .. t}
\* inner points: the middles of the lattice squares
Inner == (l < r /\ b < t) => RectCells(l, r, b, t, U, FALSE) = {CellOf(<<x, y>>, U) : x \in l .. r - 1, y \in b .. t - 1}
=============================================================================
