------------------------------ MODULE RectsMC ------------------------------
(* The algebra of Rects agrees with the point sets, for all pairs of rectangles and lines
   of a small lattice (even coordinates: the odd ones stand for inner points). *)
EXTENDS Rects
CONSTANT N
VARIABLES r, q
E == {2 * i : i \in 0 .. N}
R == {<<a, b, c, d>> \in E \X E \X E \X E : a <= b /\ c <= d}
Pts == (-1 .. 2 * N + 1) \X (-1 .. 2 * N + 1)
Set(x) == {p \in Pts : Has(x, p)}
Init == r \in R /\ q \in R
Next == UNCHANGED <<r, q>>
Spec == Init /\ [][Next]_<<r, q>>
MeetIsCommon == IF Disjoint(r, q) THEN Set(r) \cap Set(q) = {} ELSE Set(Meet(r, q)) = Set(r) \cap Set(q)
Symmetric == CommonArea(r, q) = CommonArea(q, r)
\* area counts the inner cells of the lattice
Odd(x) == {p \in Set(x) : p[1] % 2 = 1 /\ p[2] % 2 = 1}
AreaCounts == CommonArea(r, q) = 4 * Cardinality(Odd(r) \cap Odd(q))
Split == /\ Tiles(<<Lower(r), Upper(r)>>, r, Set(r)) /\ Tiles(<<Lefter(r), Righter(r)>>, r, Set(r))
         /\ Tiles(Quarters(r), r, Set(r))
\* q's diagonal as a line: every crossing is on the line and on a side, and no lattice point of a side is lost
A == <<q[1], q[3]>>
B == <<q[2], q[4]>>
Proper == r[1] < r[2] /\ r[3] < r[4]
LineCrossings == (Proper /\ A # B) =>
  LET cs == Crossings(r, A, B, 64 * 45)
      degenerate == (A[1] = B[1] /\ A[1] \in {r[1], r[2]}) \/ (A[2] = B[2] /\ A[2] \in {r[3], r[4]}) IN
  /\ Cardinality(cs) <= 2
  /\ \A p \in cs : OnLine(A, B, p, 64 * 45) /\ \E s \in 0 .. 3 : OnSide(r, p, 64 * 45, s)
  /\ \A p \in Pts : (~degenerate /\ OnLine(A, B, p, 1) /\ \E s \in 0 .. 3 : OnSide(r, p, 1, s)) => <<2880 * p[1], 2880 * p[2]>> \in cs
=============================================================================
