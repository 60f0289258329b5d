------------------------------- MODULE Rects -------------------------------
(* Axis-aligned rectangles <<left, right, bottom, top>> with integer sides,
   seen as the closed sets of their points. *)
EXTENDS Integers, Sequences, FiniteSets
RMin(a, b) == IF a < b THEN a ELSE b
RMax(a, b) == IF a > b THEN a ELSE b
Has(r, p) == r[1] <= p[1] /\ p[1] <= r[2] /\ r[3] <= p[2] /\ p[2] <= r[4]
Area(r) == (r[2] - r[1]) * (r[4] - r[3])
Meet(r, q) == <<RMax(r[1], q[1]), RMin(r[2], q[2]), RMax(r[3], q[3]), RMin(r[4], q[4])>>
Disjoint(r, q) == LET m == Meet(r, q) IN m[2] < m[1] \/ m[4] < m[3]
CommonArea(r, q) == IF Disjoint(r, q) THEN 0 ELSE Area(Meet(r, q))
MidX(r) == (r[1] + r[2]) \div 2
MidY(r) == (r[3] + r[4]) \div 2
Lower(r) == <<r[1], r[2], r[3], MidY(r)>>
Upper(r) == <<r[1], r[2], MidY(r), r[4]>>
Lefter(r) == <<r[1], MidX(r), r[3], r[4]>>
Righter(r) == <<MidX(r), r[2], r[3], r[4]>>
Quarters(r) == <<Lower(Lefter(r)), Upper(Lefter(r)), Lower(Righter(r)), Upper(Righter(r))>>
CornersOf(r) == {<<x, y>> : x \in {r[1], r[2]}, y \in {r[3], r[4]}}
\* parts tile a rectangle: they cover every point, and common points lie on their borders only
Tiles(parts, r, Pts) ==
  /\ \A p \in Pts : Has(r, p) <=> \E i \in DOMAIN parts : Has(parts[i], p)
  /\ \A i, j \in DOMAIN parts : i < j => CommonArea(parts[i], parts[j]) = 0

(* Where the line through a and b meets the sides of r; points are given as fractions
   <<x numerator, y numerator, denominator>> reduced to a common scale K. *)
\* numerators of the crossing with the horizontal line y = h: x = a1 + (h - a2) dx / dy
OnLine(a, b, p, K) == (b[1] - a[1]) * (p[2] - K * a[2]) = (b[2] - a[2]) * (p[1] - K * a[1])
OnSide(r, p, K, loc) ==
   CASE loc = 0 -> p[2] = K * r[3] /\ K * r[1] <= p[1] /\ p[1] <= K * r[2]
     [] loc = 1 -> p[1] = K * r[1] /\ K * r[3] <= p[2] /\ p[2] <= K * r[4]
     [] loc = 2 -> p[2] = K * r[4] /\ K * r[1] <= p[1] /\ p[1] <= K * r[2]
     [] loc = 3 -> p[1] = K * r[2] /\ K * r[3] <= p[2] /\ p[2] <= K * r[4]
\* exact when the slopes are powers of two
Crossings(r, a, b, K) ==
  LET dx == b[1] - a[1]  dy == b[2] - a[2] IN
  (IF dy = 0 THEN {} ELSE
     {p \in {<<K * a[1] + (K * (h - a[2]) * dx) \div dy, K * h>> : h \in {r[3], r[4]}} : K * r[1] <= p[1] /\ p[1] <= K * r[2]})
  \cup
  (IF dx = 0 THEN {} ELSE
     {p \in {<<K * v, K * a[2] + (K * (v - a[1]) * dy) \div dx>> : v \in {r[1], r[2]}} : K * r[3] <= p[2] /\ p[2] <= K * r[4]})
Within(a, b, p, K) == /\ RMin(K * a[1], K * b[1]) <= p[1] /\ p[1] <= RMax(K * a[1], K * b[1])
                      /\ RMin(K * a[2], K * b[2]) <= p[2] /\ p[2] <= RMax(K * a[2], K * b[2])
=============================================================================
