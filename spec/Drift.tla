-------------------------------- MODULE Drift --------------------------------
(* The detector of ambiguous drift. Two neighbouring points of a scan lie in a *)
(* direction (a line's, so opposite ones are the same); directions fall in 20  *)
(* classes of 9 degrees. When fewer than 40 % of the scan's points follow      *)
(* their neighbour in the most frequent class, the wrapped matcher's result    *)
(* stands. Otherwise the points of the classes that frequent (and the first    *)
(* point) are taken out, and the pose is drawn along the most frequent         *)
(* direction, at -25 .. 25 cm in steps of 10 cm, to where the rest of the scan *)
(* scores highest; it stays where it was if nothing scores higher.             *)
EXTENDS Integers, Sequences, FiniteSets
NaN == 2000000001
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
\* the direction from point a to point b as the class it falls in (0 .. 19)
\* tangents of 9, 18, .. 81 degrees, as a hundred thousandth
Tan == <<15838, 32492, 50953, 72654, 100000, 137638, 196261, 307768, 631375>>
ClassOf(a, b) ==
   LET x == b[1] - a[1] y == b[2] - a[2]
       up == y > 0 \/ (y = 0 /\ x > 0)
       dx == IF up THEN x ELSE -x   dy == IF up THEN y ELSE -y
   IN IF dy = 0 THEN 0
      ELSE IF dx > 0 THEN Cardinality({i \in 1 .. 9 : dy * 100000 >= Tan[i] * dx})
      ELSE 10 + Cardinality({i \in 1 .. 9 : -dx * 100000 >= Tan[i] * dy})
Count(cs, c) == Cardinality({i \in DOMAIN cs : cs[i] = c})
\* cs: classes of points 2 .. n (index 1 .. n-1)
Classes(pts) == [i \in 1 .. IF pts = <<>> THEN 0 ELSE Len(pts) - 1 |-> ClassOf(pts[i], pts[i + 1])]
Top(cs) == Max({Count(cs, c) : c \in 0 .. 19})
Ambiguous(pts) == LET n == Len(pts) IN 10 * Top(Classes(pts)) >= 4 * n
Rest(pts) == LET cs == Classes(pts) top == Top(cs)
                 keep == {i \in 2 .. Len(pts) : Count(cs, cs[i - 1]) # top}
                 RECURSIVE Take(_)
                 Take(i) == IF i > Len(pts) THEN <<>> ELSE (IF i \in keep THEN <<pts[i]>> ELSE <<>>) \o Take(i + 1)
             IN Take(1)
MainClass(pts) == LET cs == Classes(pts) IN Min({c \in 0 .. 19 : Count(cs, c) = Top(cs)})
Better(a, b) == a # NaN /\ b # NaN /\ a > b
\* where a sequence of scores leads, the first of which is the place at the start
RECURSIVE Climb(_, _, _)
Climb(s, i, best) == IF i > Len(s) THEN best ELSE Climb(s, i + 1, IF Better(s[i], s[best]) THEN i ELSE best)
=============================================================================
