---------------------------- MODULE PointScoreMC ----------------------------
(* The rules of PointScore on every content of a small grid, every small area and obstacle. *)
EXTENDS PointScore
CONSTANTS U, N, Vals
VARIABLES imp, r, p
Cells == (-1 .. N) \X (-1 .. N)
Inner == (0 .. N - 1) \X (0 .. N - 1)
R == {<<a, b, c, d>> \in (0 .. N * U - 1) \X (0 .. N * U - 1) \X (0 .. N * U - 1) \X (0 .. N * U - 1) :
        (a < b /\ c < d) \/ (a = b /\ c = d)}
Init == /\ imp \in {[c \in Cells |-> IF c \in Inner THEN f[c] ELSE 16] : f \in [Inner -> Vals]}
        /\ r \in R /\ p = <<r[1], r[3]>>
Next == UNCHANGED <<imp, r, p>>
Spec == Init /\ [][Next]_<<imp, r, p>>
Le(a, b) == a[1] * b[2] <= b[1] * a[2]
Bounded(s) == Le(<<0, 1>>, s) /\ Le(s, <<64, 1>>) /\ s[2] > 0
Range01 == \A s \in {Obstacle(p, imp, U), Maximum(r, imp, U), Mean(r, imp, U), Overlap(r, imp, U)} : Bounded(s)
Order == /\ Le(Mean(r, imp, U), Maximum(r, imp, U)) /\ Le(Overlap(r, imp, U), Maximum(r, imp, U))
         /\ Le(Obstacle(p, imp, U), Maximum(r, imp, U))
\* the shares of the covered cells make up the area
Shares == ~IsPoint(r) => SumOver(Covered(r, U), CoverShare(r, U)) = Area(r)
\* a point has one cell, where all rules agree
PointAgrees == IsPoint(r) => \A s \in {Maximum(r, imp, U), Mean(r, imp, U), Overlap(r, imp, U)} : s = Obstacle(p, imp, U)
\* only covered cells matter
Local == \A c \in Inner \ Covered(r, U) : LET i2 == [imp EXCEPT ![c] = 64 - @] IN
  Mean(r, i2, U) = Mean(r, imp, U) /\ Maximum(r, i2, U) = Maximum(r, imp, U) /\ Overlap(r, i2, U) = Overlap(r, imp, U)
WindowRule == \A k \in 0 .. 0 : Windowed(p, k, imp, imp, 1, U) = Obstacle(p, imp, U)
=============================================================================
