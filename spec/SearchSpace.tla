----------------------------- MODULE SearchSpace -----------------------------
(* The search-space explorer: a robot looks around in a map, and every place of a grid around it is scored by how
   well the scan fits the map there. Two pictures are written: the scan, and the scores.
   Lengths are in units of 0.2 mm (a cell of the map is 500 of them, the robot stands in the middle of cell <<0, 0>>),
   occupancies in quarters, a colour is "b" (occupied), "w" (free) or "g" (not seen). What rounding may turn either
   way is a set of possibilities. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Size == 500
Robot == 250
Slack == 3
Abs(v) == IF v < 0 THEN -v ELSE v
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Low(S) == CHOOSE s \in S : \A t \in S : s <= t
High(S) == CHOOSE s \in S : \A t \in S : s >= t
At(v, size) == v \div size
Near(v, size) == {(v - Slack) \div size, (v + Slack) \div size}

\* --- what fits where: Val(c) is the occupancy of a cell, pts the points of the scan seen from the robot
Fits(Val(_), p, d) == {Val(<<x, y>>) : x \in Near(Robot + d[1] + p[1], Size), y \in Near(Robot + d[2] + p[2], Size)}
SumLow(Val(_), pts, d) == FoldLeft(LAMBDA acc, p : acc + Low(Fits(Val, p, d)), 0, pts)
SumHigh(Val(_), pts, d) == FoldLeft(LAMBDA acc, p : acc + High(Fits(Val, p, d)), 0, pts)
\* the pixel of a score: the mean of the occupancies, black is one
Pixel(sum, n) == (255 * (4 * n - sum)) \div (4 * n)
Even(sum, n) == (255 * (4 * n - sum)) % (4 * n) = 0
Pixels(Val(_), pts, d) ==
  LET n == Len(pts) hi == SumHigh(Val, pts, d) lo == SumLow(Val, pts, d) IN
  (Pixel(hi, n) - (IF Even(hi, n) /\ Pixel(hi, n) > 0 THEN 1 ELSE 0)) .. Pixel(lo, n)

\* --- which places are tried: the robot's own, then from -reach on in steps until reach is passed or met
RECURSIVE StepsTo(_, _, _)
StepsTo(v, reach, step) == IF v < reach THEN <<v>> \o StepsTo(v + step, reach, step) ELSE <<v>>
Offsets(reach, step) == StepsTo(-reach, reach, step)
PlacesOf(os) == <<<<0, 0>>>> \o [k \in 1 .. Len(os) * Len(os) |-> <<os[((k - 1) % Len(os)) + 1], os[((k - 1) \div Len(os)) + 1]>>]
Places(reach, step) == PlacesOf(Offsets(reach, step))
CellOfPlace(d, step) == <<At(Robot + d[1], step), At(Robot + d[2], step)>>
\* the place whose score a cell of the picture shows: the last one tried in it (one at least is among the last tried)
LastIn(places, c, step) == LET S == {k \in DOMAIN places : CellOfPlace(places[k], step) = c} IN IF S = {} THEN 0 ELSE High(S)

\* --- what the picture of the scan may show
\* the cells a beam to p surely goes through (margin 5 inside) and those it may touch; <<along, across>> of the steeper axis
Beam(p) ==
  LET flip == Abs(p[1]) < Abs(p[2])
      a == IF flip THEN p[2] ELSE p[1] b == IF flip THEN p[1] ELSE p[2]
      lo == Min2(Robot, Robot + a) hi == Max2(Robot, Robot + a)
      Y(X) == IF a = 0 THEN Robot ELSE Robot + (IF a > 0 THEN (b * (X - Robot)) \div a ELSE (b * (Robot - X)) \div (-a))
      Cols == At(lo - Slack, Size) .. At(hi + Slack, Size)
      \* the stretch of the beam over a column
      Ends(c) == {Y(Min2(hi, Max2(lo, c * Size))), Y(Min2(hi, Max2(lo, (c + 1) * Size)))}
      May(c) == At(Low(Ends(c)) - Slack, Size) .. At(High(Ends(c)) + Slack, Size)
      Sure(c) == {r \in May(c) : /\ r * Size + 5 <= High(Ends(c)) /\ Low(Ends(c)) <= (r + 1) * Size - 5
                                 /\ c * Size + 5 <= hi /\ lo <= (c + 1) * Size - 5}
      Place(c, r) == IF flip THEN <<r, c>> ELSE <<c, r>> IN
  [may |-> UNION {{Place(c, r) : r \in May(c)} : c \in Cols}, sure |-> UNION {{Place(c, r) : r \in Sure(c)} : c \in Cols}]
EndsIn(p) == {<<x, y>> : x \in Near(Robot + p[1], Size), y \in Near(Robot + p[2], Size)}
Drawn(f, p) ==
  LET bm == Beam(p) en == EndsIn(p) IN
  [c \in DOMAIN f |->
     IF c \in en THEN (IF Cardinality(en) = 1 THEN {"b"} ELSE f[c] \cup {"b", "w"})
     ELSE IF c \in bm.sure THEN {"w"} ELSE IF c \in bm.may THEN f[c] \cup {"w"} ELSE f[c]]
Blank(cells) == [c \in cells |-> {"g"}]
Colours(cells, pts) == FoldLeft(LAMBDA f, p : Drawn(f, p), Blank(cells), pts)
Shown(px) == IF px = 0 THEN "b" ELSE IF px = 255 THEN "w" ELSE IF px \in {127, 128} THEN "g" ELSE "?"
=============================================================================
