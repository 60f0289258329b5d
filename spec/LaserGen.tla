------------------------------ MODULE LaserGen ------------------------------
(* What a synthesized scan sees. A cell is U units wide; directions are multiples of 1/20 degree
   with millionths as coordinates, so a place along a beam is known to about a unit, and what is
   demanded leaves a margin of M units: cells a beam barely grazes may be seen or not. *)
EXTENDS Integers, Sequences, FiniteSets, Trig
M == 2
Far == 100000
Dir(u) == <<CosU(u), SinU(u)>>
\* where (distance) a coordinate starting at o with slope d lies in [lo, hi]: <<from, to>>
Slab(o, d, lo, hi) ==
  IF -300 < d /\ d < 300 THEN (IF lo <= o /\ o <= hi THEN <<-Far, Far>> ELSE <<Far, -Far>>)
  ELSE IF d > 0 THEN <<((lo - o) * 1000000) \div d, ((hi - o) * 1000000) \div d>>
  ELSE <<((o - hi) * 1000000) \div (-d), ((o - lo) * 1000000) \div (-d)>>
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
\* part of the beam inside the cell's square widened by g
Part(o, d, c, U, g) ==
  LET x == Slab(o[1], d[1], U * c[1] - g, U * (c[1] + 1) + g)
      y == Slab(o[2], d[2], U * c[2] - g, U * (c[2] + 1) + g) IN
  <<Mx(x[1], y[1]), Mn(x[2], y[2])>>
Nonempty(i) == i[1] <= i[2]
Own(o, U) == <<o[1] \div U, o[2] \div U>>
\* certainly met: pierced well inside, ahead, entered well within the range
Met(o, d, c, U, max) ==
  LET p == Part(o, d, c, U, -M) IN Nonempty(p) /\ p[2] > 0 /\ p[1] + M <= max
\* possibly met
Maybe(o, d, c, U, max) ==
  LET p == Part(o, d, c, U, M) IN Nonempty(p) /\ p[2] > 0 /\ p[1] <= max + M
\* occ: the cells that count as occupied. What is wrong with seeing nothing, or something at distance r
Blind(o, d, occ, U, max) ==
  IF Own(o, U) \in occ THEN "the cell the scanner stands in is not seen"
  ELSE IF \E c \in occ : Met(o, d, c, U, max) THEN "an obstacle on a beam is not seen" ELSE ""
Within(o, d, c, U, r) == LET p == Part(o, d, c, U, M) IN Nonempty(p) /\ p[1] <= r /\ r <= p[2]
Seen(o, d, occ, U, max, r) ==
  LET hs == {c \in occ : Maybe(o, d, c, U, max) /\ Within(o, d, c, U, r)} IN
  IF hs = {} THEN "a point where no obstacle is"
  ELSE IF Own(o, U) \in occ THEN (IF Own(o, U) \in hs THEN "" ELSE "the cell the scanner stands in is not seen")
  ELSE LET mid == {c \in hs : LET p == Part(o, d, c, U, 0) IN ~Nonempty(p) \/ p[2] - p[1] < 4 \/ (2 * r - p[1] - p[2] \in -6 .. 6)} IN
    IF mid = {} THEN "the point is not in the middle of the beam's way through the cell"
    ELSE IF \A h \in mid : \E c \in occ : c # h /\ Met(o, d, c, U, max) /\ Part(o, d, c, U, -M)[2] < r THEN "an obstacle before the point is not seen"
    ELSE ""
\* beams: hs half of the field of view, inc the step, all in 1/20 degree
Beams(hs, inc) == {k \in 0 .. 7200 \div inc : k * inc <= 2 * hs /\ k * inc <= 7200}
Optional(hs, inc, k) == k * inc = 2 * hs \/ k * inc = 7200
=============================================================================
