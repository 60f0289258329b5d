------------------------------ MODULE AreaEst ------------------------------
(* Occupancy of a square cell seen along a beam, from the shape of their meeting.
   The cell is [0,S] x [0,S]; beam points are integer. Shares are fractions <<num, den>>. *)
EXTENDS Integers, Sequences, FiniteSets
InSq(p, S) == 0 <= p[1] /\ p[1] <= S /\ 0 <= p[2] /\ p[2] <= S
OnBorder(p, S) == InSq(p, S) /\ (p[1] \in {0, S} \/ p[2] \in {0, S})
\* a beam along a side's line is moved a bit inwards
Moved(a, b, S, k) ==
  IF a = b THEN <<a, b>>
  ELSE IF a[1] = b[1] /\ a[1] \in {0, S}
       THEN LET x == IF a[1] = S THEN S - k ELSE k IN <<<<x, a[2]>>, <<x, b[2]>>>>
  ELSE IF a[2] = b[2] /\ a[2] \in {0, S}
       THEN LET y == IF a[2] = S THEN S - k ELSE k IN <<<<a[1], y>>, <<b[1], y>>>>
  ELSE <<a, b>>
\* n/d in [lo, hi]
Btw(n, d, lo, hi) == IF d > 0 THEN lo * d <= n /\ n <= hi * d ELSE lo * d >= n /\ n >= hi * d
\* the positions on the line a + t (dx, dy) where it meets the square's border, as t * dx * dy (or t * dx, t * dy)
Spots(a, dx, dy, S) ==
  IF dx = 0 /\ dy = 0 THEN {}
  ELSE IF dx = 0 THEN IF 0 <= a[1] /\ a[1] <= S THEN {-a[2], S - a[2]} ELSE {}
  ELSE IF dy = 0 THEN IF 0 <= a[2] /\ a[2] <= S THEN {-a[1], S - a[1]} ELSE {}
  ELSE {(x - a[1]) * dy : x \in {X \in {0, S} : Btw(a[2] * dx + (X - a[1]) * dy, dx, 0, S)}}
       \cup {(y - a[2]) * dx : y \in {Y \in {0, S} : Btw(a[1] * dy + (Y - a[2]) * dx, dy, 0, S)}}
Whole(dx, dy) == IF dx = 0 THEN dy ELSE IF dy = 0 THEN dx ELSE dx * dy
LineSpots(a, b, S) == Cardinality(Spots(a, b[1] - a[1], b[2] - a[2], S))
BeamSpots(a, b, S) == LET dx == b[1] - a[1]  dy == b[2] - a[2] IN
  Cardinality({t \in Spots(a, dx, dy, S) : Btw(t, Whole(dx, dy), 0, 1)})
\* the line through b across the beam
AcrossSpots(a, b, S) == Cardinality(Spots(b, a[2] - b[2], b[1] - a[1], S))

Sq(x) == IF x > 0 THEN x * x ELSE 0
Clamp(x, hi) == IF x < 0 THEN 0 ELSE IF x > hi THEN hi ELSE x
Neg(x) == IF x < 0 THEN x ELSE 0
Mag(x) == IF x < 0 THEN -x ELSE x
\* the share of the square where A x + B y <= C
Below(A, B, C, S) ==
  LET c == C - Neg(A) * S - Neg(B) * S  p == Mag(A)  q == Mag(B) IN
  IF p = 0 THEN <<Clamp(c, q * S), q * S>>
  ELSE IF q = 0 THEN <<Clamp(c, p * S), p * S>>
  ELSE <<Sq(c) - Sq(c - p * S) - Sq(c - q * S) + Sq(c - p * S - q * S), 2 * p * q * S * S>>
\* beyond the end of the beam
Beyond(a, b, S) == LET dx == b[1] - a[1]  dy == b[2] - a[2] IN
  Below(-dx, -dy, -(dx * b[1] + dy * b[2]), S)
\* the smaller part the beam's line cuts off
Cut(a, b, S) ==
  LET dx == b[1] - a[1]  dy == b[2] - a[2]
      s == Below(dy, -dx, dy * a[1] - dx * a[2], S) IN
  IF 2 * s[1] > s[2] THEN <<s[2] - s[1], s[2]>> ELSE s

(* prm: pe, qe - a free cell's probability and quality, qo - an occupied one's quality,
   unk - the quality when it is not known how much is free, k - the move along a side.
   The result: ok, p = max(share, pe) or pe, q = quality factor times a share *)
Invalid == [ok |-> FALSE]
Free(q, share) == [ok |-> TRUE, occ |-> FALSE, q |-> q, share |-> share]
Taken(share) == [ok |-> TRUE, occ |-> TRUE, share |-> share]
Estimate(a0, b0, S, occ, k) ==
  LET m == Moved(a0, b0, S, k)  a == m[1]  b == m[2]
      ab == OnBorder(a, S)  bb == OnBorder(b, S)
      in1 == IF ab THEN FALSE ELSE InSq(a, S)
      in2 == IF ab /\ bb THEN FALSE ELSE IF bb THEN ~InSq(a, S) ELSE InSq(b, S)
      n == BeamSpots(a, b, S) IN
  IF ~in1 /\ ~in2 /\ n < 2 THEN Invalid                   \* passes by, or only touches
  ELSE IF in1 \/ ~in2
       THEN IF occ THEN Invalid                           \* the obstacle is further, or the beam starts here
            ELSE IF in1 /\ in2 THEN Free("unk", <<1, 1>>)
            ELSE IF n = 1 THEN Free("unk", <<1, 1>>) ELSE Free("qe", Cut(a, b, S))
  ELSE IF ~occ THEN IF n = 1 THEN Free("unk", <<1, 1>>) ELSE Free("qe", Cut(a, b, S))
  ELSE IF AcrossSpots(a, b, S) = 1
       THEN IF LineSpots(a, b, S) = 1 \/ BeamSpots(a, b, S) = 1 THEN Taken(<<1, 1>>)   \* stops at a near corner
            ELSE Free("qe", Cut(a, b, S))                 \* stops at the far corner
  ELSE Taken(Beyond(a, b, S))
=============================================================================
