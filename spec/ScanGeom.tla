------------------------------ MODULE ScanGeom ------------------------------
(* Where the points of a scan lie: moving, turning and converting them; the sine and cosine
   providers; directions of consecutive points and their histogram. Points are integers; a
   heading h is <<c, s>> with c^2 + s^2 = 625, so turned coordinates are in 1/25. *)
EXTENDS Integers, Sequences, FiniteSets, Trig
Abs(v) == IF v < 0 THEN -v ELSE v
Turn(p, h) == <<h[1] * p[1] - h[2] * p[2], h[2] * p[1] + h[1] * p[2]>>
Full(p) == <<25 * p[1], 25 * p[2]>>
Plus(p, d) == <<p[1] + 25 * d[1], p[2] + 25 * d[2]>>
\* one heading after another, in 1/625
Then(g, h) == <<g[1] * h[1] - g[2] * h[2], g[2] * h[1] + g[1] * h[2]>>
\* --- providers: what a provider was set up with and what it has to answer
Beam(sec, i) == sec.lo + i * sec.step
OnSector(sec, i) == 0 <= i /\ Beam(sec, i) < sec.hi
Sine(base, a) == SinU(base + a)
Cosine(base, a) == CosU(base + a)
\* --- directions: a line through two points has one, whichever point comes first; 3600 units of
\* 1/20 degree make half a turn; n buckets share them evenly
Up(p, q) == LET dx == q[1] - p[1]  dy == q[2] - p[2] IN IF dy < 0 THEN <<-dx, -dy>> ELSE <<dx, dy>>
\* millionths of how far the line leads beyond the k-th border
Beyond(v, n, k) == LET u == k * (3600 \div n) IN CosU(u) * v[2] - SinU(u) * v[1]
Slack(v) == (Abs(v[1]) + Abs(v[2])) \div 2 + 2
\* lowest and highest bucket (they differ only for lines along a border between two)
LowBucket(p, q, n) == LET v == Up(p, q) IN
  IF v[2] = 0 THEN 0 ELSE Cardinality({k \in 1 .. n - 1 : Beyond(v, n, k) > Slack(v)})
HighBucket(p, q, n) == LET v == Up(p, q) IN
  IF v[2] = 0 THEN 0 ELSE Cardinality({k \in 1 .. n - 1 : Beyond(v, n, k) >= -Slack(v)})
Clear(p, q, n) == LowBucket(p, q, n) = HighBucket(p, q, n)
=============================================================================
