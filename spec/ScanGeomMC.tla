----------------------------- MODULE ScanGeomMC -----------------------------
(* Laws of scan geometry on all points of a small lattice. *)
EXTENDS ScanGeom
CONSTANTS R
VARIABLES p, q, n
Heads == {<<25, 0>>, <<0, 25>>, <<-25, 0>>, <<15, 20>>, <<-7, 24>>, <<24, -7>>}
L == {<<a, b>> : a \in -R .. R, b \in -R .. R}
Init == p \in L /\ q \in L /\ n \in {1, 3, 4, 20, 36}
Next == UNCHANGED <<p, q, n>>
Spec == Init /\ [][Next]_<<p, q, n>>
Sq(v) == v[1] * v[1] + v[2] * v[2]
Minus(v, w) == <<v[1] - w[1], v[2] - w[2]>>
\* turning keeps distances and can be undone; headings add up
Rigid == \A h \in Heads : Sq(Minus(Turn(p, h), Turn(q, h))) = 625 * Sq(Minus(p, q))
Undo == \A h \in Heads : Turn(Turn(p, h), <<h[1], -h[2]>>) = <<625 * p[1], 625 * p[2]>>
Compose == \A h, g \in Heads : Turn(Turn(p, h), g) = Turn(p, Then(g, h))
Inside == LowBucket(p, q, n) \in 0 .. n - 1 /\ HighBucket(p, q, n) \in 0 .. n - 1 /\ LowBucket(p, q, n) <= HighBucket(p, q, n)
EitherWay == LowBucket(p, q, n) = LowBucket(q, p, n) /\ HighBucket(p, q, n) = HighBucket(q, p, n)
Shifted == LowBucket(Minus(p, q), <<0, 0>>, n) = LowBucket(p, q, n)
Nearby == HighBucket(p, q, n) - LowBucket(p, q, n) <= 1
\* the table is a circle: one quarter mirrors the other
Circle == \A u \in {0, 1, 299, 450, 900, 1337, 1800} :
  /\ SinU(u) = SinU(3600 - u) /\ SinU(-u) = -SinU(u) /\ CosU(u) = CosU(-u) /\ SinU(u + 7200) = SinU(u)
  /\ Abs((SinU(u) \div 100) * (SinU(u) \div 100) + (CosU(u) \div 100) * (CosU(u) \div 100) - 100000000) < 40000
=============================================================================
