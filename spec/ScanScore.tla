------------------------------ MODULE ScanScore ------------------------------
(* The score of a scan: which of its points count, where they lie, how much they weigh.
   World lengths in 1/U cells; a scan point is [a, b, occ, f]: 25*<<a, b>> in the sensor's frame,
   hit or not, factor in 1/4. A heading h is <<c, s>> with c^2 + s^2 = 625. Point scores in 1/64. *)
EXTENDS GridGeom
\* where a point lies in the world
World(p, pose, h) == <<pose[1] + h[1] * p.a - h[2] * p.b, pose[2] + h[2] * p.a + h[1] * p.b>>
Moved(p, pose) == <<pose[1] + 25 * p.a, pose[2] + 25 * p.b>>
Sq(p) == 625 * (p.a * p.a + p.b * p.b)
\* usable: hit something, near enough (max2: twice the limit, -1: no limit), on the map; every skip-th
InMap(ext, c) == ext.any \/ (ext.x <= c[1] /\ c[1] < ext.x + ext.w /\ ext.y <= c[2] /\ c[2] < ext.y + ext.h)
Usable(p, pose, h, max2, ext, U) ==
  /\ p.occ /\ (max2 = -1 \/ 4 * Sq(p) < max2 * max2) /\ InMap(ext, CellOf(World(p, pose, h), U))
Thinned(i, skip) == skip = 0 \/ (i - 1) % skip = 0
Kept(pts, pose, h, skip, max2, ext, U) ==
  SelectSeq([i \in DOMAIN pts |-> i], LAMBDA i : Thinned(i, skip) /\ Usable(pts[i], pose, h, max2, ext, U))
(* weights *)
Even(pts) == [i \in DOMAIN pts |-> 1]
\* reciprocal of how many of the scan's point pairs run in the same direction (20 directions of 9 degrees)
Dirs == <<<<9877, 1564>>, <<9511, 3090>>, <<8910, 4540>>, <<8090, 5878>>, <<7071, 7071>>, <<5878, 8090>>, <<4540, 8910>>, <<3090, 9511>>, <<1564, 9877>>, <<0, 10000>>, <<-1564, 9877>>, <<-3090, 9511>>, <<-4540, 8910>>, <<-5878, 8090>>, <<-7071, 7071>>, <<-8090, 5878>>, <<-8910, 4540>>, <<-9511, 3090>>, <<-9877, 1564>>>>
Bucket(p, q) ==
  LET dx == q.a - p.a  dy == q.b - p.b
      x == IF dy < 0 THEN -dx ELSE dx  y == IF dy < 0 THEN -dy ELSE dy IN
  IF dy = 0 THEN 0 ELSE Cardinality({k \in DOMAIN Dirs : Dirs[k][1] * y - Dirs[k][2] * x >= 0})
Buckets(pts) == [i \in 2 .. Len(pts) |-> Bucket(pts[i - 1], pts[i])]
Lcm == 60 \* of 1 .. 6
Reciprocal(pts) ==
  LET bs == Buckets(pts) IN
  [i \in DOMAIN pts |-> IF i = 1 THEN Lcm \div Len(pts) ELSE Lcm \div Cardinality({j \in 2 .. Len(pts) : bs[j] = bs[i]})]
\* by direction and the root of the range; points are k^2 times a triple with hypotenuse D
Viny(pts, D) ==
  [i \in DOMAIN pts |->
    LET p == pts[i]
        n == Sq(p) \div 625
        k == CHOOSE k \in 0 .. 8 : k * k * k * k * D * D = n
        ax == IF k = 0 THEN 0 ELSE Abs(p.a) \div (k * k)
        ay == IF k = 0 THEN 0 ELSE Abs(p.b) \div (k * k) IN
    k * (IF 10 * ax > 9 * D THEN 3 * D ELSE IF 10 * ax > 8 * D THEN 2 * D ELSE ax + ay)]
RECURSIVE Total(_, _)
Total(f, i) == IF i = 0 THEN 0 ELSE f[i] + Total(f, i - 1)
\* score as a fraction of 1/256; den = 0: unknown
Score(pts, w, prob) ==
  <<Total([i \in DOMAIN pts |-> w[i] * pts[i].f * prob[i]], Len(pts)), Total(w, Len(pts))>>
=============================================================================
