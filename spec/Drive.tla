-------------------------------- MODULE Drive --------------------------------
(* A whole recorded drive through a single-hypothesis SLAM that trusts its odometry: which scans are used, where the
   robot is said to have been, and the map drawn in the end. Beams point along the axes; a place is <<x, y, h>> in
   1/64 m and quarter turns, a cell is S/64 m wide, occupancies are counted in 1/16 and qualities in 1/4.
   A scan is [k |-> "s", t, rays, q0]: reading i (from 0) looks q0 + i quarter turns from ahead. *)
EXTENDS BagSync
Dir(h) == CASE h % 4 = 0 -> <<1, 0>> [] h % 4 = 1 -> <<0, 1>> [] h % 4 = 2 -> <<-1, 0>> [] h % 4 = 3 -> <<0, -1>>
\* the beams of a scan: <<range, is there an obstacle, direction>>
Beam(v, rmin, rmax, skip) ==
  IF v < rmin THEN <<>> ELSE IF v >= rmax THEN (IF skip THEN <<>> ELSE <<<<rmax, FALSE>>>>) ELSE <<<<v, TRUE>>>>
RECURSIVE Beams(_, _, _, _, _, _)
Beams(rays, k, h, rmin, rmax, skip) ==
  IF k > Len(rays) THEN <<>>
  ELSE LET b == Beam(rays[k], rmin, rmax, skip) IN
       (IF b = <<>> THEN <<>> ELSE <<[v |-> b[1][1], occ |-> b[1][2], d |-> Dir(h + k - 1)]>>) \o Beams(rays, k + 1, h, rmin, rmax, skip)
Cell(x, y, S) == <<x \div S, y \div S>>
\* cells from one to another along an axis, without the last
Before(a, b) == IF a = b THEN {}
                ELSE IF a[1] = b[1] THEN {<<a[1], y>> : y \in (IF a[2] < b[2] THEN a[2] .. b[2] - 1 ELSE b[2] + 1 .. a[2])}
                ELSE {<<x, a[2]>> : x \in (IF a[1] < b[1] THEN a[1] .. b[1] - 1 ELSE b[1] + 1 .. a[1])}
\* the observations a beam makes: the free cells and the last cell
Marks(pose, bm, S, far) ==
  IF far # 0 /\ bm.v > far THEN {}
  ELSE LET a == Cell(pose[1], pose[2], S)
           b == Cell(pose[1] + bm.d[1] * bm.v, pose[2] + bm.d[2] * bm.v, S) IN
       {<<c, FALSE>> : c \in Before(a, b)} \cup {<<b, bm.occ>>}
\* a map: the number of observations of every cell seen, and the sum of what they say (1/64 each)
Add(map, marks, pf, po, q) ==
  LET at(c) == IF c \in DOMAIN map THEN map[c] ELSE <<0, 0>>
      seen == {m[1] : m \in marks}
      say(c) == 32 + ((IF <<c, TRUE>> \in marks THEN po ELSE pf) - 8) * q
  IN [c \in DOMAIN map \cup seen |-> IF c \in seen THEN <<at(c)[1] + 1, at(c)[2] + say(c)>> ELSE at(c)]
RECURSIVE AddAll(_, _, _, _, _, _, _, _)
AddAll(map, pose, bs, S, far, pf, po, q) ==
  IF bs = <<>> THEN map ELSE AddAll(Add(map, Marks(pose, Head(bs), S, far), pf, po, q), pose, Tail(bs), S, far, pf, po, q)
Nothing == [c \in {} |-> <<0, 0>>]
=============================================================================
