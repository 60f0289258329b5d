------------------------------- MODULE BagSync -------------------------------
(* A recorded drive: scans and coordinate transforms, in the order they were recorded. A scan can be used
   once the transform from its frame to the odometry frame is known for its time; transforms are known
   between the first and the last one recorded for each link of the chain of frames.
   A record is [k |-> "s", t] or [k |-> "t", from, to, t, p] where p = <<x, y, h>> (h: quarter turns).
   The chain is the sequence of frames from the odometry frame to the scan's. *)
EXTENDS Integers, Sequences, FiniteSets
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
\* the transforms of a link (to its frame from the one above)
Link(recs, ignored, chain, i) ==
  {recs[k] : k \in {j \in DOMAIN recs : recs[j].k = "t" /\ recs[j].from = chain[i] /\ recs[j].to = chain[i + 1]
                                          /\ <<recs[j].from, recs[j].to>> \notin ignored}}
Times(L) == {r.t : r \in L}
\* can the link be told for a time: "ok", "past" (never will be), "wait" (not yet)
LinkState(L, t) ==
  IF t \in Times(L) THEN "ok"
  ELSE IF Cardinality(Times(L)) <= 1 THEN "wait"
  ELSE IF t < Min(Times(L)) THEN "past"
  ELSE IF t > Max(Times(L)) THEN "wait" ELSE "ok"
ScanState(recs, ignored, chain, t) ==
  LET s == {LinkState(Link(recs, ignored, chain, i), t) : i \in 1 .. Len(chain) - 1} IN
  IF s = {"ok"} THEN "ok" ELSE IF "past" \in s THEN "past" ELSE "wait"
\* what a replay of the whole drive hands over: the usable scans in order, up to the first one that is still waiting
ScanAt(recs) == SelectSeq([i \in DOMAIN recs |-> i], LAMBDA i : recs[i].k = "s")
RECURSIVE Upto(_, _, _, _, _)
Upto(recs, ignored, chain, ids, k) ==
  IF k > Len(ids) THEN <<>>
  ELSE LET st == ScanState(recs, ignored, chain, recs[ids[k]].t) IN
       IF st = "wait" THEN <<>>
       ELSE (IF st = "ok" THEN <<ids[k]>> ELSE <<>>) \o Upto(recs, ignored, chain, ids, k + 1)
Delivered(recs, ignored, chain) == Upto(recs, ignored, chain, ScanAt(recs), 1)
\* the transform of a link at a time, between the two recorded around it
At(L, t) ==
  IF t \in Times(L) THEN (CHOOSE r \in L : r.t = t).p
  ELSE LET a == CHOOSE r \in L : r.t = Max({u \in Times(L) : u < t})
           b == CHOOSE r \in L : r.t = Min({u \in Times(L) : u > t})
           mid(i) == a.p[i] + ((b.p[i] - a.p[i]) * (t - a.t)) \div (b.t - a.t)
       IN <<mid(1), mid(2), a.p[3]>>
Turn(h, x, y) == CASE h % 4 = 0 -> <<x, y>> [] h % 4 = 1 -> <<-y, x>> [] h % 4 = 2 -> <<-x, -y>> [] h % 4 = 3 -> <<y, -x>>
Then(p, q) == LET r == Turn(p[3], q[1], q[2]) IN <<p[1] + r[1], p[2] + r[2], (p[3] + q[3]) % 4>>
RECURSIVE Chained(_, _, _, _, _)
Chained(recs, ignored, chain, i, t) ==
  IF i >= Len(chain) THEN <<0, 0, 0>>
  ELSE Then(At(Link(recs, ignored, chain, i), t), Chained(recs, ignored, chain, i + 1, t))
Pose(recs, ignored, chain, t) == Chained(recs, ignored, chain, 1, t)
=============================================================================
