----------------------------- MODULE LaserMsgMC -----------------------------
(* Every message of up to N readings: what the scan made of it may and must contain. *)
EXTENDS LaserMsg, FiniteSets, TLC
CONSTANT N
Values == {Nan, -Inf, Inf, 0, 1, 2, 3, 6, 7}   \* the scanner reaches from 2 to 6
VARIABLES rays, skip, pts
vars == <<rays, skip, pts>>
Init == rays \in UNION {[1 .. n -> Values] : n \in 0 .. N} /\ skip \in BOOLEAN /\ pts = Points(rays, 2, 6, skip)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Valid == \A k \in DOMAIN pts : pts[k][1] \in 2 .. 6 /\ pts[k][2] \in 0 .. Len(rays) - 1
InOrder == \A j, k \in DOMAIN pts : j < k => pts[j][2] < pts[k][2]
\* an obstacle is where a reading inside the limits says, and nowhere else
Obstacles == \A i \in DOMAIN rays :
   (rays[i] \in {2, 3}) <=> (\E k \in DOMAIN pts : pts[k] = <<rays[i], i - 1, 1>>)
OnlyObstacles == \A k \in DOMAIN pts : pts[k][3] = 1 => pts[k][1] = rays[pts[k][2] + 1]
\* the way up to the limit is free when nothing was met, unless such readings are skipped
Free == \A i \in DOMAIN rays :
   (rays[i] \in {6, 7, Inf} /\ ~skip) <=> (\E k \in DOMAIN pts : pts[k] = <<6, i - 1, 0>>)
\* skipping takes away points, it never adds or alters one
Skipping == skip => pts = SelectSeq(Points(rays, 2, 6, FALSE), LAMBDA p : p[3] = 1)
=============================================================================
