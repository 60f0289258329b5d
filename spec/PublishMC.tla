------------------------------ MODULE PublishMC -------------------------------
(* A robot whose odometry and pose change; a correction is published with every pose, a map at most once an interval. *)
EXTENDS Publish, FiniteSets, TLC
CONSTANTS R, Interval, TMax
Places == {<<x, y, h>> : x \in -R .. R, y \in -R .. R, h \in 0 .. 3}
VARIABLES odo, pose, corr, fresh, now, last, pubs
vars == <<odo, pose, corr, fresh, now, last, pubs>>
Init == odo = <<0, 0, 0>> /\ pose = <<0, 0, 0>> /\ corr = <<0, 0, 0>> /\ fresh = TRUE /\ now = Interval /\ last = 0 /\ pubs = <<>>
Scan == \E p \in Places : odo' = p /\ fresh' = FALSE /\ UNCHANGED <<pose, corr, now, last, pubs>>
Locate == \E p \in Places : pose' = p /\ corr' = Correction(p, odo) /\ fresh' = TRUE /\ UNCHANGED <<odo, now, last, pubs>>
Tick == now < TMax /\ now' = now + 1 /\ UNCHANGED <<odo, pose, corr, fresh, last, pubs>>
Map == /\ IF Due(now, last, Interval) THEN last' = now /\ pubs' = Append(pubs, now) ELSE UNCHANGED <<last, pubs>>
       /\ UNCHANGED <<odo, pose, corr, fresh, now>>
NextPoses == Scan \/ Locate
NextMaps == Tick \/ Map
SpecPoses == Init /\ [][NextPoses]_vars
SpecMaps == Init /\ [][NextMaps]_vars
\* through the correction the robot is seen at its pose
Corrected == fresh => Then(corr, odo) = pose
Undone == Then(Back(odo), odo) = <<0, 0, 0>> /\ Then(odo, Back(odo)) = <<0, 0, 0>>
Spaced == \A i, j \in DOMAIN pubs : i < j => pubs[j] - pubs[i] >= Interval
Ordered == \A e \in {<<x, y, w, h>> : x \in -R .. R, y \in -R .. R, w \in 1 .. 3, h \in 1 .. 3} :
             LET c == [i \in 0 .. e[3] * e[4] - 1 |-> GridCellOf(e, i)] IN
             /\ {c[i] : i \in DOMAIN c} = (e[1] .. e[1] + e[3] - 1) \X (e[2] .. e[2] + e[4] - 1)
             /\ c[0] = <<e[1], e[2]>>
=============================================================================
