------------------------------- MODULE Publish --------------------------------
(* What the system tells the outside world: coordinate transforms for poses, the correction between the map and
   the odometry frame, occupancy grids, trajectories. A place is <<x, y, h>> with h in quarter turns. *)
EXTENDS Integers, Sequences
Turn(h, x, y) == CASE h % 4 = 0 -> <<x, y>> [] h % 4 = 1 -> <<-y, x>> [] h % 4 = 2 -> <<-x, -y>> [] h % 4 = 3 -> <<y, -x>>
Then(p, q) == LET r == Turn(p[3], q[1], q[2]) IN <<p[1] + r[1], p[2] + r[2], (p[3] + q[3]) % 4>>
Back(p) == LET r == Turn(4 - p[3], p[1], p[2]) IN <<-r[1], -r[2], (4 - p[3]) % 4>>
\* the place of the odometry frame on the map that puts the robot, seen at odo by odometry, to its pose
Correction(pose, odo) == Then(pose, Back(odo))
\* an update at a time is published if the last published one is at least an interval ago
Due(now, last, interval) == now - last >= interval
\* occupancy (in 1/64, -64: unknown) as it is published
Levels(v) == IF v = -64 THEN {-1} ELSE LET f == (100 * v) \div 64 IN IF (100 * v) % 64 = 0 THEN {f} ELSE {f, f + 1}
\* the i-th value of a published grid (from 0) is that of the cell
GridCellOf(ext, i) == <<ext[1] + (i % ext[3]), ext[2] + i \div ext[3]>>
=============================================================================
