------------------------------ MODULE DriveTrace ------------------------------
(* Drives replayed by the bag runner (its trajectory and map file) and by the nodes. *)
EXTENDS Drive, Trig, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, held, map, last, e, l, bad
vars == <<n, held, map, last, e, l, bad>>
Ep == Eps[e]
Ignored == {<<Ep.ign[i][1], Ep.ign[i][2]>> : i \in DOMAIN Ep.ign}
D == Delivered(Ep.recs, Ignored, Ep.chain)
TInit == e \in 1 .. Len(Eps) /\ l = 0 /\ bad = "" /\ n = 0 /\ held = <<>> /\ map = Nothing /\ last = -1
PoseOf(rs, i) == Pose(rs, Ignored, Ep.chain, rs[i].t)
Insert(m, rs, i) ==
  LET p == PoseOf(rs, i) IN
  AddAll(m, p, Beams(rs[i].rays, 1, p[3] + rs[i].q0, Ep.rmin, Ep.rmax, Ep.skip), Ep.S, Ep.far, Ep.pf, Ep.po, Ep.q)
Shade(c) == (255 * (64 * c[1] - c[2])) \div (64 * c[1])
\* a line of the trajectory
Line(ev) ==
  /\ n' = n + 1 /\ UNCHANGED <<held, last>>
  /\ IF n + 1 > Len(D) THEN map' = map /\ bad' = "the trajectory has a pose of a scan that cannot be used"
     ELSE /\ map' = Insert(map, Ep.recs, D[n + 1])
          /\ bad' = IF ev.t # Ep.recs[D[n + 1]].t THEN "a pose is not stamped as its scan is"
                    ELSE IF ev.p # PoseOf(Ep.recs, D[n + 1]) THEN "a pose is not the one odometry tells" ELSE ""
\* the picture: width, height and the pixels that are not those of unknown cells, counted from the top left corner
CellOfPixel(ev, i) == <<(i % ev.w) - ev.w \div 2, ev.h - 1 - i \div ev.w - ev.h \div 2>>
PictureFault(ev) ==
  LET px == {<<CellOfPixel(ev, ev.px[k][1]), ev.px[k][2]>> : k \in DOMAIN ev.px}
      at == {p[1] : p \in px}
      shade(c) == IF c \in at THEN (CHOOSE p \in px : p[1] = c)[2] ELSE 127 IN
  IF ev.w # Ep.w \/ ev.h # Ep.h THEN "the map's size is not the configured one"
  ELSE IF \E c \in at : c \notin DOMAIN map THEN "a cell no beam crossed is not unknown"
  ELSE IF \E c \in DOMAIN map : shade(c) \notin {Shade(map[c]) - 1, Shade(map[c]), Shade(map[c]) + 1} THEN "a cell does not show what the beams say"
  ELSE ""
End(ev) == /\ UNCHANGED <<n, held, map, last>>
           /\ bad' = IF ev.others # <<>> THEN "a file is written that was not asked for"
                     ELSE IF ev.traj /\ n # Len(D) THEN "a pose is missing in the trajectory"
                     ELSE IF ~ev.pic THEN ""
                     ELSE PictureFault(ev)
\* without a trajectory the scans used are not told one by one
RECURSIVE All(_, _)
All(m, ids) == IF ids = <<>> THEN m ELSE All(Insert(m, Ep.recs, Head(ids)), Tail(ids))
Quiet == map' = All(Nothing, D) /\ UNCHANGED <<n, held, last>> /\ bad' = ""
(* a node: every record that arrives may make scans usable; for each the correction and the pose are published, in this order, and the
   map if it is due. ev.sent: <<kind, x, y, h>>, ev.maps: [w, h, at, px] with px: <<i, value>> of the cells that are not unknown, from the bottom left *)
Ready(rs, q) == SelectSeq(q, LAMBDA i : ScanState(rs, {}, Ep.chain, rs[i].t) = "ok")
RECURSIVE InsertAll(_, _, _)
InsertAll(m, rs, ids) == IF ids = <<>> THEN m ELSE InsertAll(Insert(m, rs, Head(ids)), rs, Tail(ids))
Value(c) == (100 * c[2]) \div (64 * c[1])
GridFault(m, g) ==
  LET cell(i) == <<(i % g.w) - Ep.w \div 2, i \div g.w - Ep.h \div 2>>
      px == {<<cell(g.px[k][1]), g.px[k][2]>> : k \in DOMAIN g.px}
      at == {p[1] : p \in px}
      val(c) == IF c \in at THEN (CHOOSE p \in px : p[1] = c)[2] ELSE 50 IN
  IF g.w # Ep.w \/ g.h # Ep.h \/ g.n # g.w * g.h THEN "the published map's size is wrong"
  ELSE IF g.at # <<-(Ep.w \div 2) * Ep.S, -(Ep.h \div 2) * Ep.S>> \/ g.res # Ep.S THEN "the published map lies elsewhere"
  ELSE IF \E c \in at : c \notin DOMAIN m THEN "a cell no beam crossed is published as known"
  ELSE IF \E c \in DOMAIN m : val(c) \notin {Value(m[c]) - 1, Value(m[c]), Value(m[c]) + 1} THEN "a cell is not published as the beams say"
  ELSE ""
Arrive(ev) ==
  LET rs == SubSeq(Ep.recs, 1, n + 1)
      q == IF rs[n + 1].k = "s" THEN Append(held, n + 1) ELSE held
      now == Ready(rs, q)
      \* the clock does not move while scans are handled: only the first may publish the map
      due == now # <<>> /\ (last = -1 \/ ev.now - last >= Ep.interval)
      shown == IF Ep.interval = 0 THEN Len(now) ELSE IF due THEN 1 ELSE 0
      poses == [k \in DOMAIN now |-> PoseOf(rs, now[k])] IN
  /\ n' = n + 1 /\ held' = SelectSeq(q, LAMBDA i : ~(\E k \in DOMAIN now : now[k] = i))
  /\ map' = InsertAll(map, rs, now) /\ last' = (IF shown > 0 THEN ev.now ELSE last)
  /\ bad' = IF Len(ev.sent) # 2 * Len(now) THEN "not one correction and one pose per usable scan is published"
            ELSE IF \E k \in DOMAIN now : ev.sent[2 * k - 1] # <<"corr", 0, 0, 0>> THEN "the correction is not the one between pose and odometry"
            ELSE IF \E k \in DOMAIN now : ev.sent[2 * k] # <<"rp", poses[k][1], poses[k][2], poses[k][3]>> THEN "the published pose is not the one odometry tells"
            ELSE IF Len(ev.maps) # shown THEN "the map is published too often or too seldom"
            ELSE IF shown = 0 THEN ""
            ELSE LET faults == {GridFault(InsertAll(map, rs, SubSeq(now, 1, k)), ev.maps[k]) : k \in 1 .. shown} \ {""} IN
                 IF faults = {} THEN "" ELSE CHOOSE f \in faults : TRUE
(* a node that corrects the pose: the published correction takes odometry to the published pose *)
Close(a, b) == LET d == a - b IN d <= 40 /\ d >= -40
CloseTurn(a, b) == LET d == (a - b) % 7200 IN d <= 2 \/ d >= 7198
Fits(c, o, p) ==
  LET h == c[3] IN
  /\ Close(p[1], c[1] + (o[1] * (CosU(h) \div 100) - o[2] * (SinU(h) \div 100)) \div 64)
  /\ Close(p[2], c[2] + (o[1] * (SinU(h) \div 100) + o[2] * (CosU(h) \div 100)) \div 64)
  /\ CloseTurn(p[3], h + o[3] * 1800)
Fit(ev) ==
  LET rs == SubSeq(Ep.recs, 1, n + 1)
      q == IF rs[n + 1].k = "s" THEN Append(held, n + 1) ELSE held
      now == Ready(rs, q) IN
  /\ n' = n + 1 /\ held' = SelectSeq(q, LAMBDA i : ~(\E k \in DOMAIN now : now[k] = i)) /\ UNCHANGED <<map, last>>
  /\ bad' = IF Len(ev.sent) # 2 * Len(now) \/ ev.maps # Len(now) THEN "not one correction, one pose and one map per usable scan is published"
            ELSE IF \E k \in DOMAIN now : ev.sent[2 * k - 1].k # "corr" \/ ev.sent[2 * k].k # "rp" THEN "correction and pose are not published in turn"
            ELSE IF \E k \in DOMAIN now : ~Fits(ev.sent[2 * k - 1].p, PoseOf(rs, now[k]), ev.sent[2 * k].p) THEN "the correction does not take odometry to the pose"
            ELSE IF \E k \in DOMAIN now : ~ev.sent[2 * k - 1].now THEN "the correction is not stamped now"
            ELSE IF Ep.node = 0 /\ (\E k \in DOMAIN now : ev.sent[2 * k].now \/ ev.sent[2 * k].t # rs[now[k]].t) THEN "the pose is not stamped as the scan is"
            ELSE IF Ep.node # 0 /\ (\E k \in DOMAIN now : ~ev.sent[2 * k].now) THEN "the pose is not stamped now"
            ELSE ""
Step(ev) == CASE ev.op = "line" -> Line(ev) [] ev.op = "end" -> End(ev) [] ev.op = "quiet" -> Quiet
    [] ev.op = "odd" -> UNCHANGED <<n, held, map, last>> /\ bad' = IF ev.rc # 11 \/ ev.wrote THEN "the runner does not just tell its usage when called with a word too many or too few" ELSE ""
    [] ev.op = "arr" -> Arrive(ev) [] ev.op = "fit" -> Fit(ev)
TNext == l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ Step(Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
