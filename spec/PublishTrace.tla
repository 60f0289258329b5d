----------------------------- MODULE PublishTrace -----------------------------
(* Observers of a world and of a scan topic, and what they publish. Lengths 1/64 m, headings 1/20 degree
   (in events of the kind "robot pose") or quarter turns, times in ms. *)
EXTENDS Publish, Trig, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES odo, seen, last, alive, corrs, e, l, bad
vars == <<odo, seen, last, alive, corrs, e, l, bad>>
Ep == Eps[e]
Abs(x) == IF x < 0 THEN -x ELSE x
TInit == e \in 1 .. Len(Eps) /\ l = 0 /\ bad = "" /\ odo = <<0, 0, 0>> /\ seen = -1 /\ last = 0 /\ alive = <<>> /\ corrs = {<<0, 0, 0>>}
Same == UNCHANGED <<odo, seen, last, alive, corrs>>
(* tf publishers in the order they subscribed; each event reports what was sent as [f, t (frames), p, s (stamp)] *)
Sent(kind, ev) ==
  CASE kind = "corr" -> LET c == Correction(<<ev.p[1], ev.p[2], ev.p[3] \div 1800>>, odo) IN
                        [f |-> Ep.map, t |-> Ep.odom, p |-> <<c[1], c[2], c[3] * 1800>>, s |-> ev.now]
    [] kind = "rp" -> [f |-> Ep.map, t |-> Ep.robot, p |-> <<ev.p[1], ev.p[2], Wrap(ev.p[3])>>, s |-> ev.now]
    [] kind = "srp" -> [f |-> Ep.map, t |-> Ep.robot, p |-> <<ev.p[1], ev.p[2], Wrap(ev.p[3])>>, s |-> seen]
PoseUpdate(ev) ==
  /\ Same
  /\ bad' = IF ev.sent = [i \in DOMAIN alive |-> Sent(alive[i], ev)] THEN "" ELSE "the published transforms are not those of the pose"
Scan(ev) ==
  /\ odo' = ev.p /\ seen' = ev.t /\ UNCHANGED <<last, alive, corrs>> /\ bad' = IF ev.sent = <<>> THEN "" ELSE "a transform was published without a pose"
(* occupancy grids *)
MapUpdate(ev) ==
  LET due == Due(ev.now, last, Ep.interval) IN
  /\ last' = (IF due THEN ev.now ELSE last) /\ UNCHANGED <<odo, seen, alive, corrs>>
  /\ bad' = IF ~due THEN (IF ev.msgs = <<>> THEN "" ELSE "a map was published too early")
            ELSE IF Len(ev.msgs) # 1 THEN "a map was not published once"
            ELSE LET m == ev.msgs[1]
                     at == {<<ev.known[k][1], ev.known[k][2]>> : k \in DOMAIN ev.known}
                     val == [c \in at |-> ev.known[CHOOSE k \in DOMAIN ev.known : ev.known[k][1] = c[1] /\ ev.known[k][2] = c[2]][3]] IN
                 IF m.f # Ep.map \/ m.s # ev.now THEN "the map's frame or time is wrong"
                 ELSE IF m.w # ev.ext[3] \/ m.h # ev.ext[4] \/ Len(m.data) # m.w * m.h THEN "the map's size is wrong"
                 ELSE IF m.res # ev.res \/ m.at # <<ev.ext[1] * ev.res, ev.ext[2] * ev.res>> THEN "the map's resolution or place is wrong"
                 ELSE IF \E i \in DOMAIN m.data : m.data[i] \notin Levels(LET c == GridCellOf(ev.ext, i - 1) IN IF c \in DOMAIN val THEN val[c] ELSE Ep.dflt)
                      THEN "a cell is published with another occupancy"
                 ELSE ""
(* trajectories: ev.lines are the lines of the file, ev.poses what was logged: <<sec, nsec, x, y, heading>> *)
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
LineOk(ln, p) ==
  /\ ln.sec = p[1]
  /\ ln.digits \in 1 .. 9 /\ ln.frac * Pow10(9 - ln.digits) = p[2]
  /\ Abs(ln.v[1] - (p[3] * 10000) \div 64) <= 1 /\ Abs(ln.v[2] - (p[4] * 10000) \div 64) <= 1
  /\ ln.v[3] = 0 /\ ln.v[4] = 0 /\ ln.v[5] = 0
  \* the quaternion and its opposite are the same turn
  /\ LET s == SinU(p[5] \div 2) \div 100  c == CosU(p[5] \div 2) \div 100 IN
     \/ Abs(ln.v[6] - s) <= 2 /\ Abs(ln.v[7] - c) <= 2
     \/ Abs(ln.v[6] + s) <= 2 /\ Abs(ln.v[7] + c) <= 2
Traj(ev) == Same /\ bad' = (IF Len(ev.lines) # Len(ev.poses) THEN "the trajectory does not have one line per pose"
                            ELSE IF \A i \in DOMAIN ev.lines : LineOk(ev.lines[i], ev.poses[i]) THEN "" ELSE "a line does not tell the pose and its time")
(* transforms that are to be ignored: entries from-to *)
Ignored(ev) ==
  LET due == {<<"/" \o ev.entries[i][1], "/" \o ev.entries[i][2]>> : i \in {j \in DOMAIN ev.entries : Len(ev.entries[j]) = 2}}
  IN Same /\ bad' = IF {<<ev.got[i][1], ev.got[i][2]>> : i \in DOMAIN ev.got} = due THEN "" ELSE "other transforms are ignored than listed"
(* a correction that is published all the time from another thread: what was sent is one of the corrections so far, in the end the last one; nothing once it is gone *)
Async(ev) ==
  LET c == IF ev.upd THEN Correction(ev.p, odo) ELSE <<0, 0, 0>>
      cs == IF ev.upd THEN corrs \cup {c} ELSE corrs
  IN /\ corrs' = cs /\ odo' = (IF ev.upd THEN odo ELSE ev.p) /\ UNCHANGED <<seen, last, alive>>
     /\ bad' = IF \E i \in DOMAIN ev.sent : <<ev.sent[i][1], ev.sent[i][2], ev.sent[i][3]>> \notin cs THEN "a correction that never was is published"
               ELSE IF ev.upd /\ (ev.sent = <<>> \/ ev.sent[Len(ev.sent)] # c) THEN "the latest correction is not published"
               ELSE IF ev.more < 2 THEN "the correction is not published regularly" ELSE ""
Gone(ev) == Same /\ bad' = (IF ev.n = 0 THEN "" ELSE "a correction is published by a publisher that is gone")
Step(ev) == CASE ev.op = "pose" -> PoseUpdate(ev) [] ev.op = "scan" -> Scan(ev) [] ev.op = "map" -> MapUpdate(ev)
              [] ev.op = "sub" -> alive' = Append(alive, ev.kind) /\ bad' = "" /\ UNCHANGED <<odo, seen, last, corrs>>
              [] ev.op = "die" -> alive' = SubSeq(alive, 1, ev.i - 1) \o SubSeq(alive, ev.i + 1, Len(alive)) /\ bad' = "" /\ UNCHANGED <<odo, seen, last, corrs>>
              [] ev.op = "traj" -> Traj(ev) [] ev.op = "ignore" -> Ignored(ev) [] ev.op = "async" -> Async(ev) [] ev.op = "gone" -> Gone(ev)
TNext == l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ Step(Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
