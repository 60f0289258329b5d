----------------------------- MODULE BagSyncTrace -----------------------------
(* Recorded drives replayed through BagTopicWithTransform, and scans and transforms that arrive live at a
   TopicWithTransform. A record's frames are names without the leading slash. *)
EXTENDS BagSync, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, held, obs, e, l, bad
vars == <<n, held, obs, e, l, bad>>
Ep == Eps[e]
Ev == Ep.ev
Ignored == {<<Ep.ign[i][1], Ep.ign[i][2]>> : i \in DOMAIN Ep.ign}
D == Delivered(Ep.recs, Ignored, Ep.chain)
TInit == e \in 1 .. Len(Eps) /\ l = 0 /\ bad = "" /\ n = 0 /\ held = <<>> /\ obs = <<>>
Out(ev) ==
  /\ n' = n + 1 /\ UNCHANGED <<held, obs>>
  /\ bad' = IF n + 1 > Len(D) THEN "a scan was handed over that should not be"
            ELSE LET i == D[n + 1] IN
                 IF ev.id # i THEN "another scan is due"
                 ELSE IF ev.t # Ep.recs[i].t THEN "the scan's time changed"
                 ELSE IF ev.p # Pose(Ep.recs, Ignored, Ep.chain, ev.t) THEN "the scan came with another transform"
                 ELSE ""
End == UNCHANGED <<n, held, obs>> /\ bad' = (IF n = Len(D) THEN "" ELSE "a usable scan was not handed over")
(* live: n records have arrived, held are the scans not handed over yet, obs the observers that are alive, in the order
   they subscribed. ev.got lists what the observers got, in order: <<observer, scan, x, y, h>> *)
RECURSIVE Got(_, _)
Got(rs, ids) == IF ids = <<>> THEN <<>>
                ELSE LET p == Pose(rs, Ignored, Ep.chain, Ep.recs[Head(ids)].t) IN
                     [k \in DOMAIN obs |-> <<obs[k], Head(ids), p[1], p[2], p[3]>>] \o Got(rs, Tail(ids))
Arrive(ev) ==
  LET rs == SubSeq(Ep.recs, 1, n + 1)
      q == IF rs[n + 1].k = "s" THEN Append(held, n + 1) ELSE held
      kept == IF Len(q) > Ep.limit THEN Tail(q) ELSE q
      ready(i) == ScanState(rs, Ignored, Ep.chain, rs[i].t) = "ok"
  IN /\ n' = n + 1 /\ obs' = obs
     /\ held' = SelectSeq(kept, LAMBDA i : ~ready(i))
     /\ bad' = IF ev.got = Got(rs, SelectSeq(kept, ready)) THEN "" ELSE "the observers did not get the scans that became usable"
Step(ev) == CASE ev.op = "out" -> Out(ev) [] ev.op = "end" -> End [] ev.op = "arr" -> Arrive(ev)
              [] ev.op = "sub" -> obs' = Append(obs, ev.o) /\ bad' = "" /\ UNCHANGED <<n, held>>
              [] ev.op = "die" -> obs' = SelectSeq(obs, LAMBDA o : o # ev.o) /\ bad' = "" /\ UNCHANGED <<n, held>>
TNext == l < Len(Ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ Step(Ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
