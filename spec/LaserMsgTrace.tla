---------------------------- MODULE LaserMsgTrace ----------------------------
(* Messages handed to the observer and the scans it passes on. Directions in 1/20 degree, lengths in
   1/64 m; places of the points (for a robot at (at[1], at[2]) headed at[3]) in 1/10000 m. *)
EXTENDS LaserMsg, Trig, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES prev, e, l, bad
vars == <<prev, e, l, bad>>
Ep == Eps[e]
Abs(x) == IF x < 0 THEN -x ELSE x
TInit == e \in 1 .. Len(Eps) /\ l = 0 /\ bad = "" /\ prev = <<0, 0, 0>>
\* r/64 m in the direction a, along one axis, in 1/10000 m
Part(at, r, cs) == at * 156 + (at \div 4) + (((r * (cs \div 100)) \div 64))
Near(p, at, r, a) == /\ Abs(p[1] - Part(at[1], r, CosU(a))) <= 12 + r \div 64
                     /\ Abs(p[2] - Part(at[2], r, SinU(a))) <= 12 + r \div 64
Verdict(ev) ==
  LET due == Points(ev.rays, Ep.rmin, Ep.rmax, Ep.skip) IN
  IF ev.pts # due THEN "the scan's points are not what the message's readings say"
  ELSE IF ev.q # 1000 THEN "the scan does not have full quality"
  ELSE IF ev.n # 1 THEN "the message was not passed on once"
  ELSE IF \E k \in DOMAIN due : ~Near(ev.w[k], ev.at, due[k][1], ev.lo + due[k][2] * ev.inc + ev.at[3]) THEN "a point does not lie in its direction"
  ELSE IF ev.op = "msg" /\ (ev.d[1] # ev.odo[1] - prev[1] \/ ev.d[2] # ev.odo[2] - prev[2] \/ Wrap(ev.d[3]) # Wrap(ev.odo[3] - prev[3]))
    THEN "the movement is not the change of the odometry pose"
  ELSE IF ev.op = "msg" /\ (ev.now[1] # ev.odo[1] \/ ev.now[2] # ev.odo[2] \/ Wrap(ev.now[3]) # Wrap(ev.odo[3])) THEN "the odometry pose is not the last one"
  ELSE ""
Step(ev) == CASE ev.op = "msg" -> bad' = Verdict(ev) /\ prev' = ev.odo
              [] ev.op = "conv" -> bad' = Verdict(ev) /\ prev' = prev
              [] ev.op = "set" -> bad' = "" /\ prev' = ev.odo
TNext == l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ Step(Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
