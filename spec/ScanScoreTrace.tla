---------------------------- MODULE ScanScoreTrace ----------------------------
(* Recorded filterings and scorings of scans against ScanScore. *)
EXTENDS ScanScore, Json, IOUtils, TLC
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, l, bad
vars == <<e, l, bad>>
Ep == Eps[e]
U == Ep.U
TInit == e \in 1 .. Len(Eps) /\ l = 0 /\ bad = ""
\* the point rule of the harness
PointProb(w) == LET c == CellOf(w, U) IN ((5 * c[1] + 3 * c[2]) % 16) * 4
Filter(ev) ==
  IF ev.kept # Kept(ev.pts, ev.pose, ev.h, ev.skip, ev.max2, ev.ext, U) THEN "other points than the usable ones were kept"
  ELSE IF ~ev.pure THEN "filtering changed the scan, the pose or the map" ELSE ""
Weights(ev) ==
   CASE ev.w = "even" -> Even(ev.pts)
     [] ev.w = "ahr" -> Reciprocal(ev.pts)
     [] ev.w = "viny" -> Viny(ev.pts, Ep.D)
Place(ev, p) == IF ev.pre THEN Moved(p, ev.pose) ELSE World(p, ev.pose, ev.h)
\* what the point rule is asked: the obstacle and the area moved to it (twice, to stay whole)
Asked(ev, p) == LET w == Place(ev, p) IN
  <<w[1], w[2], 2 * w[1] - ev.area[1], 2 * w[1] + ev.area[1], 2 * w[2] - ev.area[2], 2 * w[2] + ev.area[2]>>
Count(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
ScoreOf(ev) ==
  LET want == [i \in DOMAIN ev.pts |-> Asked(ev, ev.pts[i])]
      f == Score(ev.pts, Weights(ev), [i \in DOMAIN ev.pts |-> PointProb(Place(ev, ev.pts[i]))]) IN
  IF \E i \in DOMAIN ev.asked : Count(want, ev.asked[i]) # Count(ev.asked, ev.asked[i]) THEN "a point is looked up at another place"
  ELSE IF Len(ev.asked) # Len(want) THEN "not every point is looked up once"
  ELSE IF ~ev.aoo THEN "the observation looked up is not an obstacle"
  ELSE IF ~ev.pure THEN "scoring changed the scan, the pose or the map"
  ELSE IF f[2] = 0 THEN (IF ev.unknown /\ ev.isunk THEN "" ELSE "a scan without weight has a score")
  ELSE IF ev.unknown \/ ev.isunk THEN "the score of a usable scan is unknown"
  ELSE IF 2 * Abs(ev.res * f[2] - 16 * f[1]) > f[2] + 2 THEN "the score is not the weighted mean" ELSE ""
Verdict(ev) == CASE ev.op = "filter" -> Filter(ev) [] ev.op = "score" -> ScoreOf(ev)
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ bad' = Verdict(Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
