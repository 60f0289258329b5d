---------------------------- MODULE LaserGenTrace ----------------------------
(* Recorded synthesized scans against LaserGen. *)
EXTENDS LaserGen, Json, IOUtils, TLC
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, l, bad
vars == <<e, l, bad>>
Ep == Eps[e]
U == 32
TInit == e \in 1 .. Len(Eps) /\ l = 0 /\ bad = ""
\* cells written so far with what they hold now
Values(i) ==
  LET ws == {j \in 1 .. i : Ep.ev[j].op = "cell"} IN
  {j \in ws : ~\E k \in ws : k > j /\ Ep.ev[k].c = Ep.ev[j].c}
Scan(ev, i) ==
  LET occ == {Ep.ev[j].c : j \in {j \in Values(i) : Ep.ev[j].v >= ev.thr}}
      ks == {ev.pts[j].k : j \in DOMAIN ev.pts}
      U0(k) == ev.th - ev.hs + k * ev.inc
      wrong == {j \in DOMAIN ev.pts : Seen(ev.at, Dir(U0(ev.pts[j].k)), occ, U, ev.max, ev.pts[j].r) # ""}
      missed == {k \in Beams(ev.hs, ev.inc) \ ks : ~Optional(ev.hs, ev.inc, k) /\ Blind(ev.at, Dir(U0(k)), occ, U, ev.max) # ""} IN
  IF ~ev.pure THEN "generating a scan changed the map or the pose"
  ELSE IF \E j \in DOMAIN ev.pts : ev.pts[j].k \notin Beams(ev.hs, ev.inc) THEN "a point on no beam of the scanner"
  ELSE IF \E j \in 1 .. Len(ev.pts) - 1 : ev.pts[j].k >= ev.pts[j + 1].k THEN "the points are not ordered by angle"
  ELSE IF \E j \in DOMAIN ev.pts : ~ev.pts[j].occ THEN "a seen obstacle is not marked as a hit"
  ELSE IF wrong # {} THEN LET j == CHOOSE j \in wrong : TRUE IN Seen(ev.at, Dir(U0(ev.pts[j].k)), occ, U, ev.max, ev.pts[j].r)
  ELSE IF missed # {} THEN Blind(ev.at, Dir(U0(CHOOSE k \in missed : TRUE)), occ, U, ev.max)
  ELSE ""
Verdict(ev, i) == CASE ev.op = "cell" -> "" [] ev.op = "scan" -> Scan(ev, i)
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ bad' = Verdict(Ep.ev[l + 1], l + 1)
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
