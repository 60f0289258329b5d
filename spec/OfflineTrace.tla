----------------------------- MODULE OfflineTrace -----------------------------
(* Runs of the offline matching tool on saved poses, maps and scans.           *)
EXTENDS Offline, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, l, bad
vars == <<e, l, bad>>
Ep == Eps[e]
C == 8
TInit == e \in 1 .. Len(Eps) /\ l = 0 /\ bad = ""
Set(q) == {q[i] : i \in DOMAIN q}
Abs(x) == IF x < 0 THEN -x ELSE x
Run(ev) ==
  LET use == Used(ev.pts, [skip |-> ev.skip, reach |-> ev.reach], ev.pose, ev.ext, C)
      occ == Set(ev.occ) free == Set(ev.free)
      s(d) == Sum(use, 1, Plus(ev.pose, d), occ, free, C)
      n == 2 * Len(use)
      says(v) == 2 * Abs(ev.score * n - 100000 * v) <= 3 * n
  IN IF ev.rc # 0 \/ ev.lines # 1 THEN "no answer, or more than one"
     ELSE IF ev.sm = "idle" THEN IF ev.d # Zero THEN "a correction from a matcher that does nothing" ELSE ""
     ELSE IF use = <<>> THEN IF ~ev.unk THEN "a scan without usable points has a score" ELSE IF ev.d # Zero THEN "a correction out of nothing" ELSE ""
     ELSE IF ev.unk THEN "the score is unknown"
     ELSE CASE ev.sm = "BF" -> IF ~(ev.d \in Answers(use, ev.pose, Window(ev.bf), occ, free, C) \/ (~(Len(use) \in {1, 2, 4, 8}) /\ ev.d \in Window(ev.bf) /\ s(ev.d) = Top(use, ev.pose, Window(ev.bf), occ, free, C))) THEN "not the best correction" ELSE IF ~says(s(ev.d)) THEN "not the correction's score" ELSE ""
            [] OTHER -> IF 2 * (100000 * s(Zero) - ev.score * n) > 3 * n THEN "worse than the guess" ELSE ""
\* (sums of equal scores may differ by a rounding, unless the shares are powers of two)
Step(ev) == CASE ev.op = "run" -> Run(ev)
              [] ev.op = "fail" -> IF ev.rc = 0 \/ ev.lines # 0 THEN "an answer without its inputs" ELSE ""
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ bad' = Step(Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
