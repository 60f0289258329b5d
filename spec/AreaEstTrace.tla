---------------------------- MODULE AreaEstTrace ----------------------------
(* Recorded estimates: ev.a, ev.b relative to the cell's corner, ev.S its side, occ; the answer
   is ok, p, q in 1/Z. Ep.prm: probabilities and qualities in 1/Z, low in 1/16 of the side. *)
EXTENDS AreaEst, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, l, bad
vars == <<e, l, bad>>
Ep == Eps[e]
Z == 4096
Z64 == 64
TInit == e \in 1 .. Len(Eps) /\ l = 0 /\ bad = ""
Max2(x, y) == IF x > y THEN x ELSE y
\* v (in 1/Z) is c * share (c in 1/64), up to rounding
\* a share with a smaller denominator, close enough
Lean(share) == IF share[2] > 400000 THEN <<share[1] \div 16, share[2] \div 16>> ELSE share
IsTimes(v, c, sh) == LET share == Lean(sh) IN Mag(v * share[2] - Z64 * c * share[1]) <= share[2] + share[2] \div 8
IsShareAtLeast(v, sh, pe) == LET share == Lean(sh) IN
  IF share[1] * 64 <= pe * share[2] THEN v = Z64 * pe
  ELSE Mag(v * share[2] - Z * share[1]) <= share[2] + share[2] \div 8
Small(share) == share[2] > 0
Verdict(ev) ==
  IF Ep.kind = "const" THEN
    IF ev.ok /\ ev.p = Z64 * (IF ev.occ THEN Ep.prm.po ELSE Ep.prm.pe)
             /\ ev.q = Z64 * (IF ev.occ THEN Ep.prm.qo ELSE Ep.prm.qe) THEN "" ELSE "not the configured constant"
  ELSE
  LET x == Estimate(ev.a, ev.b, Ep.S, ev.occ, Ep.prm.low) IN
  IF x.ok # ev.ok THEN (IF ev.ok THEN "an estimate of a cell the beam says nothing of" ELSE "no estimate of a cell the beam meets")
  ELSE IF ~x.ok THEN ""
  ELSE IF x.occ THEN
    IF ~IsShareAtLeast(ev.p, x.share, Ep.prm.pe) THEN "the probability is not the share beyond the obstacle"
    ELSE IF ev.q # Z64 * Ep.prm.qo THEN "wrong quality of an occupied cell" ELSE ""
  ELSE IF ev.p # Z64 * Ep.prm.pe THEN "wrong probability of a free cell"
  ELSE IF x.q = "unk" THEN (IF ev.q = Z64 * Ep.prm.unk THEN "" ELSE "the quality is not the unknown one")
  ELSE IF IsTimes(ev.q, Ep.prm.qe, x.share) THEN "" ELSE "the quality is not the crossing's"
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ bad' = Verdict(Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
