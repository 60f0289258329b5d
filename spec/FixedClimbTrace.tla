---------------------------- MODULE FixedClimbTrace ----------------------------
(* The climber with fixed steps (1 cm along x and y, half a degree): wherever  *)
(* it ends, the score is that of the pose returned, no lower than the guess's, *)
(* and no single step forward or back along an axis has a higher one. The pose *)
(* is whole steps away from the guess, and has not moved if the guess itself   *)
(* is such a place.                                                            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
INEXACT == 2000000003
VARIABLES e, l, bad
vars == <<e, l, bad>>
Ep == Eps[e]
TInit == e \in 1 .. Len(Eps) /\ l = 0 /\ bad = ""
Judge(ev) ==
   IF ev.again # ev.s THEN "the score is not that of the returned pose"
   ELSE IF ev.s < ev.f THEN "worse than the guess"
   ELSE IF \E i \in 1 .. 6 : ev.nb[i] > ev.s THEN "one more step scores higher"
   ELSE IF \E i \in 1 .. 3 : ev.st[i] = INEXACT THEN "not a whole number of steps away"
   ELSE IF ev.s = ev.f /\ \E i \in 1 .. 3 : ev.st[i] # 0 THEN "moved without a gain" ELSE ""
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ bad' = Judge(Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
