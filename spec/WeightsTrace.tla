----------------------------- MODULE WeightsTrace -----------------------------
(* Every step the particle filter of the code took is one of Weights'.         *)
EXTENDS Weights, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, l
vars == <<raw, bad, e, l>>
Ep == Eps[e]
TInit == e \in 1 .. Len(Eps) /\ l = 0 /\ bad = "" /\ raw = <<>>
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ Step(Ep, Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
===============================================================================
