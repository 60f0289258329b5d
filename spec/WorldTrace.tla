------------------------------ MODULE WorldTrace ------------------------------
(* Every step a single-hypothesis world of the code took is one of World's.    *)
(* Poses in 1/1024.                                                            *)
EXTENDS World, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, l
vars == <<wvars, e, l>>
Ep == Eps[e]
TInit == e \in 1 .. Len(Eps) /\ l = 0 /\ Fresh
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ Step(Ep, Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
