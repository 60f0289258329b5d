-------------------------- MODULE ParticleWorldTrace --------------------------
(* Every step the particle worlds of the code took is one of Particles'.       *)
EXTENDS Particles, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, l
vars == <<pvars, e, l>>
Ep == Eps[e]
TInit == e \in 1 .. Len(Eps) /\ l = 0 /\ Start
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ Step(Ep, Ep.ev[l + 1]) /\ Draw(Ep, Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
===============================================================================
