--------------------------- MODULE BruteForceTrace ---------------------------
EXTENDS BruteForce, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES due, extra, started, best, g, e, l, bad
vars == <<due, extra, started, best, g, e, l, bad>>
Ep == Eps[e]
TInit == /\ e \in 1 .. Len(Eps) /\ l = 0 /\ bad = "" /\ due = {} /\ extra = {} /\ started = FALSE
         /\ best = 0 /\ g = <<0, 0, 0>>
Step(ev) ==
   CASE ev.op = "match" -> /\ due' = Due(Ep, ev.p) /\ extra' = Past(Ep, ev.p) /\ started' = FALSE /\ best' = 0 /\ g' = ev.p
                           /\ bad' = ""
     [] ev.op = "test" ->
          IF ~started THEN /\ started' = TRUE /\ best' = ev.s /\ UNCHANGED <<due, extra, g>>
                           /\ bad' = IF ev.p = g THEN "" ELSE "the guess is not tested first"
          ELSE /\ due' = due \ {ev.p} /\ extra' = extra \ {ev.p} /\ UNCHANGED <<started, g>>
               /\ best' = IF ev.s > best THEN ev.s ELSE best
               /\ bad' = IF "off" \in DOMAIN ev THEN "proposal off the grid"
                         ELSE IF ev.p \in extra THEN "" ELSE "proposal is off the grid or repeated"
     [] ev.op = "ret" -> /\ UNCHANGED <<due, extra, started, best, g>>
                         /\ bad' = IF due # {} THEN "a pose of the grid was not proposed" ELSE ""
     [] ev.op = "cut" -> UNCHANGED <<due, extra, started, best, g>> /\ bad' = ""
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ Step(Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
