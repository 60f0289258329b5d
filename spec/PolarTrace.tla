------------------------------ MODULE PolarTrace ------------------------------
(* The polar brute force: every direction and distance once around the guess.  *)
(* Several of them may denote one point (at distance zero), so the poses due   *)
(* are counted.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES left, g, e, l, bad
vars == <<left, g, e, l, bad>>
Ep == Eps[e]
Abs(x) == IF x < 0 THEN -x ELSE x
TInit == e \in 1 .. Len(Eps) /\ l = 0 /\ bad = "" /\ left = {} /\ g = <<0, 0, 0>>
Fits(p, i) == \A k \in 1 .. 3 : Abs(g[k] + Ep.offs[i][k] - p[k]) <= 3
Step(ev) ==
   CASE ev.op = "match" -> left' = DOMAIN Ep.offs /\ g' = ev.p /\ bad' = ""
     [] ev.op = "test" -> /\ UNCHANGED g
                          /\ LET s == {i \in left : Fits(ev.p, i)} IN
                             IF s = {} THEN bad' = "proposal is off the grid or repeated" /\ UNCHANGED left
                             ELSE bad' = "" /\ left' = left \ {CHOOSE i \in s : TRUE}
     [] ev.op = "ret" -> UNCHANGED <<left, g>> /\ bad' = IF left # {} THEN "a pose of the grid was not proposed" ELSE ""
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ Step(Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
