---------------------------- MODULE HillClimbTrace ----------------------------
(* Hill climbing. A round probes one step forward and one back along x, y and  *)
(* rotation from the best pose known at its start, in any order; a round       *)
(* without success halves the steps and counts as failed; after `max` failed   *)
(* rounds the search is over (one left-over probe of a further round may       *)
(* follow). Poses are in 1/65536; with frame alignment the axes are turned     *)
(* and positions are compared up to rounding.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES started, fr, base, best, bs, tr, rt, todo, ok, failed, over, e, l, bad
vars == <<started, fr, base, best, bs, tr, rt, todo, ok, failed, over, e, l, bad>>
Ep == Eps[e]
Abs(x) == IF x < 0 THEN -x ELSE x
All == {<<"x", 1>>, <<"x", -1>>, <<"y", 1>>, <<"y", -1>>, <<"t", 1>>, <<"t", -1>>}
Probe(a) ==
   LET d == a[2] IN
   CASE a[1] = "x" -> IF ~Ep.al THEN <<base[1] + d * tr, base[2], base[3]>>
                      ELSE <<base[1] + d * ((tr * (fr[1] \div 2)) \div 4096), base[2] + d * ((tr * (fr[2] \div 2)) \div 4096), base[3]>>
     [] a[1] = "y" -> IF ~Ep.al THEN <<base[1], base[2] + d * tr, base[3]>>
                      ELSE <<base[1] - d * ((tr * (fr[2] \div 2)) \div 4096), base[2] + d * ((tr * (fr[1] \div 2)) \div 4096), base[3]>>
     [] a[1] = "t" -> <<base[1], base[2], base[3] + d * rt>>
Tol == IF Ep.al THEN 3 + tr \div 2048 ELSE 0
Is(p, a) == LET w == Probe(a) IN \A i \in 1 .. 3 : Abs(p[i] - w[i]) <= (IF i = 3 /\ a[1] # "t" THEN 0 ELSE Tol)
TInit == /\ e \in 1 .. Len(Eps) /\ l = 0 /\ bad = "" /\ started = FALSE /\ fr = <<8192, 0>> /\ base = <<0, 0, 0>> /\ best = <<0, 0, 0>>
         /\ bs = 0 /\ tr = 0 /\ rt = 0 /\ todo = {} /\ ok = FALSE /\ failed = 0 /\ over = FALSE
\* the round is over: what follows
Failed2 == IF ok THEN failed ELSE failed + 1
Half(x) == IF ok THEN x ELSE x \div 2
Step(ev) ==
   CASE ev.op = "match" -> /\ started' = FALSE /\ fr' = <<ev.c, ev.sn>> /\ base' = ev.p /\ best' = ev.p /\ bs' = 0 /\ tr' = Ep.tr /\ rt' = Ep.rt
                           /\ todo' = All /\ ok' = FALSE /\ failed' = 0 /\ over' = (Ep.max = 0) /\ bad' = ""
     [] ev.op = "test" /\ ~started ->
          /\ started' = TRUE /\ bs' = ev.s /\ bad' = (IF ev.p = base THEN "" ELSE "the guess is not tested first")
          /\ UNCHANGED <<fr, base, best, tr, rt, todo, ok, failed, over>>
     [] ev.op = "test" /\ started ->
          /\ UNCHANGED <<started, fr>>
          /\ LET s == {a \in todo : Is(ev.p, a)}
                 better == ev.s > bs
                 left == IF s = {} THEN todo ELSE todo \ {CHOOSE a \in s : TRUE}
                 good == ok \/ better
                 done == left = {}
                 nbest == IF better THEN ev.p ELSE best
                 nf == IF done /\ ~good THEN failed + 1 ELSE failed
             IN /\ bad' = IF over /\ todo # All THEN "the search goes on after its limit"
                          ELSE IF over /\ Ep.max = 0 THEN "a probe where none is due"
                          ELSE IF s = {} THEN "not a step from the round's start, or a repeated one"
                          ELSE IF "off" \in DOMAIN ev /\ ~Ep.al THEN "step is not exact" ELSE ""
                /\ best' = nbest /\ bs' = IF better THEN ev.s ELSE bs
                /\ todo' = IF done THEN All ELSE left
                /\ ok' = IF done THEN FALSE ELSE good
                /\ base' = IF done THEN nbest ELSE base
                /\ tr' = IF done /\ ~good THEN tr \div 2 ELSE tr
                /\ rt' = IF done /\ ~good THEN rt \div 2 ELSE rt
                /\ failed' = nf
                /\ over' = (nf >= Ep.max)
     [] ev.op = "ret" -> /\ UNCHANGED <<started, fr, base, best, bs, tr, rt, todo, ok, failed, over>>
                         /\ bad' = IF ~over THEN "the search ends too early"
                                   ELSE IF ev.s # bs THEN "not the best score"
                                   ELSE ""
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ Step(Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
