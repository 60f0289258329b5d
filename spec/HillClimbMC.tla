----------------------------- MODULE HillClimbMC -----------------------------
(* Hill climbing along two axes over every score function of a small lattice: *)
(* it ends, never below its start, in a pose no probe of the last round beats. *)
EXTENDS Integers, FiniteSets
CONSTANTS R, Levels, MaxFailed
Pos == -R .. R
VARIABLES f, base, best, step, todo, ok, failed, last
vars == <<f, base, best, step, todo, ok, failed, last>>
Dirs == {1, -1}
Val(p) == IF p \in Pos THEN f[p] ELSE -1
Init == /\ f \in [Pos -> 0 .. 2] /\ base = 0 /\ best = 0 /\ step = Levels /\ todo = Dirs /\ ok = FALSE /\ failed = 0
        /\ last = {}
Probe == /\ failed < MaxFailed
         /\ \E d \in todo :
              LET p == base + d * step
                  better == Val(p) > Val(best)
                  done == todo = {d}
                  good == ok \/ better
                  nb == IF better THEN p ELSE best
              IN /\ best' = nb
                 /\ todo' = IF done THEN Dirs ELSE todo \ {d}
                 /\ ok' = IF done THEN FALSE ELSE good
                 /\ base' = IF done THEN nb ELSE base
                 /\ step' = IF done /\ ~good THEN step \div 2 ELSE step
                 /\ failed' = IF done /\ ~good THEN failed + 1 ELSE failed
                 /\ last' = IF done /\ ~good THEN {base + step, base - step} ELSE last
         /\ UNCHANGED f
Spec == Init /\ [][Probe]_vars /\ WF_vars(Probe)
Ends == <>(failed = MaxFailed)
NeverWorse == Val(best) >= Val(0)
Monotone == [][Val(best') >= Val(best)]_vars
LocallyBest == failed = MaxFailed => \A p \in last : Val(p) <= Val(best)
StepsHalve == step = Levels \div (2 ^ failed)
=============================================================================
