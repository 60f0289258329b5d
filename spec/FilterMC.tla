------------------------------- MODULE FilterMC --------------------------------
(* All histories Filter admits for a few particles and scans: generations only  *)
(* descend from fit particles, and what the filter shows is one of them.        *)
EXTENDS Filter
CONSTANTS Num, Scans, Sxy
VARIABLES n, tag, phase, alive,   \* alive: the maps a next generation may build on
          shown                   \* the map shown for the last scan
vars == <<fvars, n, tag, phase, alive, shown>>
Cfg == [n |-> Num, all |-> TRUE, sxy |-> Sxy, unit |-> 512]
Deltas == {<<0, 0, 0>>, <<800, 0, 0>>, <<0, 0, 150>>}
Take(ev) == Step(Cfg, ev) /\ bad' = ""
Init == Start(Cfg) /\ n = 0 /\ tag = 0 /\ phase = "idle" /\ alive = {<<>>} /\ shown = <<>>
Scan == /\ phase = "idle" /\ n < Scans /\ n' = n + 1 /\ phase' = "scan"
        /\ \E d \in Deltas : Take([op |-> "scan", d |-> d])
        /\ UNCHANGED <<tag, alive, shown>>
Match == /\ phase \in {"scan", "inserted", "skipped"} /\ i < Num
         /\ \E q \in {ps[x].p : x \in DOMAIN ps}, off \in {0, 16}, m \in known, s \in {0, 512, 1024}, c \in {0, 2} :
               Take([op |-> "match", p |-> <<q[1] + off, q[2], q[3]>>, map |-> m, s |-> s, c |-> <<c, 0, 0>>])
         \* a scan it scores nothing is not mapped, except its first
         /\ phase' = IF nxt'[i'].first \/ nxt'[i'].w > 0 THEN "matched" ELSE "skipped"
         /\ UNCHANGED <<n, tag, alive, shown>>
Insert == /\ phase = "matched" /\ phase' = "inserted" /\ tag' = tag + 1
          /\ \E m \in known : Take([op |-> "insert", map |-> m, tag |-> tag + 1])
          /\ UNCHANGED <<n, alive, shown>>
Done == /\ phase \in {"inserted", "skipped"} /\ phase' = "idle"
        /\ \E k \in DOMAIN nxt : LET q == Normal(nxt) IN
              /\ Take([op |-> "done", p |-> nxt[k].p, map |-> nxt[k].map, wt |-> (q[k].w * 1000000) \div Sum(q), pending |-> 0])
              /\ shown' = nxt[k].map
        /\ alive' = {ps'[k].map : k \in IF res' = "must" THEN Alive(ps') ELSE DOMAIN ps'}
        /\ UNCHANGED <<n, tag>>
Next == Scan \/ Match \/ Insert \/ Done
Spec == Init /\ [][Next]_vars
Idle == phase = "idle"
SameNumber == Len(ps) = Num /\ (Idle /\ n > 0 => i = Num)
MapsBuilt == \A k \in DOMAIN ps : ps[k].map \in known
\* who takes part in a scan descends from the survivors of the last one
Descend == \A k \in DOMAIN nxt : ~Idle =>
              \E m \in alive : nxt[k].map = m \/ (nxt[k].map # <<>> /\ SubSeq(nxt[k].map, 1, Len(nxt[k].map) - 1) = m)
\* what is shown can be built on
ShownSurvives == Idle => shown \in alive
\* without a movement worth it, nobody is replaced
StillKept == (Idle /\ res = "must") => trav = <<0, 0, 0>>
\* particles that have drawn apart never share a new part of a map
Apart == \A a, b \in DOMAIN ps : \A x \in DOMAIN ps[a].map, y \in DOMAIN ps[b].map :
            ps[a].map[x] = ps[b].map[y] => x = y /\ SubSeq(ps[a].map, 1, x) = SubSeq(ps[b].map, 1, y)
NeverLoose == ~loose => \A k \in DOMAIN ps : ps[k].w >= 0
================================================================================
