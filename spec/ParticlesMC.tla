------------------------------ MODULE ParticlesMC ------------------------------
(* All histories Particles admits: duplicates never share what they become,    *)
(* no movement goes unmatched once it passes the thresholds, and a weight is   *)
(* the product of the scores since it was last set.                            *)
EXTENDS Particles
CONSTANTS Scans, Worlds, Master
VARIABLES n,        \* scans so far
          tag,      \* scans inserted so far
          g         \* per particle: movement since its last match, product of scores, tags, scans handled and matched, mapped at all?
vars == <<pvars, n, tag, g>>
One == 1048576
Cfg == [limsq |-> 2, limth |-> 1, noisy |-> FALSE, sxy |-> 0, master |-> Master]
Deltas == {<<0, 0, 0>>, <<1, 0, 0>>, <<1, 1, 0>>, <<-1, 0, 1>>}
Scores == {0, 512, 1024, NaN}
Ghost == [x |-> 0, y |-> 0, t |-> 0, prod |-> One, tags |-> <<>>, scans |-> 0, matches |-> 0, idle |-> 0]
Tried(ev) == Step(Cfg, ev) /\ Draw(Cfg, ev) /\ bad' = ""
Init == Start /\ n = 0 /\ tag = 0 /\ g = <<>>
New == /\ phase = "idle" /\ Len(ps) < (IF n = 0 THEN 1 ELSE Worlds) /\ n < Scans
       /\ Tried([op |-> "new", w |-> Len(ps) + 1, wt |-> One]) /\ g' = Append(g, Ghost) /\ UNCHANGED <<n, tag>>
Dup == /\ phase = "idle" /\ Len(ps) < Worlds /\ n < Scans
       /\ \E k \in DOMAIN ps, own \in BOOLEAN : \E wt \in {ps[k].wt, One \div 4} :
             /\ Tried([op |-> "dup", from |-> k, own |-> own, wt |-> wt]) /\ g' = Append(g, g[k])
       /\ UNCHANGED <<n, tag>>
Scan == /\ phase = "idle" /\ n < Scans
        /\ \E w \in DOMAIN ps, d \in Deltas, turns \in 0 .. 1 :
              LET r == Rot(ps[w].turns, d[1], d[2]) IN
              /\ Tried([op |-> "scan", w |-> w, d |-> d, turns |-> turns])
              /\ g' = [g EXCEPT ![w] = [@ EXCEPT !.x = @ + Abs(r[1]), !.y = @ + Abs(r[2]), !.t = @ + Abs(d[3]), !.scans = @ + 1, !.idle = IF g[w].matches > 0 THEN @ + 1 ELSE 0]]
        /\ n' = n + 1 /\ UNCHANGED tag
Match == /\ phase = "scanned"
         /\ \E s \in Scores, off \in 0 .. 1, c \in {0, 1} :
              LET p == ps[cur.w] IN
              /\ Tried([op |-> "match", p |-> <<p.x + 3 * off, p.y, Heading(p)>>, map |-> p.map, c |-> <<c, 0, 0>>, s |-> s])
              /\ g' = [g EXCEPT ![cur.w] = [@ EXCEPT !.x = 0, !.y = 0, !.t = 0, !.matches = @ + 1, !.idle = 0,
                                              !.prod = IF @ = 0 \/ s = NaN \/ p.map = <<>> THEN @ ELSE (@ * s) \div 1024]]
         /\ UNCHANGED <<n, tag>>
Insert == /\ phase = "matched"
          /\ \E w \in DOMAIN ps :     \* whose map?
               LET p == ps[cur.w] IN
               Tried([op |-> "insert", at |-> <<p.x, p.y>>, map |-> ps[w].map, tag |-> tag + 1])
          /\ g' = [g EXCEPT ![cur.w] = [@ EXCEPT !.tags = Append(@, tag + 1)]]
          /\ tag' = tag + 1 /\ UNCHANGED n
Done == /\ phase # "idle"
        /\ LET p == ps[cur.w] IN
           Tried([op |-> "done", w |-> cur.w, p |-> <<p.x, p.y, Heading(p)>>, wts |-> [i \in DOMAIN ps |-> ps[i].wt],
                  maps |-> [i \in DOMAIN ps |-> ps[i].map], pending |-> 0])
        /\ UNCHANGED <<n, tag, g>>
Next == New \/ Dup \/ Scan \/ Match \/ Insert \/ Done
Spec == Init /\ [][Next]_vars
Own == \A i \in DOMAIN ps : ps[i].map = g[i].tags /\ ps[i].wt = g[i].prod
Idle == phase = "idle"
\* two particles have in common what their common ancestor built and nothing else
Common(a, b) == \A i \in DOMAIN a, j \in DOMAIN b : a[i] = b[j] => i = j /\ \A k \in 1 .. i : a[k] = b[k]
Apart == \A i, j \in DOMAIN ps : Common(ps[i].map, ps[j].map)
\* when a scan is done, what the particle moved since its last match is within the thresholds
Gated == Idle => \A i \in DOMAIN ps : g[i].scans > 0 =>
            /\ g[i].x * g[i].x + g[i].y * g[i].y <= Cfg.limsq /\ g[i].t <= Cfg.limth
\* the first scan it matches is mapped, whatever its score
FirstIsMapped == Idle => \A i \in DOMAIN ps : g[i].matches > 0 => Len(ps[i].map) >= 1
\* once the master has matched it matches every scan, whatever its movement
MasterAlways == (Idle /\ Master /\ ps # <<>>) => (g[1].matches > 0 => g[1].idle = 0)
ImpossibleAddsNothing == \A i \in DOMAIN ps : (Idle /\ ps[i].wt = 0) => Len(ps[i].map) <= g[i].matches
================================================================================
