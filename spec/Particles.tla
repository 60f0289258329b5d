------------------------------- MODULE Particles -------------------------------
(* Particle worlds of the gmapping kind, each with its own pose, gate, weight  *)
(* and map. Lengths in 1/1024, weights in 2^-20, headings counted as odometry  *)
(* (1/1024 rad) plus quarter turns added by corrections.                       *)
(* Step(ep, ev): what event ev does, and in bad why it must not happen now     *)
(* (ParticlesMC explores what may, ParticleWorldTrace follows the code).       *)
EXTENDS Integers, Sequences, FiniteSets
NaN == 2000000001
VARIABLES ps,      \* particles
          draws,   \* the disturbances drawn so far and who drew them
          cur, phase, bad
pvars == <<ps, draws, cur, phase, bad>>
Abs(x) == IF x < 0 THEN -x ELSE x
Fresh(ep, wt) == [x |-> 0, y |-> 0, t |-> 0, turns |-> 0, ax |-> 0, ay |-> 0, at |-> 0, first |-> TRUE, gate |-> TRUE,
              wt |-> wt, map |-> <<>>, master |-> ep.master /\ ps = <<>>, src |-> Len(ps) + 1, calm |-> 0]
Rot(k, x, y) == CASE k % 4 = 0 -> <<x, y>> [] k % 4 = 1 -> <<-y, x>> [] k % 4 = 2 -> <<-x, -y>> [] OTHER -> <<y, -x>>
Heading(p) == p.t + (p.turns * 1608495) \div 1000
PoseOK(v, p, tol) == Abs(v[1] - p.x) <= tol /\ Abs(v[2] - p.y) <= tol /\ Abs(v[3] - Heading(p)) <= 2
\* does the particle re-match now?
Due(ep, p) == \/ ~p.gate
          \/ p.ax * p.ax + p.ay * p.ay > ep.limsq
          \/ p.at > ep.limth
Odometry(p, d) == LET r == Rot(p.turns, d[1], d[2]) IN
   [p EXCEPT !.x = @ + r[1], !.y = @ + r[2], !.t = @ + d[3], !.ax = @ + Abs(r[1]), !.ay = @ + Abs(r[2]), !.at = @ + Abs(d[3])]
Start == bad = "" /\ ps = <<>> /\ draws = {} /\ cur = [w |-> 0, turns |-> 0, s |-> 0] /\ phase = "idle"
Put(w, p) == ps' = [ps EXCEPT ![w] = p]
Disturbed(ep, p) == ep.noisy /\ ~p.master /\ ~p.first
Noise(ep, p) == IF Disturbed(ep, p) THEN 8 * ep.sxy ELSE 0
Drawn(p, v) == <<v[1] - p.x, v[2] - p.y>>
Calm(ep, p, v) == Disturbed(ep, p) /\ Drawn(p, v) = <<0, 0>>
Step(ep, ev) ==
   CASE ev.op = "new" -> ps' = Append(ps, Fresh(ep, ev.wt)) /\ UNCHANGED <<cur, phase>>
                         /\ bad' = IF ev.w = Len(ps) + 1 THEN "" ELSE "harness"
     [] ev.op = "dup" -> ps' = Append(ps, IF ev.own THEN [ps[ev.from] EXCEPT !.master = FALSE, !.src = Len(ps) + 1, !.calm = 0] ELSE ps[ev.from]) /\ UNCHANGED <<cur, phase>>
                         /\ bad' = IF ev.wt = ps[ev.from].wt THEN "" ELSE "a duplicate has another weight"
     [] ev.op = "setw" -> Put(ev.w, [ps[ev.w] EXCEPT !.wt = ev.wt]) /\ UNCHANGED <<cur, phase>> /\ bad' = ""
     [] ev.op = "scan" -> /\ Put(ev.w, Odometry(ps[ev.w], ev.d)) /\ bad' = ""
                          /\ cur' = [w |-> ev.w, turns |-> ev.turns, s |-> 0] /\ phase' = "scanned"
     [] ev.op = "match" ->
          LET p == ps[cur.w] IN
          /\ bad' = IF phase # "scanned" \/ ~Due(ep, p) THEN "matched although its movement has not passed the thresholds"
                    ELSE IF ~PoseOK(ev.p, p, Noise(ep, p)) THEN "not matched from the pose due"
                    ELSE IF Calm(ep, p, ev.p) /\ p.calm = 1 THEN "its guesses are not disturbed"
                    ELSE IF Disturbed(ep, p) /\ \E d \in draws : d[1] # p.src /\ d[2] = Drawn(p, ev.p) /\ d[2] # <<0, 0>>
                         THEN "two particles draw the same disturbance"
                    ELSE IF ev.map # p.map THEN "not matched against the particle's own map" ELSE ""
          /\ Put(cur.w, [p EXCEPT !.x = ev.p[1] + ev.c[1], !.y = ev.p[2] + ev.c[2], !.turns = @ + cur.turns,
                                  !.ax = 0, !.ay = 0, !.at = 0, !.gate = ~p.master, !.calm = IF Calm(ep, p, ev.p) THEN @ + 1 ELSE 0,
                                  !.wt = IF p.first \/ ev.s = NaN THEN @ ELSE (@ * ev.s) \div 1024])
          /\ cur' = [cur EXCEPT !.s = ev.s] /\ phase' = "matched"
     [] ev.op = "insert" ->
          LET p == ps[cur.w] IN
          /\ bad' = IF phase # "matched" THEN "inserted without a match"
                    ELSE IF ~p.first /\ (cur.s = NaN \/ cur.s <= 0) THEN "inserted although the score is zero"
                    ELSE IF Abs(ev.at[1] - p.x) > 1 \/ Abs(ev.at[2] - p.y) > 1 THEN "not inserted at the corrected pose"
                    ELSE IF ev.map # p.map THEN "not inserted into the particle's own map" ELSE ""
          /\ Put(cur.w, [p EXCEPT !.map = Append(@, ev.tag), !.first = FALSE])
          /\ phase' = "inserted" /\ UNCHANGED cur
     [] ev.op = "done" ->
          LET p == ps[ev.w] IN
          /\ bad' = IF phase = "scanned" /\ Due(ep, p) THEN "not matched although its movement has passed the thresholds"
                    ELSE IF phase = "matched" /\ (p.first \/ (cur.s # NaN /\ cur.s > 0)) THEN "the scan was not inserted"
                    ELSE IF ~PoseOK(ev.p, p, 1) THEN "the pose is not turned odometry plus correction"
                    ELSE IF \E i \in DOMAIN ps : Abs(ev.wts[i] - ps[i].wt) > 1 THEN "weight"
                    ELSE IF \E i \in DOMAIN ps : ev.maps[i] # ps[i].map THEN "a particle's map is not its own"
                    ELSE IF ev.pending # 0 THEN "inserted in part" ELSE ""
          /\ ps' = [i \in DOMAIN ps |-> [ps[i] EXCEPT !.wt = ev.wts[i]]]
          /\ phase' = "idle" /\ UNCHANGED cur
Draw(ep, ev) == draws' = IF ev.op = "match" /\ Disturbed(ep, ps[cur.w]) THEN draws \cup {<<ps[cur.w].src, Drawn(ps[cur.w], ev.p)>>} ELSE draws
================================================================================
