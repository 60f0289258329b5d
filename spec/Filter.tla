-------------------------------- MODULE Filter ---------------------------------
(* A particle filter of worlds.  If every particle matches every scan, the     *)
(* generations are followed exactly: a survivor of a resampling is recognised  *)
(* by the map its lineage has built.  Otherwise (or after a call too close to  *)
(* decide) only maps are followed: a map seen has to be one somebody built.    *)
(* Step(ep, ev): what event ev does, and in bad why it must not happen now     *)
(* (FilterMC explores what may, FilterTrace follows the code).                 *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES ps,      \* the generation the last scan left
          res,     \* was it resampled after that scan: "no", "must"
          nxt,     \* the particles met during this scan
          trav,    \* movement since the last resampling
          calm,    \* has a particle been matched from exactly the pose due in this scan?
          loose,   \* are only maps followed?
          known, i, mapseen, bad
fvars == <<ps, res, nxt, trav, calm, loose, known, i, mapseen, bad>>
Abs(x) == IF x < 0 THEN -x ELSE x
Plus(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q).w + Sum(Tail(q))
RECURSIVE Sq(_)
Sq(q) == IF q = <<>> THEN 0 ELSE Head(q).w * Head(q).w + Sq(Tail(q))
Normal(q) == IF \A k \in DOMAIN q : q[k].w = 0 THEN [k \in DOMAIN q |-> [q[k] EXCEPT !.w = 1]] ELSE q
Heaviest(q) == {k \in DOMAIN q : \A j \in DOMAIN q : q[j].w <= q[k].w}
Alive(q) == {k \in DOMAIN q : q[k].w > 0}
\* more than sqrt(0.5) m in all or more than 0.2 rad
Moved == LET x == trav[1] \div 4  y == trav[2] \div 4 IN x * x + y * y > 32768 \/ trav[3] > 204
\* fewer than half of the particles are effective
Few(q)   == 2 * Sum(q) * Sum(q) < Len(q) * Sq(q)
Close(q) == 2 * Sum(q) * Sum(q) = Len(q) * Sq(q)
Resampled(q) == Moved /\ Few(q)

Start(ep) == /\ bad = "" /\ known = {<<>>} /\ i = 0 /\ mapseen = <<>>
             /\ ps = [k \in 1 .. ep.n |-> [p |-> <<0, 0, 0>>, w |-> 1, map |-> <<>>, first |-> TRUE]]
             /\ res = "no" /\ nxt = <<>> /\ trav = <<0, 0, 0>> /\ calm = FALSE /\ loose = ~ep.all
Off(ep, k) == IF ps[k].first THEN 0 ELSE 8 * ep.sxy
\* the particles of the last generation that the next one met may be
From(ep, ev) == {k \in (IF res = "no" THEN {i + 1} ELSE Alive(ps)) :
                /\ ev.map = ps[k].map /\ Abs(ev.p[3] - ps[k].p[3]) <= 0
                /\ \A d \in 1 .. 2 : Abs(ev.p[d] - ps[k].p[d]) <= Off(ep, k)}
Step(ep, ev) ==
   CASE ev.op = "scan" ->
          /\ ps' = [k \in DOMAIN ps |-> [ps[k] EXCEPT !.p = Plus(@, ev.d)]]
          /\ trav' = <<trav[1] + Abs(ev.d[1]), trav[2] + Abs(ev.d[2]), trav[3] + Abs(ev.d[3])>>
          /\ i' = 0 /\ nxt' = <<>> /\ calm' = FALSE /\ bad' = "" /\ UNCHANGED <<res, loose, known, mapseen>>
     [] ev.op = "match" ->
          /\ i' = i + 1 /\ mapseen' = ev.map /\ UNCHANGED <<ps, res, trav, loose, known>>
          /\ IF i + 1 > ep.n THEN bad' = "more matches than particles" /\ UNCHANGED <<nxt, calm>>
             ELSE IF loose
             THEN bad' = (IF ev.map \notin known THEN "a particle matches against a map nobody built" ELSE "") /\ UNCHANGED <<nxt, calm>>
             ELSE IF From(ep, ev) = {}
             THEN bad' = (IF res = "no" THEN "a particle is not where its odometry and corrections put it, or has not its own map"
                          ELSE "no particle of positive weight of the previous generation") /\ UNCHANGED <<nxt, calm>>
             ELSE LET k == CHOOSE x \in From(ep, ev) : TRUE IN
                  /\ bad' = ""
                  /\ calm' = (calm \/ \E x \in From(ep, ev) : ps[x].p = ev.p)
                  /\ nxt' = Append(nxt, [p |-> Plus(ev.p, ev.c), w |-> IF ps[k].first THEN ps[k].w ELSE ps[k].w * (ev.s \div ep.unit),
                                         map |-> ev.map, first |-> ps[k].first])
     [] ev.op = "insert" ->
          /\ UNCHANGED <<ps, res, trav, calm, loose, i, mapseen>>
          /\ bad' = IF ev.map # mapseen THEN "inserted into another map than matched against" ELSE ""
          /\ known' = known \cup {Append(ev.map, ev.tag)}
          /\ nxt' = IF loose THEN nxt ELSE [nxt EXCEPT ![i] = [@ EXCEPT !.map = Append(@, ev.tag), !.first = FALSE]]
     [] ev.op \in {"pose", "map"} ->
          /\ UNCHANGED <<ps, res, nxt, trav, calm, loose, known, i, mapseen>>
          /\ bad' = IF loose THEN (IF ev.op = "map" /\ ev.map \notin known THEN "a map nobody built" ELSE "")
                    ELSE LET q == Normal(nxt)
                             c == IF Resampled(q) \/ Close(q) THEN Alive(q) ELSE Heaviest(q) IN
                         IF \E k \in c : (ev.op = "pose" /\ ev.p = q[k].p) \/ (ev.op = "map" /\ ev.map = q[k].map)
                         THEN "" ELSE "an observer is not told the heaviest particle's state"
     [] ev.op = "done" ->
          /\ UNCHANGED <<nxt, calm, known, i, mapseen>>
          /\ IF loose
             THEN /\ UNCHANGED <<ps, res, trav, loose>>
                  /\ bad' = IF ev.map \notin known THEN "a map nobody built"
                            ELSE IF ev.wt > 1000001 \/ (ev.wt + 2) * ep.n < 1000000 THEN "not the weight of a heaviest particle"
                            ELSE IF ev.pending # 0 THEN "inserted in part" ELSE ""
             ELSE LET q == Normal(nxt)
                      c == IF Resampled(q) \/ Close(q) THEN Alive(q) ELSE Heaviest(q) IN
                  /\ ps' = q
                  /\ res' = IF Resampled(q) THEN "must" ELSE "no"
                  /\ trav' = IF Resampled(q) THEN <<0, 0, 0>> ELSE trav
                  /\ loose' = (Moved /\ Close(q))
                  /\ bad' = IF i # ep.n THEN "a particle did not handle the scan, or their number changed"
                            ELSE IF ep.sxy # 0 /\ ~calm THEN "no particle is matched undisturbed"
                            ELSE IF ~\E k \in c : ev.p = q[k].p /\ ev.map = q[k].map THEN "pose and map are not the heaviest particle's"
                            ELSE IF ev.wt > 1000001 \/ (ev.wt + 2) * ep.n < 1000000 THEN "not the weight of a heaviest particle"
                            ELSE IF ~Resampled(q) /\ ~Close(q) /\ \E k \in c : Abs(ev.wt * Sum(q) - q[k].w * 1000000) > 2 * Sum(q)
                                 THEN "not the weight of the heaviest particle"
                            ELSE IF ev.pending # 0 THEN "inserted in part" ELSE ""
================================================================================
