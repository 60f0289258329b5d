------------------------------- MODULE WorldMC --------------------------------
(* All histories World admits, for small movements and corrections and any     *)
(* comings and goings of observers: what they add up to.                       *)
EXTENDS World
CONSTANTS Scans,   \* how many scans
          Obs,     \* observers of each kind
          Far      \* how far a movement or correction may go
VARIABLES odo, cor,      \* all odometry, all corrections
          live,          \* the observers subscribed and not dropped
          told,          \* what was told during this scan
          seen,          \* the pose the scan in work was matched from
          quality,       \* quality each scan was inserted with
          scans          \* scans begun
vars == <<wvars, odo, cor, live, told, seen, quality, scans>>
Cfg == [margin |-> 1, lq |-> 40, rq |-> 20]
Deltas == {<<x, 0, 0>> : x \in 0 .. Far} \cup {<<0, 0, t>> : t \in 0 .. Far}
Poses == {<<x, 0, t>> : x \in 0 .. 2 * Far * Scans, t \in 0 .. 2 * Far * Scans}
Near == {pose, Plus(pose, <<1, 0, 0>>), Plus(pose, <<0, 0, 1>>)}
Maps == {mapped, Append(mapped, Len(mapped) + 1)} \cup (IF mapped = <<>> THEN {} ELSE {SubSeq(mapped, 1, Len(mapped) - 1)})
Kinds == {"pose", "map"}
Pick(k) == {o[2] : o \in {x \in live : x[1] = k}}
AsSeq(S) == CHOOSE q \in [1 .. Cardinality(S) -> S] : \A i, j \in DOMAIN q : i # j => q[i] # q[j]
Init == Fresh /\ scans = 0 /\ odo = <<0, 0, 0>> /\ cor = <<0, 0, 0>> /\ live = {} /\ told = <<>> /\ seen = <<0, 0, 0>> /\ quality = <<>>
\* observers come and go between scans
Subscribe == /\ phase = "idle" /\ scans < Scans
             /\ \E k \in Kinds, o \in 1 .. Obs : <<k, o>> \notin live /\ live' = live \cup {<<k, o>>}
             /\ UNCHANGED <<wvars, odo, cor, told, seen, quality, scans>>
Drop == /\ phase = "idle" /\ scans < Scans
        /\ \E o \in live : live' = live \ {o}
        /\ UNCHANGED <<wvars, odo, cor, told, seen, quality, scans>>
Take(ev) == Step(Cfg, ev) /\ bad' = ""
Scan == /\ scans < Scans /\ scans' = scans + 1
        /\ \E d \in Deltas, n \in {2, 4} :      \* (nothing is left between the margins of the one with 2 points)
                              /\ Take([op |-> "scan", d |-> d, n |-> n, po |-> AsSeq(Pick("pose")), mo |-> AsSeq(Pick("map"))])
                              /\ odo' = Plus(odo, d)
        /\ told' = <<>> /\ UNCHANGED <<cor, live, seen, quality>>
Match == \E c \in Deltas, p \in Near, m \in Maps, z \in BOOLEAN, n \in 2 .. 4 :
           /\ (z <=> c = <<0, 0, 0>>)
           /\ Take([op |-> "match", p |-> p, map |-> m, n |-> n, c |-> c, zero |-> z])
           /\ cor' = Plus(cor, c) /\ seen' = p /\ UNCHANGED <<odo, live, told, quality, scans>>
Insert == \E p \in Near, m \in Maps, q \in {20, 40, 64}, n \in {0, 2, 4} :
           /\ Take([op |-> "insert", at |-> <<p[1], p[2]>>, th |-> p[3], q |-> q, n |-> n, map |-> m, tag |-> Len(mapped) + 1])
           /\ quality' = Append(quality, q) /\ UNCHANGED <<odo, cor, live, told, seen, scans>>
Tell == \E o \in 1 .. Obs :
           /\ \/ \E p \in Near : Take([op |-> "pose", o |-> o, p |-> p]) /\ told' = Append(told, <<"pose", o, p>>)
              \/ \E m \in Maps : Take([op |-> "map", o |-> o, map |-> m]) /\ told' = Append(told, <<"map", o, m>>)
           /\ UNCHANGED <<odo, cor, live, seen, quality, scans>>
Done == \E p \in Near, m \in Maps : /\ Take([op |-> "done", p |-> p, map |-> m, pending |-> 0])
                                    /\ UNCHANGED <<odo, cor, live, told, seen, quality, scans>>
Next == Subscribe \/ Drop \/ Scan \/ Match \/ Insert \/ Tell \/ Done
Spec == Init /\ [][Next]_vars
SumOfAll == phase # "scanned" => pose = Plus(odo, cor)
Guess == phase = "scanned" => pose = Plus(odo, cor)
EveryScanOnce == /\ mapped = [k \in DOMAIN mapped |-> k] /\ Len(quality) = Len(mapped)
                 /\ phase = "idle" => po = {} /\ mo = {}
\* each live observer is told exactly once a scan, nobody else is
EachOnce == (phase = "idle" /\ told # <<>>) =>
              \A i, j \in DOMAIN told : i # j => <<told[i][1], told[i][2]>> # <<told[j][1], told[j][2]>>
ToldTheTruth == \A i \in DOMAIN told : /\ told[i][1] = "pose" => told[i][3] = pose \/ phase \in {"scanned"}
                                       /\ told[i][1] = "map" => told[i][3] = mapped \/ phase = "scanned" \/ phase = "matched"
\* a scan that ends with an observer untold cannot end: all live ones are among the told when the world is idle again
AllTold == [][(phase # "idle" /\ phase' = "idle") => {<<t[1], t[2]>> : t \in {told[i] : i \in DOMAIN told}} = live]_vars
QualityOfItsMove == [][(phase = "matched" /\ phase' = "inserted") => (quality'[Len(quality')] = 40) = (pose # seen)]_vars
=============================================================================
