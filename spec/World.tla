-------------------------------- MODULE World ---------------------------------
(* A single-hypothesis world handling scans. Each scan goes through            *)
(*   scanned -> matched -> inserted -> idle                                    *)
(* and every live observer is told once, with the pose and the map due.        *)
(* The map is the sequence of scans inserted (by number).                      *)
(* Step(ep, ev): what event ev does in a world configured by ep, and in bad    *)
(* why it must not happen now (WorldMC explores what may, WorldTrace follows   *)
(* what the code does).                                                        *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES pose, mapped, phase, sc, po, mo, moved, bad
wvars == <<pose, mapped, phase, sc, po, mo, moved, bad>>
Abs(x) == IF x < 0 THEN -x ELSE x
Plus(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Angle(a, b) == LET d == Abs(a - b) % 6434 IN d <= 3 \/ d >= 6431      \* headings modulo a full turn
Range(q) == {q[i] : i \in DOMAIN q}
Fresh == /\ bad = "" /\ pose = <<0, 0, 0>> /\ mapped = <<>> /\ phase = "idle"
         /\ sc = [n |-> 0] /\ po = {} /\ mo = {} /\ moved = FALSE
\* the scan has been dealt with: it is inserted, or nothing of it is left between the margins
Settled(ep) == phase = "inserted" \/ (phase = "matched" /\ sc.n <= 2 * ep.margin)
Step(ep, ev) ==
   CASE ev.op = "scan" ->
          /\ pose' = Plus(pose, ev.d) /\ phase' = "scanned" /\ sc' = [n |-> ev.n] /\ po' = Range(ev.po) /\ mo' = Range(ev.mo)
          /\ UNCHANGED <<mapped, moved>>
          /\ bad' = IF phase = "idle" THEN "" ELSE "harness"
     [] ev.op = "match" ->
          /\ bad' = IF phase # "scanned" THEN "matched out of turn"
                    ELSE IF ev.p # pose THEN "not matched from the odometry pose"
                    ELSE IF ev.map # mapped THEN "not matched against the map built so far"
                    ELSE IF ev.n # sc.n THEN "another scan is matched" ELSE ""
          /\ pose' = Plus(pose, ev.c) /\ moved' = ~ev.zero /\ phase' = "matched" /\ UNCHANGED <<mapped, sc, po, mo>>
     [] ev.op = "insert" ->
          /\ bad' = IF phase # "matched" THEN "inserted out of turn"
                    ELSE IF ev.at # <<pose[1], pose[2]>> \/ ~Angle(ev.th, pose[3]) THEN "not inserted at the corrected pose"
                    ELSE IF ev.q # (IF moved THEN ep.lq ELSE ep.rq) THEN "inserted with the wrong quality"
                    ELSE IF ev.n # sc.n - 2 * ep.margin \/ ev.n <= 0 THEN "inserted with the wrong margin"
                    ELSE IF ev.map # mapped THEN "not inserted into the map" ELSE ""
          /\ mapped' = Append(mapped, ev.tag) /\ phase' = "inserted" /\ UNCHANGED <<pose, sc, po, mo, moved>>
     [] ev.op = "pose" ->
          /\ bad' = IF ~(phase \in {"matched", "inserted"}) THEN "pose observer told before the pose is known"
                    ELSE IF ev.o \notin po THEN "pose observer told twice or after it was dropped"
                    ELSE IF ev.p # pose THEN "pose observer told another pose" ELSE ""
          /\ po' = po \ {ev.o} /\ UNCHANGED <<pose, mapped, phase, sc, mo, moved>>
     [] ev.op = "map" ->
          /\ bad' = IF ~Settled(ep) THEN "map observer told before the scan is inserted"
                    ELSE IF ev.o \notin mo THEN "map observer told twice or after it was dropped"
                    ELSE IF ev.map # mapped THEN "map observer told another map" ELSE ""
          /\ mo' = mo \ {ev.o} /\ UNCHANGED <<pose, mapped, phase, sc, po, moved>>
     [] ev.op = "done" ->
          /\ bad' = IF ~Settled(ep) THEN "the scan was not matched and inserted"
                    ELSE IF po # {} \/ mo # {} THEN "an observer was not told"
                    ELSE IF ev.p # pose THEN "the pose is not odometry plus correction"
                    ELSE IF ev.map # mapped \/ ev.pending # 0 THEN "the map is not the one with the scan" ELSE ""
          /\ phase' = "idle" /\ UNCHANGED <<pose, mapped, sc, po, mo, moved>>
=============================================================================
