------------------------------- MODULE DriveMC --------------------------------
(* A robot that wanders and maps: whatever the order in which beams are inserted, the map is the same; every beam
   observes the cells on its way once; what a cell says lies between what free and occupied observations say. *)
EXTENDS Drive, TLC
CONSTANTS R, VMax, S, Far, Scans
PF == 1  PO == 15  Q == 4
VARIABLES map, done, n
vars == <<map, done, n>>
Poses == {<<x, y, h>> : x \in 1 .. R, y \in 1 .. R, h \in 0 .. 3}
BeamsOf(h) == {[v |-> v, occ |-> o, d |-> Dir(h)] : v \in 0 .. VMax, o \in BOOLEAN}
Init == map = Nothing /\ done = <<>> /\ n = 0
Scan == /\ n < Scans
        /\ \E p \in Poses : \E b \in BeamsOf(p[3]) :
             /\ map' = AddAll(map, p, <<b>>, S, Far, PF, PO, Q)
             /\ done' = Append(done, <<p, b>>) /\ n' = n + 1
Next == Scan
Spec == Init /\ [][Next]_vars
RECURSIVE Replay(_, _)
Replay(m, ds) == IF ds = <<>> THEN m ELSE Replay(AddAll(m, Head(ds)[1], <<Head(ds)[2]>>, S, Far, PF, PO, Q), Tail(ds))
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
AnyOrder == Replay(Nothing, Rev(done)) = map
Between == \A c \in DOMAIN map : map[c][1] >= 1 /\ map[c][2] >= (32 + (PF - 8) * Q) * map[c][1] /\ map[c][2] <= (32 + (PO - 8) * Q) * map[c][1]
\* the cells of a beam: one after another along the axis, each once, the last with what the beam ends in
Way == \A k \in DOMAIN done :
  LET p == done[k][1]  b == done[k][2]  ms == Marks(p, b, S, Far)  cs == {m[1] : m \in ms}
      from == Cell(p[1], p[2], S)  to == Cell(p[1] + b.d[1] * b.v, p[2] + b.d[2] * b.v, S) IN
  IF Far # 0 /\ b.v > Far THEN ms = {}
  ELSE /\ Cardinality(cs) = Cardinality(ms) /\ from \in cs /\ <<to, b.occ>> \in ms /\ cs \subseteq DOMAIN map
       /\ \A m \in ms : m[1] # to => ~m[2]
       /\ Cardinality(cs) = 1 + (IF from[1] > to[1] THEN from[1] - to[1] ELSE to[1] - from[1]) + (IF from[2] > to[2] THEN from[2] - to[2] ELSE to[2] - from[2])
=============================================================================
