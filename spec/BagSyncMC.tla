------------------------------ MODULE BagSyncMC ------------------------------
(* A replay that reads one record at a time, keeps the scans it cannot use yet in a queue and the
   transforms in a buffer, and may hand over or drop the head of the queue at any moment. Whatever
   the pace, the scans handed over are those of Delivered, in order. *)
EXTENDS BagSync, TLC
CONSTANTS N, TMax, Links
Chain == [i \in 1 .. Links + 1 |-> i]
Ignored == {<<1, 9>>}
VARIABLES bag, pos, queue, out
vars == <<bag, pos, queue, out>>
Scan(t) == [k |-> "s", t |-> t]
Tf(i, t) == [k |-> "t", from |-> i, to |-> i + 1, t |-> t, p |-> <<t, 0, 0>>]
Skipped(t) == [k |-> "t", from |-> 1, to |-> 9, t |-> t, p |-> <<0, 0, 0>>]
Records == {Scan(t) : t \in 0 .. TMax} \cup {Tf(i, t) : i \in 1 .. Links, t \in 0 .. TMax} \cup {Skipped(0)}
\* scans, and the transforms of a link, are recorded in the order of their times
Ordered(b) == \A i, j \in DOMAIN b : i < j /\ b[i].k = b[j].k /\ (b[i].k = "s" \/ (b[i].from = b[j].from /\ b[i].to = b[j].to)) => b[i].t <= b[j].t
Init == bag \in {b \in UNION {[1 .. n -> Records] : n \in 0 .. N} : Ordered(b)} /\ pos = 0 /\ queue = <<>> /\ out = <<>>
Seen == SubSeq(bag, 1, pos)
Read == pos < Len(bag) /\ pos' = pos + 1 /\ queue' = (IF bag[pos + 1].k = "s" THEN Append(queue, pos + 1) ELSE queue) /\ UNCHANGED <<bag, out>>
HeadState == ScanState(Seen, Ignored, Chain, bag[Head(queue)].t)
HandOver == queue # <<>> /\ HeadState = "ok" /\ out' = Append(out, Head(queue)) /\ queue' = Tail(queue) /\ UNCHANGED <<bag, pos>>
Drop == queue # <<>> /\ HeadState = "past" /\ queue' = Tail(queue) /\ UNCHANGED <<bag, pos, out>>
Next == Read \/ HandOver \/ Drop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
D == Delivered(bag, Ignored, Chain)
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]
Prefix == IsPrefix(out, D)
AtEnd == (pos = Len(bag) /\ (queue = <<>> \/ HeadState = "wait")) => out = D
\* nothing usable is held back for ever
Drains == <>[](out = D)
InOrder == \A i, j \in DOMAIN D : i < j => D[i] < D[j]
\* a scan between the first and last transforms of every link is handed over, unless one waits before it
Usable == \A i \in DOMAIN bag : (bag[i].k = "s" /\ ScanState(bag, Ignored, Chain, bag[i].t) = "ok") =>
            (i \in {D[k] : k \in DOMAIN D} \/ \E j \in 1 .. i - 1 : bag[j].k = "s" /\ ScanState(bag, Ignored, Chain, bag[j].t) = "wait")
=============================================================================
