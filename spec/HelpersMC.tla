------------------------------ MODULE HelpersMC ------------------------------
(* All short histories of both helpers.                                        *)
EXTENDS Helpers
CONSTANTS N, M
VARIABLES heard, now, path, kept, sent, first, n
vars == <<heard, now, path, kept, sent, first, n>>
Poses == {<<0, 0, 0>>, <<1, 0, 1>>, <<0, 1, 2>>}
Init == heard = <<{}, {}>> /\ now = 1 /\ path = <<>> /\ kept = NONE /\ sent = <<>> /\ first = NONE /\ n = 0
Hear == \E i \in 1 .. 2, p \in Poses : heard' = [heard EXCEPT ![i] = Put(@, now, p)] /\ UNCHANGED <<now, path, kept, sent, first>>
Tick == now' = now + 1 /\ UNCHANGED <<heard, path, kept, sent, first>>
Publish == Known(heard) /\ Exact(heard) /\ path' = Grown(path, heard) /\ UNCHANGED <<heard, now, kept, sent, first>>
In == [from : {"/map"}, to : {"/odom"}, p : {<<1, 0, 0>>, <<2, 0, 0>>}, t : {1}, corr : {TRUE}] \cup [from : {"/odom"}, to : {"/base"}, p : {<<3, 0, 0>>}, t : {1}, corr : {FALSE}]
Adapt == \E k \in 1 .. M : \E in \in [1 .. k -> In] :
           /\ sent' = Dues(kept, in, 1) /\ kept' = After(kept, in, 1)
           /\ first' = IF first # NONE \/ ~(\E i \in 1 .. k : in[i].corr) THEN first ELSE in[Min({i \in 1 .. k : in[i].corr})].p
           /\ UNCHANGED <<heard, now, path>>
Next == n < N /\ n' = n + 1 /\ (Hear \/ Tick \/ Publish \/ Adapt)
Spec == Init /\ [][Next]_vars
InOrder == \A i, j \in DOMAIN path : i < j => path[i][3] <= path[j][3]
Grows == [][Len(path') >= Len(path) /\ SubSeq(path', 1, Len(path)) = path]_vars
Frozen == kept = first /\ \A i \in DOMAIN sent : (sent[i].corr => sent[i].p = first /\ sent[i].from = "/provided_map") /\ (~sent[i].corr => sent[i].p = <<3, 0, 0>>)
=============================================================================
