-------------------------------- MODULE Helpers --------------------------------
(* The helper nodes. The path publisher sends the way gone so far: whenever    *)
(* the robot's place in the map frame is known, it is appended with its time   *)
(* (the latest one all links of the chain have been heard at) and the whole    *)
(* path is sent. The adapter of recorded drives forwards every transform but   *)
(* the recorded corrections from map to odometry: the first of them is kept,   *)
(* and sent as that from the provided map to the map in place of each; the     *)
(* provided grid is sent over and over in the provided map's frame.            *)
EXTENDS Integers, Sequences, FiniteSets
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Turn(v, q) == CASE q % 4 = 0 -> v [] q % 4 = 1 -> <<-v[2], v[1]>> [] q % 4 = 2 -> <<-v[1], -v[2]>> [] q % 4 = 3 -> <<v[2], -v[1]>>
Then(a, b) == LET t == Turn(b, a[3]) IN <<a[1] + t[1], a[2] + t[2], (a[3] + b[3]) % 4>>
\* heard: for each link the set of what came, as [t, p]; a later record of a time replaces an earlier one
Put(rs, t, p) == {r \in rs : r.t # t} \cup {[t |-> t, p |-> p]}
Latest(rs) == Max({r.t : r \in rs})
Known(heard) == \A i \in DOMAIN heard : heard[i] # {}
Common(heard) == Min({Latest(heard[i]) : i \in DOMAIN heard})
Exact(heard) == \A i \in DOMAIN heard : \E r \in heard[i] : r.t = Common(heard)
At(rs, t) == (CHOOSE r \in rs : r.t = t).p
Place(heard) == LET t == Common(heard) IN IF Len(heard) = 1 THEN At(heard[1], t) ELSE Then(At(heard[1], t), At(heard[2], t))
Grown(path, heard) == Append(path, <<Place(heard)[1], Place(heard)[2], Common(heard)>>)
\* the adapter: what is kept, and what is due for a message
NONE == <<>>
Kept(kept, c) == IF kept # NONE \/ ~c.corr THEN kept ELSE c.p
Due(kept, c) == IF c.corr THEN [from |-> "/provided_map", to |-> "/map", p |-> Kept(kept, c), t |-> c.t, corr |-> TRUE]
                ELSE [from |-> c.from, to |-> c.to, p |-> c.p, t |-> c.t, corr |-> FALSE]
RECURSIVE Dues(_, _, _)
Dues(kept, in, i) == IF i > Len(in) THEN <<>> ELSE <<Due(kept, in[i])>> \o Dues(Kept(kept, in[i]), in, i + 1)
RECURSIVE After(_, _, _)
After(kept, in, i) == IF i > Len(in) THEN kept ELSE After(Kept(kept, in[i]), in, i + 1)
=============================================================================
