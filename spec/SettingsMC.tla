----------------------------- MODULE SettingsMC -----------------------------
(* All pairs of small files (the first may include the second) and orders of appending them. *)
EXTENDS Settings
CONSTANTS N
VARIABLES fa, fb, props, done
Keys == {"x", "y"}
Sets == [t : {"set"}, k : Keys, v : {1, 2}]
Other == [t : {"noise"}]
Inc == {[t |-> "inc", p |-> <<"..", "d", "b">>]}
Upto(S) == UNION {[1 .. n -> S] : n \in 0 .. N}
Init == fa \in Upto(Sets \cup Other \cup Inc) /\ fb \in Upto(Sets) /\ props = Nothing /\ done = <<>>
Files == <<[path |-> <<"c", "a">>, lines |-> fa], [path |-> <<"d", "b">>, lines |-> fb]>>
Do(w) == /\ Len(done) < 2 /\ done' = Append(done, w) /\ UNCHANGED <<fa, fb>>
         /\ props' = CASE w = "a" -> AppendFile(Files, props, <<"c", "a">>)
                       [] w = "b" -> AppendFile(Files, props, <<"d", "b">>)
                       [] w = "none" -> AppendFile(Files, props, <<"d", "a">>)
                       [] w = "set" -> Put(props, "x", 3)
Next == \E w \in {"a", "b", "none", "set"} : Do(w)
vars == <<fa, fb, props, done>>
Spec == Init /\ [][Next]_vars
Includes(f) == \E i \in DOMAIN f : f[i].t = "inc"
Says(f, k) == {i \in DOMAIN f : f[i].t = "set" /\ f[i].k = k}
LastSaid(f, k) == f[CHOOSE i \in Says(f, k) : \A j \in Says(f, k) : j <= i].v
\* only said settings are known, with a value some line gave them
Source == \A k \in DOMAIN props : props[k] = 3 \/ Says(fa, k) \cup Says(fb, k) # {}
\* an inclusion anywhere in a file defines before the file itself does
IncludedFirst == done = <<"a">> => \A k \in Keys :
  IF Includes(fa) /\ Says(fb, k) # {} THEN props[k] = LastSaid(fb, k)
  ELSE IF Says(fa, k) # {} THEN props[k] = LastSaid(fa, k) ELSE k \notin DOMAIN props
Kept == [][\A k \in DOMAIN props : k \in DOMAIN props' /\ (props'[k] = props[k] \/ props'[k] = 3)]_vars
Idempotent == \A w \in {<<"c", "a">>, <<"d", "b">>} :
  AppendFile(Files, AppendFile(Files, props, w), w) = AppendFile(Files, props, w)
=============================================================================
