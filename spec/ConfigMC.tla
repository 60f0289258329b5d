------------------------------ MODULE ConfigMC ------------------------------
(* Editing a configuration key by key, for every factory: laws of what a configuration means. *)
EXTENDS Config
CONSTANT Depth
VARIABLES f, i, p, n
vars == <<f, i, p, n>>
Entry == Menu[f][i]
Init == f \in DOMAIN Menu /\ i \in DOMAIN Menu[f] /\ p = Menu[f][i].base /\ n = 0
Set == \E k \in DOMAIN Entry.keys : \E v \in Entry.keys[k] : p' = (k :> v) @@ p
Unset == \E k \in DOMAIN p : p' = [x \in DOMAIN p \ {k} |-> p[x]]
Next == n < Depth /\ n' = n + 1 /\ (Set \/ Unset) /\ UNCHANGED <<f, i>>
Spec == Init /\ [][Next]_vars
Meaning == Means(f, p)
\* a key of no part in the factory changes nothing; "another" key neither
Foreign == \A k \in {"slam/other", "scmtch/type", "in/lscan2D/ros/topic/name"} : Means(f, (k :> "x") @@ p) = Meaning
\* setting one key changes at most one word, unless it selects a component
Selecting == {T("type"), T("oope/type"), T("spe/type"), T("use_amb_drift_detector"), "slam/map/meters_per_cell"}
Local == LET m == Meaning IN m = Refused \/ \A k \in DOMAIN Entry.keys \ Selecting : \A v \in Entry.keys[k] :
  LET q == Means(f, (k :> v) @@ p) IN
  q = Refused \/ (Len(q) = Len(m) /\ (k = T("oie/type") \/ Cardinality({a \in DOMAIN q : q[a] # m[a]}) <= 1))
\* nothing is replaced silently: a name that is not known is refused
Unknown == {"bogus", "EVEN", "average", "", "tbm", "none", "tiled", "hc", "IDLE", "Occupancy"}
Used(k) == k \in DOMAIN p /\ p[k] \in Unknown
Read(k) == IF k = T("oie/type") THEN f # "map" \/ MatcherType(p) = "BF_M3RSM"
           ELSE IF k = "slam/mapping/grid/area/type" THEN f # "credibilist" ELSE TRUE
Refuses == (\E k \in DOMAIN p : Used(k) /\ Read(k)) => Meaning = Refused
\* no word comes out of nowhere
Whole == Meaning = Refused \/ \A w \in DOMAIN Meaning : Meaning[w] # ""
=============================================================================
