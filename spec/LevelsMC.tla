------------------------------ MODULE LevelsMC ------------------------------
(* Level selection and scoped rescaling, all requests and nestings.          *)
EXTENDS Levels
CONSTANTS Base, MaxN, MaxDepth
VARIABLES n, act, scopes      \* scopes: stack of cell sizes to return to
vars == <<n, act, scopes>>
SS == Scales(Base, n)
Targets == (0 .. (Base * Pow2(MaxN))) \cup {Inf}
Init == n \in 2 .. MaxN /\ act = 1 /\ scopes = <<>>
Rescale(t) == act' = Select(SS, t) /\ UNCHANGED <<n, scopes>>
Open == Len(scopes) < MaxDepth /\ scopes' = Append(scopes, SS[act]) /\ UNCHANGED <<n, act>>
Close == scopes # <<>> /\ act' = Select(SS, scopes[Len(scopes)])
         /\ scopes' = SubSeq(scopes, 1, Len(scopes) - 1) /\ UNCHANGED n
\* levels are added before the last while the map grows; the active one stays in place
Grow == n < MaxN /\ act < n /\ n' = n + 1 /\ UNCHANGED <<act, scopes>>
Next == (\E t \in Targets : Rescale(t)) \/ Open \/ Close \/ Grow
Spec == Init /\ [][Next]_vars
Sound == /\ act \in 1 .. n
         /\ \A t \in Targets : LET i == Select(SS, t) IN AtLeast(SS[i], t) /\ \A j \in 1 .. (i - 1) : SS[j] # Inf /\ SS[j] < (IF t = Inf THEN SS[j] + 1 ELSE t)
Restores == [][(Len(scopes') < Len(scopes)) => SS'[act'] = scopes[Len(scopes)]]_vars
=============================================================================
