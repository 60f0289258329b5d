---------------------------- MODULE MonteCarloMC ----------------------------
EXTENDS Integers
CONSTANTS Fal, Tot
VARIABLES n, fails, lev, streak
vars == <<n, fails, lev, streak>>
Init == n = 0 /\ fails = 0 /\ lev = 0 /\ streak = 0
Next == /\ fails < Fal /\ n < Tot /\ n' = n + 1
        /\ \/ fails' = fails + 1 /\ lev' = lev /\ streak' = streak + 1
           \/ /\ streak' = 0
              /\ IF fails <= Fal \div 3 THEN UNCHANGED <<fails, lev>> ELSE fails' = 0 /\ lev' = lev + 1
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Bounded == n <= Tot /\ fails <= Fal /\ streak <= Fal
Ends == <>(fails = Fal \/ n = Tot)
HalvingsCost == lev * (Fal \div 3 + 2) <= n
=============================================================================
