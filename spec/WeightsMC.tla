------------------------------ MODULE WeightsMC -------------------------------
(* All outcomes Weights admits for a few particles: it never leaves a filter    *)
(* without an outcome, and what it admits is what resampling is for.            *)
EXTENDS Weights
CONSTANTS Num, Values
VARIABLES at,        \* where in its round the filter is
          out        \* the outcome: [done, src, w], w what the weights are now, in parts of total
vars == <<raw, bad, at, out>>
Cfg == [n |-> Num]
Vectors == [1 .. Num -> Values]
Scale(q) == [k \in DOMAIN q |-> (q[k] * M) \div Sum(q)]
Reported == Scale(Eff(Num))
Off(w) == [w EXCEPT ![1] = @ + 5]       \* something slightly else
None == [done |-> FALSE, src |-> <<>>, w |-> <<>>]
Init == raw = <<>> /\ bad = "" /\ at = "new" /\ out = None
Take(ev) == Step(Cfg, ev) /\ bad' = ""
Top == CHOOSE x \in {Eff(Num)[k] : k \in 1 .. Num} : \A k \in 1 .. Num : Eff(Num)[k] <= x
New == at = "new" /\ Take([op |-> "new", w |-> [k \in 1 .. Num |-> M \div Num]]) /\ at' = "idle" /\ UNCHANGED out
Raw == at \in {"idle", "done"} /\ \E v \in Vectors : Take([op |-> "raw", w |-> v]) /\ at' = "raw" /\ out' = None
Norm == at = "raw" /\ \E w \in {Reported, Off(Reported)} : Take([op |-> "norm", w |-> w]) /\ at' = "norm" /\ UNCHANGED out
Heavy == at = "norm" /\ \E k \in 1 .. Num : /\ Take([op |-> "heavy", same |-> TRUE, c |-> Reported[k], m |-> Reported[k]])
                                           /\ at' = "heavy" /\ UNCHANGED out
Kept == [k \in 1 .. Num |-> k]
Resample == /\ at = "heavy"
            /\ \E done \in BOOLEAN, src \in [1 .. Num -> 1 .. Num], s \in 0 .. Num :
                 LET got == [k \in 1 .. Num |-> Eff(Num)[src[k]]]
                     w == IF Sum(got) = 0 THEN Reported ELSE Scale(got) IN
                 /\ Take([op |-> "resample", done |-> done, src |-> src, w |-> w, indiv |-> TRUE, sampled |-> s])
                 /\ out' = [done |-> done, src |-> src, w |-> w]
            /\ at' = "done"
Next == New \/ Raw \/ Norm \/ Heavy \/ Resample
Spec == Init /\ [][Next]_vars
Outcome == at = "done"
\* the weights are a distribution whatever happened
StaysDistribution == Outcome => /\ \A k \in 1 .. Num : out.w[k] >= 0
                                /\ Abs(Sum(out.w) - M) <= Num
\* resampled only if one particle outweighs half of the others put together: with equal weights never
EqualKept == (Outcome /\ \A i, j \in 1 .. Num : raw[i] = raw[j]) => ~out.done
\* a single particle of positive weight takes all (if it is one of three or more)
Degenerate == (Outcome /\ Num >= 3 /\ Cardinality({k \in 1 .. Num : raw[k] > 0}) = 1) =>
                 out.done /\ \A k \in 1 .. Num : raw[out.src[k]] > 0
FitSurvive == (Outcome /\ out.done) => \A k \in 1 .. Num : Eff(Num)[out.src[k]] > 0
\* scaling all weights decides nothing
ScaleFree == (at = "heavy" /\ \A k \in 1 .. Num : raw[k] <= 2) =>
               LET dbl == [k \in 1 .. Num |-> 2 * raw[k]] IN
               (2 * Sum(Eff(Num)) * Sum(Eff(Num)) < Num * Sq(Eff(Num))) =
               (Sum(dbl) # 0 /\ 2 * Sum(dbl) * Sum(dbl) < Num * Sq(dbl))
================================================================================
