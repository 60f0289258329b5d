-------------------------------- MODULE Weights --------------------------------
(* Weights of a particle filter: raw weights in 1/64, reported ones in 10^-6.  *)
(* Step(ep, ev): what event ev does in a filter of ep.n particles, and in bad  *)
(* why it must not happen (WeightsMC explores what may, WeightsTrace follows   *)
(* the code).                                                                  *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES raw, bad
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Sq(q) == Sum([k \in DOMAIN q |-> q[k] * q[k]])
M == 1000000
Eff(N) == IF Sum(raw) = 0 THEN [k \in 1 .. N |-> 1] ELSE raw      \* what the weights are in proportion to
Share(w, q) == \A k \in DOMAIN q : Abs(w[k] * Sum(q) - q[k] * M) <= 2 * Sum(q)
Distribution(N, w) == /\ Len(w) = N /\ \A k \in 1 .. N : 0 <= w[k] /\ w[k] <= M
                   /\ Abs(Sum(w) - M) <= N
MustResample(N) == 2 * Sum(Eff(N)) * Sum(Eff(N)) < N * Sq(Eff(N))
\* with powers of two all quotients are exact, so a close call is none
Exact(N) == {Sum(Eff(N)), N} \subseteq {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096}
MayResample(N) == IF Exact(N) THEN MustResample(N) ELSE 2 * Sum(Eff(N)) * Sum(Eff(N)) <= N * Sq(Eff(N))
Isqrt(x) == CHOOSE k \in 0 .. 300 : k * k <= x /\ (k + 1) * (k + 1) > x
Step(ep, ev) ==
  LET N == ep.n IN
   CASE ev.op = "new" -> /\ raw' = [k \in 1 .. N |-> 1]
                         /\ bad' = IF Distribution(N, ev.w) /\ Share(ev.w, raw') THEN "" ELSE "initial weights"
     [] ev.op = "raw" -> raw' = ev.w /\ bad' = ""
     [] ev.op = "norm" -> /\ UNCHANGED raw
                          /\ bad' = IF ~Distribution(N, ev.w) THEN "normalised weights are not a distribution"
                                    ELSE IF ~Share(ev.w, Eff(N)) THEN "normalisation changed the weights' proportions" ELSE ""
     [] ev.op = "heavy" -> /\ UNCHANGED raw
                           /\ LET top == CHOOSE x \in {Eff(N)[k] : k \in 1 .. N} : \A k \in 1 .. N : Eff(N)[k] <= x IN
                              bad' = IF ev.same /\ ev.c = ev.m /\ Abs(ev.c * Sum(Eff(N)) - top * M) <= 2 * Sum(Eff(N)) THEN "" ELSE "not the heaviest"
     [] ev.op = "resample" ->
          LET got == [k \in DOMAIN ev.src |-> IF ev.src[k] \in 1 .. N THEN Eff(N)[ev.src[k]] ELSE -1] IN
          /\ UNCHANGED raw
          /\ bad' = IF ev.done /\ ~MayResample(N) THEN "resampled although enough particles are effective"
                    ELSE IF ~ev.done /\ MustResample(N) THEN "not resampled although too few particles are effective"
                    ELSE IF ~ev.done THEN (IF ev.src = [k \in 1 .. N |-> k] /\ Share(ev.w, Eff(N)) THEN "" ELSE "changed without resampling")
                    ELSE IF Len(ev.src) # N THEN "the number of particles changed"
                    ELSE IF \E k \in 1 .. N : got[k] = -1 THEN "a survivor is no particle of the previous generation"
                    ELSE IF \E k \in 1 .. N : got[k] = 0 THEN "a particle of zero weight survived"
                    ELSE IF ~ev.indiv THEN "duplicates are the same particle"
                    ELSE IF ev.sampled # N - Cardinality({ev.src[k] : k \in 1 .. N}) THEN "duplicates are not sampled anew"
                    ELSE IF ~Distribution(N, ev.w) \/ ~Share(ev.w, got) THEN "weights after resampling" ELSE ""
     [] ev.op = "stat" -> /\ UNCHANGED raw
                          /\ bad' = IF ev.tot = 0 THEN "never resampled"
                                    ELSE IF \E k \in DOMAIN ev.raw : Abs(ev.cnt[k] * 64 - ev.tot * ev.raw[k]) > 192 * (Isqrt(ev.tot) + 1)
                                    THEN "particles are not drawn in proportion to their weights" ELSE ""
================================================================================
