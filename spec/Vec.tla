-------------------------------- MODULE Vec --------------------------------
(* Poses, moves and points as vectors <<x, y, heading>> or <<x, y>> of numbers; a heading adds up without wrapping. Comparison of numbers
   is tolerant: numbers are given as a base and a difference d in tenths of the tolerance, so |d| < 10 is equal and |d| > 10 is not. *)
EXTENDS Integers, Sequences, FiniteSets
Plus(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
Minus(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
Neg(a) == [i \in DOMAIN a |-> -a[i]]
Times(k, a) == [i \in DOMAIN a |-> k * a[i]]
Mag(n) == IF n < 0 THEN -n ELSE n
Mags(a) == [i \in DOMAIN a |-> Mag(a[i])]
SqLen(a) == a[1] * a[1] + a[2] * a[2]
AllLess(a, b) == \A i \in DOMAIN a : Mag(a[i]) < Mag(b[i])
IsZero(a) == \A i \in DOMAIN a : a[i] = 0
RECURSIVE Total(_, _)
Total(zero, ds) == IF ds = <<>> THEN zero ELSE Plus(Head(ds), Total(zero, Tail(ds)))
\* tolerant comparison: "yes", "no" or "open" for a and b with b - a = d tenths of the tolerance
Tri(yes, no) == IF yes THEN "yes" ELSE IF no THEN "no" ELSE "open"
Equal(d) == Tri(Mag(d) <= 8, Mag(d) >= 12)
Less(d) == Tri(d > 0, d < 0)
LessEqual(d) == Tri(d >= -8, d <= -12)
And3(a, b) == IF a = "no" \/ b = "no" THEN "no" ELSE IF a = "yes" /\ b = "yes" THEN "yes" ELSE "open"
Fits(t, res) == t = "open" \/ (t = "yes") = res
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
Bound(l, v, r) == Max(l, Min(r, v))
RECURSIVE PowerFrom(_, _, _)
PowerFrom(n, i, p) == IF i <= p THEN p ELSE PowerFrom(n, i, p * n)
Power(n, i) == PowerFrom(n, i, 1)
\* samples of a random variable against its parameters (all in one unit): far outside of what chance does
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE IF Len(s) = 1 THEN s[1] ELSE LET h == Len(s) \div 2 IN Sum(SubSeq(s, 1, h)) + Sum(SubSeq(s, h + 1, Len(s)))
GaussFault(s, mean, sd) ==
  LET d == [i \in DOMAIN s |-> s[i] - mean]  n == Len(s) IN
  IF sd = 0 THEN \E i \in DOMAIN d : d[i] # 0
  ELSE \/ 10 * Mag(Sum(d)) > 3 * n * sd + 10 * n
       \/ LET v == Sum([i \in DOMAIN d |-> (d[i] * d[i]) \div ((sd * sd) \div 100)]) IN v < 58 * n \/ v > 155 * n
UniformFault(s, from, to) ==
  LET n == Len(s)  w == to - from IN
  \/ \E i \in DOMAIN s : s[i] < from \/ s[i] > to
  \/ w >= 100 /\ \E k \in 0 .. 3 : LET c == Cardinality({i \in DOMAIN s : 4 * (s[i] - from) >= k * w /\ 4 * (s[i] - from) <= (k + 1) * w}) IN 8 * c < n \/ 2 * c > n
=============================================================================
