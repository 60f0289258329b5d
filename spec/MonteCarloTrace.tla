--------------------------- MODULE MonteCarloTrace ---------------------------
(* Monte-Carlo matching: `fails` counts the failures at the current spread,    *)
(* `n` the proposals of this matching, `lev` the halvings of the spread.       *)
(* A success after more than a third of the allowed failures halves the        *)
(* spread and clears the count; an early one changes nothing.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES started, n, fails, lev, bs, best, g, tests, first, e, l, bad
vars == <<started, n, fails, lev, bs, best, g, tests, first, e, l, bad>>
Ep == Eps[e]
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Over == fails >= Ep.fal \/ n >= Ep.tot
\* spread in 10^-6
Spread(base) == (base * 1000) \div Pow2(lev)
Around(b, p) == /\ Abs(p[1] - b[1]) <= 7 * Spread(Ep.tr) + 2
                /\ Abs(p[2] - b[2]) <= 7 * Spread(Ep.tr) + 2
                /\ Abs(p[3] - b[3]) <= 7 * Spread(Ep.rt) + 2
Fresh(b) == /\ n' = 0 /\ fails' = 0 /\ lev' = 0 /\ best' = b /\ g' = b
Draw(b, p, success) ==
   /\ n' = n + 1
   /\ IF ~success THEN fails' = fails + 1 /\ lev' = lev
      ELSE IF fails <= Ep.fal \div 3 THEN UNCHANGED <<fails, lev>>
      ELSE fails' = 0 /\ lev' = lev + 1
   /\ best' = IF success THEN p ELSE b
   /\ bad' = IF Over THEN "proposes beyond its limits"
             ELSE IF b # best THEN "not around the best pose"
             ELSE IF lev <= 12 /\ ~Around(best, p) THEN "too far from the best pose for its spread"
             ELSE IF lev <= 8 /\ p = best THEN "no sample drawn" ELSE ""
TInit == /\ e \in 1 .. Len(Eps) /\ l = 0 /\ bad = "" /\ started = FALSE /\ n = 0 /\ fails = 0 /\ lev = 0 /\ bs = 0
         /\ best = <<0, 0, 0>> /\ g = <<0, 0, 0>> /\ tests = <<>> /\ first = <<>>
Step(ev) ==
   CASE ev.op = "match" -> /\ Fresh(ev.p) /\ started' = FALSE /\ bs' = 0 /\ bad' = "" /\ UNCHANGED <<tests, first>>
     [] ev.op = "test" /\ ~started ->
          /\ started' = TRUE /\ bs' = ev.s /\ UNCHANGED <<n, fails, lev, best, g, first>> /\ tests' = Append(tests, ev.p)
          /\ bad' = IF ev.p = g THEN "" ELSE "the guess is not tested first"
     [] ev.op = "test" /\ started ->
          /\ UNCHANGED <<started, g, first>> /\ tests' = Append(tests, ev.p)
          /\ bs' = Max2(bs, ev.s) /\ Draw(best, ev.p, ev.s > bs)
     [] ev.op = "draw" -> /\ UNCHANGED <<started, bs, g, tests, first>> /\ Draw(ev.b, ev.p, ev.ok)
     [] ev.op = "stop" -> /\ UNCHANGED <<started, n, fails, lev, bs, best, g, tests, first>>
                          /\ bad' = IF Over THEN "" ELSE "stops before its limits"
     [] ev.op = "ret" -> /\ UNCHANGED <<started, n, fails, lev, bs, best, g, first>> /\ tests' = Append(tests, ev.p)
                         /\ bad' = IF ~Over THEN "stops before its limits"
                                   ELSE IF ev.s # bs THEN "not the best score"
                                   ELSE IF first # <<>> /\ (Len(tests') > Len(first) \/ tests' # SubSeq(first, 1, Len(tests')))
                                        THEN "the same seed and scores gave other proposals" ELSE ""
     [] ev.op = "twin" -> /\ first' = tests /\ tests' = <<>> /\ UNCHANGED <<started, n, fails, lev, bs, best, g>> /\ bad' = ""
     \* mean squares and means of samples over their spread, in 10^-4, at each halving
     [] ev.op = "stat" -> /\ UNCHANGED <<started, n, fails, lev, bs, best, g, tests, first>>
                          /\ bad' = IF \E d \in 1 .. 3 : Abs(ev.m[d] - 10000) > 1500 THEN "the samples do not have the spread due"
                                    ELSE IF \E d \in 4 .. 6 : Abs(ev.m[d]) > 1000 THEN "the samples are not centred" ELSE ""
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ Step(Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
