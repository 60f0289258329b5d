---------------------------- MODULE MatcherTrace ----------------------------
(* The contract of a scan matcher towards its caller and its observers.       *)
(* A matching is a log of reports: start, test and update of the guess, then  *)
(* a test per proposal, each immediately followed by an update exactly when   *)
(* it beats everything tested before, and one end. Every live observer gets   *)
(* this log; nobody else gets anything. The end and the caller are given the  *)
(* first pose with the highest score.                                         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
NaN == 2000000001
VARIABLES live,      \* observers to be told
          log,       \* the reports of the running matching
          pos,       \* how many of them each observer has got
          best,      \* [p, s] best tested so far, <<>> before the guess
          m,         \* the matching: [p, n, keep, f]
          e, l, bad
vars == <<live, log, pos, best, m, e, l, bad>>
Ep == Eps[e]
Nothing == [p |-> <<0, 0, 0>>, s |-> 0]
None == [k |-> "none", p |-> <<0, 0, 0>>, s |-> 0, n |-> 0]
Range(q) == {q[i] : i \in DOMAIN q}
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b) == \A i \in 1 .. 3 : Abs(a[i] - b[i]) <= Ep.tol
Better(a, b) == a # NaN /\ b # NaN /\ a > b
TInit == /\ e \in 1 .. Len(Eps) /\ l = 0 /\ bad = "" /\ live = {} /\ log = <<>> /\ pos = <<>>
         /\ best = Nothing /\ m = [p |-> <<0, 0, 0>>, n |-> 0, keep |-> 0, f |-> 0]
Last == IF log = <<>> THEN None ELSE log[Len(log)]
Rec(ev) == [k |-> ev.op, p |-> ev.p, s |-> ev.s, n |-> ev.n]
Tests == {i \in DOMAIN log : log[i].k = "test"}
\* is r allowed as the next entry of the log?
Fits(r) ==
   CASE r.k = "start" -> IF log = <<>> /\ r.p = m.p /\ r.n = m.n THEN "" ELSE "start"
     [] r.k = "test" ->
          IF ~(Last.k \in {"start", "test", "upd"}) THEN "test outside a matching"
          ELSE IF Last.k = "test" /\ (Better(Last.s, best.s) \/ Tests = {Len(log)}) THEN "an improvement was not reported"
          ELSE IF Tests = {} /\ (r.p # m.p \/ r.s # m.f) THEN "the guess is not tested first"
          ELSE IF r.n # m.keep THEN "the scan tested is not the filtered one" ELSE ""
     [] r.k = "upd" ->
          IF Last.k = "test" /\ r.p = Last.p /\ r.s = Last.s /\ r.n = m.keep /\ (Tests = {Len(log)} \/ Better(r.s, best.s))
          THEN "" ELSE "an update that is no improvement"
     [] r.k = "end" ->
          IF ~(Last.k \in {"test", "upd"}) THEN "end outside a matching"
          ELSE IF Last.k = "test" /\ (Better(Last.s, best.s) \/ Tests = {Len(log)}) THEN "an improvement was not reported"
          ELSE IF r.s # best.s \/ ~Near(r.p, [i \in 1 .. 3 |-> best.p[i] - m.p[i]]) THEN "the end does not report the best pose"
          ELSE IF r.n # m.keep THEN "the scan matched is not the filtered one" ELSE ""
Report(ev) ==
   /\ UNCHANGED <<live, m>>
   /\ IF ev.o \notin live THEN bad' = "a dropped observer was called" /\ UNCHANGED <<log, pos, best>>
      ELSE /\ pos' = [pos EXCEPT ![ev.o] = @ + 1]
           /\ IF pos[ev.o] < Len(log)
              THEN /\ bad' = IF log[pos'[ev.o]] = Rec(ev) THEN "" ELSE "observers are told different things"
                   /\ UNCHANGED <<log, best>>
              ELSE /\ bad' = IF "f" \in DOMAIN ev /\ ev.f # ev.s THEN "the reported score is not the pose's" ELSE Fits(Rec(ev))
                   /\ log' = Append(log, Rec(ev))
                   /\ best' = IF ev.op = "upd" THEN [p |-> ev.p, s |-> ev.s] ELSE best
Step(ev) ==
   CASE ev.op = "match" -> /\ live' = Range(ev.live) /\ log' = <<>> /\ pos' = [o \in Range(ev.live) |-> 0]
                           /\ best' = Nothing /\ m' = [p |-> ev.p, n |-> ev.n, keep |-> ev.keep, f |-> ev.f] /\ bad' = ""
     [] ev.op = "ret" ->
          /\ UNCHANGED <<live, log, pos, best, m>>
          /\ bad' = IF ev.again # ev.s THEN "scoring the returned pose again differs"
                    ELSE IF m.f # NaN /\ (ev.s = NaN \/ ev.s < m.f) THEN "worse than the guess"
                    ELSE IF live = {} THEN ""
                    ELSE IF Last.k # "end" THEN "the end was not reported"
                    ELSE IF \E o \in live : pos[o] # Len(log) THEN "an observer was not told everything"
                    ELSE IF ev.s # Last.s \/ ev.p # Last.p THEN "the returned result is not the reported one" ELSE ""
     [] OTHER -> Report(ev)
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ Step(Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
