----------------------------- MODULE BeliefTrace -----------------------------
(* Belief masses <<unknown, empty, occupied, conflict>>, reported of 10^6.   *)
(* An observation (p/16, q/8, eq/8) has masses of 1024:                      *)
(*   empty (16-p) q eq, occupied p q eq, unknown the rest.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES b, occ, known, e, l, bad
vars == <<b, occ, known, e, l, bad>>
Ep == Eps[e]
Abs(x) == IF x < 0 THEN -x ELSE x
M == 1000000
Consistent == 4
Credibilist == 6
TInit == e \in 1 .. Len(Eps) /\ l = 0 /\ bad = "" /\ b = <<M, 0, 0, 0>> /\ occ = 0 /\ known = FALSE
\* observation masses of 1024
OE(o) == (16 - o.p) * o.q * o.eq
OO(o) == o.p * o.q * o.eq
OU(o) == 1024 - OE(o) - OO(o)
Valid(o) == o.bad = 0
\* unnormalised conjunctive combination of reported masses (of 10^6 / 16 to stay in 32 bits) and an observation;
\* result of 64 * 10^6
C(x) == x \div 16
CU(o) == C(b[1]) * OU(o)
CE(o) == C(b[2]) * OU(o) + C(b[1]) * OE(o) + C(b[2]) * OE(o)
CO(o) == C(b[3]) * OU(o) + C(b[1]) * OO(o) + C(b[3]) * OO(o)
W(o) == CU(o) + CE(o) + CO(o)
TotalContradiction(o) == (b[2] = M /\ OO(o) = 1024) \/ (b[3] = M /\ OE(o) = 1024)
\* r (of 10^6) equals x / w up to the rounding of what was reported; x, w of 64 * 10^6
Close(r, x, w) == Abs((r \div 100) * (w \div 640) - (x \div 640) * 10000) <= 80000 + 3 * (w \div 640)
Probability(m) == /\ \A i \in 1 .. 4 : 0 <= m[i] /\ m[i] <= M
                  /\ Abs(m[1] + m[2] + m[3] + m[4] - M) <= 3
                  /\ m[4] = 0
OccOK(m, o8, q8) ==       \* reported occupancy and quality of 10^8
   LET q == m[2] + m[3] IN
   /\ 0 <= o8 /\ o8 <= 100 * M /\ 0 <= q8 /\ q8 <= 100 * M
   /\ IF Ep.kind = Consistent
      THEN /\ Abs(q8 \div 100 - q) <= 3
           /\ q > 100 => Abs((o8 \div 100000) * (q \div 10) - m[3] * 100) <= (q \div 10) * 2 + 4000
      ELSE /\ Abs(o8 \div 100 - (m[3] + m[1] \div 2)) <= 3 /\ q8 = 100 * M
Common(kn, ev) == IF ev.unk = kn THEN "known/unknown"
                  ELSE IF ~Probability(ev.b) THEN "masses are not a distribution without conflict"
                  ELSE IF ev.dbl # ev.occ THEN "occupancy views disagree"
                  ELSE IF kn /\ ~OccOK(ev.b, ev.occ, ev.qual) THEN "occupancy derived from the masses"
                  ELSE ""
Combined(ev) ==
   IF ~Valid(ev) THEN (IF ev.b = b /\ ev.occ = occ THEN "" ELSE "an invalid observation changed the cell")
   ELSE IF TotalContradiction(ev) THEN (IF ev.b = <<M, 0, 0, 0>> THEN "" ELSE "total contradiction")
   ELSE IF OU(ev) = 1024 /\ \E i \in 1 .. 3 : Abs(ev.b[i] - b[i]) > 1 THEN "ignorance changed the belief"
   ELSE IF ~(Close(ev.b[1], CU(ev), W(ev)) /\ Close(ev.b[2], CE(ev), W(ev)) /\ Close(ev.b[3], CO(ev), W(ev)))
        THEN "not the conjunctive combination" ELSE ""
\* How far the cell is from an observation d = <<p, q, x, y, answer, eq>>, in 10^-6.
\* Credibilist: what the cell and the observation do not both hold for occupied.
\* The others: half of the ignorance of the two, and the rest of it for conflict and
\* difference in occupied mass.
Ob(d) == [p |-> d[1], q |-> d[2], eq |-> d[6]]
P(m, n) == ((m \div 8) * n) \div 128            \* a mass of 10^6 times one of 1024
Distance(d) ==
   LET o == Ob(d) IN
   IF Ep.kind = Credibilist THEN M - P(b[3], OO(o))
   ELSE LET uT == b[1] + P(M, OU(o))                                   \* of 10^6, up to 2
            cf == P(b[2], OO(o)) + P(b[3], OE(o)) + Abs(P(M, OO(o)) - b[3])
        IN uT \div 4 + ((((2 * M - uT) \div 100) * (cf \div 100)) \div 400)
Step(ev) ==
   CASE ev.op = "new"  -> /\ b' = ev.b /\ occ' = ev.occ /\ known' = FALSE
                          /\ bad' = IF ev.b # <<M, 0, 0, 0>> \/ ev.occ # 50 * M THEN "prior" ELSE Common(FALSE, ev)
     [] ev.op = "obs"  -> /\ b' = ev.b /\ occ' = ev.occ /\ known' = (known \/ Valid(ev))
                          /\ bad' = IF Combined(ev) # "" THEN Combined(ev) ELSE Common(known', ev)
     [] ev.op = "disc" -> /\ UNCHANGED <<b, occ, known>>
                          /\ bad' = IF ev.b # b \/ ev.occ # occ THEN "asking changed the cell"
                                    ELSE IF \E i \in DOMAIN ev.ds : ev.ds[i][5] < 0 \/ ev.ds[i][5] > M
                                         THEN "discrepancy out of [0, 1]"
                                    ELSE IF \E i \in DOMAIN ev.ds : Abs(ev.ds[i][5] - Distance(ev.ds[i])) > 300
                                         THEN "discrepancy is not the one of the masses" ELSE ""
     \* b is certain of one side; what contradicts it, but not totally, leaves it certain
     [] ev.op = "sharp" -> /\ UNCHANGED <<b, occ, known>>
                           /\ bad' = IF ev.b # (IF ev.side = 0 THEN <<0, M, 0, 0>> ELSE <<0, 0, M, 0>>) THEN "near contradiction" ELSE ""
     [] ev.op = "perm" -> /\ UNCHANGED <<b, occ, known>>
                          /\ bad' = IF \E i \in DOMAIN ev.a : Abs(ev.a[i] - ev.b[i]) > 3 THEN "depends on order" ELSE ""
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ Step(Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
