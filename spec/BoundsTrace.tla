----------------------------- MODULE BoundsTrace -----------------------------
(* Coarse cells of a matching map bound the finest cells inside them (C05).  *)
EXTENDS Levels, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES cur,     \* finest cell -> its current impact (known cells only)
          top,     \* finest cell -> the largest impact it has ever had
          e, l, bad
vars == <<cur, top, e, l, bad>>
Ep == Eps[e]
TInit == e \in 1 .. Len(Eps) /\ l = 0 /\ bad = "" /\ cur = <<>> /\ top = <<>>

Get(f, c) == IF c \in DOMAIN f THEN f[c] ELSE -1
Judge(S) ==
   LET n == Len(S)
       at(k) == [x \in {<<S[k].cells[i][1], S[k].cells[i][2]>> : i \in DOMAIN S[k].cells} |->
                   LET i == CHOOSE j \in DOMAIN S[k].cells : <<S[k].cells[j][1], S[k].cells[j][2]>> = x IN S[k].cells[i]]
       Lvl(k) ==
          LET A == at(k)
              K == DOMAIN A
              P == {Coarse(c, k, n) : c \in DOMAIN cur'}
          IN IF \E x \in P : x \notin K THEN "an unknown coarse cell contains a known one"
             ELSE IF \E x \in K : x \notin P THEN "a known coarse cell contains no known one"
             ELSE IF \E c \in DOMAIN cur' : A[Coarse(c, k, n)][3] < cur'[c] THEN "a coarse cell under-estimates"
             ELSE IF \E x \in K : A[x][3] > Max({top'[c] : c \in {d \in DOMAIN top' : Coarse(d, k, n) = x}})
                  THEN "a coarse cell exceeds everything ever inside it"
             ELSE IF S[k].odd # 0 THEN "the impact of unknown cells changed"
             ELSE ""
       F == at(1)
   IN IF DOMAIN F # DOMAIN cur' \/ \E c \in DOMAIN cur' : F[c][3] # cur'[c] THEN "finest level"
      ELSE LET W == {k \in 2 .. n : Lvl(k) # ""} IN
           IF W = {} THEN "" ELSE LET k == CHOOSE j \in W : TRUE IN "level " \o ToString(k) \o ": " \o Lvl(k)

Step(ev) == /\ ev.op = "write"
            /\ cur' = (ev.c :> ev.imp) @@ cur
            /\ top' = (ev.c :> (IF ev.imp > Get(top, ev.c) THEN ev.imp ELSE top[ev.c])) @@ top
            /\ bad' = IF ~ev.survey THEN ""
                      ELSE IF Judge(ev.levels) # "" THEN Judge(ev.levels)
                      ELSE IF ~ev.valid THEN "self-validation fails" ELSE ""
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ Step(Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
