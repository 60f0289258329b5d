---------------------------- MODULE SaveLoadTrace ----------------------------
(* Real maps of real cells going through saves and loads: what a map reports *)
(* (levels, extents, cell sizes and every cell) depends on its logical state *)
(* alone.                                                                    *)
EXTENDS SaveLoad, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES memo, e, l, bad
vars == <<maps, files, memo, e, l, bad>>
Ep == Eps[e]
TInit == /\ e \in 1 .. Len(Eps) /\ l = 0 /\ bad = "" /\ memo = <<>>
         /\ maps = [m \in 1 .. Ep.nmaps |-> None] /\ files = [f \in 1 .. Ep.nfiles |-> <<>>]
Key(M, m) == <<M[m].hist, M[m].lvl>>
Act(ev) == CASE ev.op = "new"   -> New(ev.m, <<"new", ev.how>>)
             [] ev.op = "write" -> Write({ev.ms[i] : i \in DOMAIN ev.ms}, <<ev.kind, ev.c, ev.tok>>)
             [] ev.op = "level" -> Level(ev.m, ev.k)
             [] ev.op = "save"  -> Save(ev.m, ev.f)
             [] ev.op = "load"  -> Load(ev.m, ev.f)
Live(M) == {m \in DOMAIN M : M[m].live}
Judge(M, rep) ==
   IF \E m \in Live(M) : Key(M, m) \in DOMAIN memo /\ memo[Key(M, m)] # rep[m]
   THEN "a map reports something else than it (or the map it was loaded from) did in this state"
   ELSE IF \E a, b \in Live(M) : Key(M, a) = Key(M, b) /\ rep[a] # rep[b] THEN "maps in the same state differ"
   ELSE ""
Step(ev) == /\ Act(ev)
            /\ LET L == Live(maps')
                   K == {Key(maps', m) : m \in L}
                   N == [k \in K |-> ev.rep[CHOOSE m \in L : Key(maps', m) = k]]
               IN memo' = N @@ memo
            /\ bad' = Judge(maps', ev.rep)
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ Step(Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
