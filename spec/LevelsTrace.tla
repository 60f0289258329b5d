---------------------------- MODULE LevelsTrace ----------------------------
(* Level selection, scoped rescaling and access to the active level (C04).   *)
EXTENDS Levels, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES lv,      \* sequence of levels: [scale, ext, cells: coordinate -> log]
          act,     \* the active level
          scope,   \* cell size to return to, or 0 when no scope is open
          e, l, bad
vars == <<lv, act, scope, e, l, bad>>
Ep == Eps[e]

InExt(c, x) == /\ x[1] <= c[1] /\ c[1] < x[1] + x[3]
               /\ x[2] <= c[2] /\ c[2] < x[2] + x[4]
Covers(x, y) == /\ x[1] <= y[1] /\ y[1] + y[3] <= x[1] + x[3]
                /\ x[2] <= y[2] /\ y[2] + y[4] <= x[2] + x[4]
Log(s, c) == IF c \in DOMAIN s.cells THEN s.cells[c] ELSE <<>>
GrowOK(old, new, c) == IF InExt(c, old) THEN new = old ELSE Covers(new, old) /\ InExt(c, new)

TInit == /\ e \in 1 .. Len(Eps) /\ l = 0 /\ bad = ""
         /\ lv = <<>> /\ act = 1 /\ scope = 0

SizeOf(s) == IF s = Inf THEN Inf ELSE IF s > 67108864 THEN 1073741824 ELSE s * 16   \* targets are recorded 16 times finer (none is that large)
TheScales(L) == [k \in DOMAIN L |-> SizeOf(L[k].scale)]

\* a level not yet looked at has an unknown extent (ext = <<>>)
Blank(n) == [k \in 1 .. n |-> [scale |-> ScaleOf(Ep.base, k, n), ext |-> <<>>, cells |-> <<>>]]
\* In the matching map a write may add levels before the last one.
WithLevels(L, n) == IF n = Len(L) THEN L
   ELSE [k \in 1 .. n |-> IF k < Len(L) THEN L[k]
                          ELSE IF k = n THEN L[Len(L)]
                          ELSE [scale |-> ScaleOf(Ep.base, k, n), ext |-> <<>>, cells |-> <<>>]]
\* what the active level reports, given the expected active level s
Judge(L, a, o) ==
   LET s == L[a] IN
   IF o.n # Len(L) \/ o.coarse # Len(L) - 1 \/ o.fine # 0 THEN "number of levels"
   ELSE IF o.id # a - 1 THEN "active level"
   ELSE IF o.scale # s.scale THEN "cell size of the active level"
   ELSE IF s.ext # <<>> /\ o.ext # s.ext THEN "extent of the active level"
   ELSE IF ~o.has THEN "availability of a cell"
   ELSE IF (~Ep.m3 \/ a = 1) /\ \E i \in DOMAIN Ep.probes : o.reads[i] # Log(s, Ep.probes[i])
        THEN "content of the active level"
   ELSE ""

Fix(L, a, o) == [L EXCEPT ![a].ext = o.ext]

WriteStep(L, p, g, o) ==
   LET c == Ep.probes[p]
       L1 == [L EXCEPT ![act].cells = (c :> g) @@ L[act].cells, ![act].ext = o.ext]
       L2 == IF o.n >= Len(L1) THEN WithLevels(L1, o.n) ELSE L1   \* levels are added when a coarse one outgrows the next
       \* in the matching map coarser levels may grow with a write
       L3 == IF Ep.m3 THEN [k \in DOMAIN L2 |-> IF k = 1 THEN L2[k] ELSE [L2[k] EXCEPT !.ext = <<>>]] ELSE L2
   IN /\ lv' = L3 /\ act' = act /\ scope' = scope
      /\ bad' = IF L[act].ext # <<>> /\ ~GrowOK(L[act].ext, o.ext, c) THEN "growth" ELSE Judge(L3, act, o)

CellsOf(s) == {s.cells[i] : i \in DOMAIN s.cells}
\* every level of a new map covers the finest one (in finest cells)
Spanned(S) == \A k \in DOMAIN S : S[k].scale # Inf =>
   LET r == S[k].scale \div S[1].scale
       x == S[k].ext
   IN Covers(<<x[1] * r, x[2] * r, x[3] * r, x[4] * r>>, S[1].ext)
JudgeSurvey(S) ==
   IF l = 1 /\ ~Spanned(S) THEN "a level of a new map does not cover it"
   ELSE IF Len(S) # Len(lv) THEN "number of levels"
   ELSE IF \E k \in DOMAIN S : S[k].scale # lv[k].scale THEN "cell sizes of the levels"
   ELSE IF \E k \in DOMAIN S : lv[k].ext # <<>> /\ S[k].ext # lv[k].ext THEN "extent of a level"
   ELSE IF \E k \in DOMAIN S : k > 1 /\ k >= Len(S) - 1 /\ (S[k].ext[3] > 2 \/ S[k].ext[4] > 2) THEN "levels end before one all-covering cell"
   ELSE IF S[Len(S)].ext # <<0, 0, 1, 1>> THEN "coarsest level is not one cell"
   ELSE IF \E k \in DOMAIN S : (~Ep.m3 \/ k = 1) /\
             ({<<<<q[1], q[2]>>, q[5]>> : q \in CellsOf(S[k])} # {<<c, lv[k].cells[c]>> : c \in DOMAIN lv[k].cells})
        THEN "content of a level"
   ELSE IF \E k \in DOMAIN S : S[k].odd # 0 THEN "unknown cells changed"
   ELSE ""

RECURSIVE After(_, _)
After(ts, a) == IF ts = <<>> THEN a ELSE After(Tail(ts), Select(TheScales(lv), Head(ts)))

Step(ev) ==
   LET o == ev.obs IN
   CASE ev.op = "new" ->
          LET L == Fix(Blank(o.n), 1, o) IN
          /\ lv' = L /\ act' = 1 /\ scope' = 0
          /\ bad' = IF o.ext # <<-(Ep.w \div 2), -(Ep.h \div 2), Ep.w, Ep.h>> THEN "extent" ELSE Judge(L, 1, o)
     [] ev.op = "rescale" ->
          LET a == Select(TheScales(lv), ev.target) IN
          /\ act' = a /\ lv' = Fix(lv, a, o) /\ scope' = scope /\ bad' = Judge(lv, a, o)
     [] ev.op = "setid" ->
          LET a == ev.level + 1 IN
          /\ act' = a /\ lv' = Fix(lv, a, o) /\ scope' = scope /\ bad' = Judge(lv, a, o)
     [] ev.op = "scoped" ->
          LET a == After(ev.targets, act)
              ok == \A i \in DOMAIN ev.targets : ev.got[i] = lv[Select(TheScales(lv), ev.targets[i])].scale
              c == Ep.probes[ev.p]
              L0 == [lv EXCEPT ![a].cells = (c :> Append(Log(lv[a], c), ev.v)) @@ lv[a].cells, ![a].ext = o.ext]
              L1 == IF ev.p = 0 THEN Fix(lv, a, o)
                    ELSE IF o.n >= Len(L0) THEN WithLevels(L0, o.n) ELSE L0
          IN /\ scope' = lv[act].scale /\ act' = a /\ lv' = L1
             /\ bad' = IF ~ok THEN "cell size inside the scope"
                       ELSE IF ev.p = 0 THEN Judge(lv, a, o) ELSE Judge(L1, a, o)
     [] ev.op = "unscoped" ->
          LET a == CHOOSE i \in DOMAIN lv : lv[i].scale = scope IN
          /\ scope' = 0 /\ act' = a /\ lv' = Fix(lv, a, o)
          /\ bad' = IF o.scale # scope THEN "cell size not restored" ELSE Judge(lv, a, o)
     [] ev.op = "write_rescale" ->   \* what the write grew is there for the rescale; back: the size is then restored
          LET c == Ep.probes[ev.p]
              L1 == [lv EXCEPT ![act].cells = (c :> Append(Log(lv[act], c), ev.v)) @@ lv[act].cells]
              L2 == IF o.n >= Len(L1) THEN WithLevels(L1, o.n) ELSE L1
              L3 == [k \in DOMAIN L2 |-> [L2[k] EXCEPT !.ext = <<>>]]
              a == IF ev.back THEN CHOOSE i \in DOMAIN L3 : L3[i].scale = lv[act].scale
                   ELSE Select(TheScales(L3), ev.target)
          IN /\ act' = a /\ scope' = scope /\ lv' = Fix(L3, a, o) /\ bad' = Judge(L3, a, o)
     [] ev.op = "update" -> WriteStep(lv, ev.p, Append(Log(lv[act], Ep.probes[ev.p]), ev.v), o)
     [] ev.op = "reset"  -> WriteStep(lv, ev.p, <<ev.v>>, o)
     [] ev.op = "survey" ->
          /\ act' = act /\ scope' = scope /\ lv' = [k \in DOMAIN lv |-> [lv[k] EXCEPT !.ext = IF k \in DOMAIN ev.levels THEN ev.levels[k].ext ELSE <<>>]]
          /\ bad' = IF JudgeSurvey(ev.levels) # "" THEN JudgeSurvey(ev.levels) ELSE Judge(lv, act, o)

TNext == /\ l < Len(Ep.ev) /\ bad = ""
         /\ l' = l + 1 /\ e' = e
         /\ Step(Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
