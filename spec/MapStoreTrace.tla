---------------------------- MODULE MapStoreTrace ----------------------------
(* Every recorded operation on the real maps has to be a MapStore step whose *)
(* result is what all live maps report afterwards.                           *)
EXTENDS MapStore, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, l, bad
tvars == <<store, e, l, bad>>

Ep == Eps[e]
Probe(i) == Ep.probes[i]
AsLog(v) == IF v = 0 THEN <<>> ELSE <<v>>

TInit == /\ e \in 1 .. Len(Eps)
         /\ l = 0 /\ bad = ""
         /\ store = [m \in 1 .. Eps[e].nmaps |-> Dead]

\* the first thing a map reports that differs from the model
Wrong(s, o) ==
   IF s.live # o.live THEN "existence"
   ELSE IF ~s.live THEN ""
   ELSE IF o.ext # s.ext THEN "extent"
   ELSE IF o.scale # s.scale THEN "cell size"
   ELSE IF \E i \in DOMAIN Ep.probes : (Ep.unbounded \/ InExt(Probe(i), s.ext)) /\ o.reads[i] # Log(s, Probe(i))
        THEN "content of a cell"
   ELSE IF \E i \in DOMAIN Ep.probes : (o.has[i] = 1) # (Ep.unbounded \/ InExt(Probe(i), s.ext))
        THEN "availability of a cell"
   ELSE IF o.known # -1 /\ o.known # Cardinality(Known(s)) THEN "number of known cells"
   ELSE ""
Judge(obs) ==
   LET W == {m \in DOMAIN store : Wrong(store'[m], obs[m]) # ""}
   IN IF W = {} THEN "" ELSE LET m == CHOOSE k \in W : TRUE IN
        "map " \o ToString(m) \o ": " \o Wrong(store'[m], obs[m])

ExtOK(ev, c) == /\ GrowOK(store[ev.m].ext, ev.obs[ev.m].ext, c)
                /\ Ep.unbounded \/ ev.obs[ev.m].ext = store[ev.m].ext

Step(ev) ==
   CASE ev.op = "new"    -> /\ New(ev.m, <<-(Ep.w \div 2), -(Ep.h \div 2), Ep.w, Ep.h>>, Ep.scale)
                            /\ bad' = Judge(ev.obs)
     [] ev.op = "update" -> IF ExtOK(ev, Probe(ev.p))
                            THEN Update(ev.m, Probe(ev.p), ev.v, ev.obs[ev.m].ext) /\ bad' = Judge(ev.obs)
                            ELSE store' = store /\ bad' = "growth"
     [] ev.op = "reset"  -> IF ExtOK(ev, Probe(ev.p))
                            THEN Reset(ev.m, Probe(ev.p), AsLog(ev.v), ev.obs[ev.m].ext) /\ bad' = Judge(ev.obs)
                            ELSE store' = store /\ bad' = "growth"
     [] ev.op \in {"copy", "assign", "load"} -> Become(ev.m, ev.from) /\ bad' = Judge(ev.obs)
     [] ev.op = "drop"   -> Drop(ev.m) /\ bad' = Judge(ev.obs)

TNext == /\ l < Len(Ep.ev) /\ bad = ""
         /\ l' = l + 1 /\ e' = e
         /\ Step(Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_tvars
Ok == bad = ""
=============================================================================
