---------------------------- MODULE SettingsTrace ----------------------------
(* Recorded uses of settings providers against Settings. Values are records of what a text
   means, and in which of the roles text, flag, integer, unsigned and real it means anything (a parameter a
   launch file gives a type is none of the others). Provider 0 reads files, 1 is filled directly, 2 reads
   the node's launch parameters. *)
EXTENDS Settings, Json, IOUtils, TLC
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, l, bad, props
vars == <<e, l, bad, props>>
Ep == Eps[e]
TInit == e \in 1 .. Len(Eps) /\ l = 0 /\ bad = "" /\ props = <<Nothing, Nothing, Nothing>>
Files == Ep.files
Sel(n) == n + 1
After(ev) ==
   CASE ev.op = "append" -> [props EXCEPT ![1] = AppendFile(Files, props[1], ev.path)]
     [] ev.op = "set" -> [props EXCEPT ![Sel(ev.on)] = Put(props[Sel(ev.on)], ev.k, ev.v)]
     [] ev.op = "merge" -> [props EXCEPT ![2] = AddMissing(props[2], [k \in {ev.add[i].k : i \in DOMAIN ev.add} |->
                                LET is == {i \in DOMAIN ev.add : ev.add[i].k = k} IN ev.add[CHOOSE i \in is : \A j \in is : j <= i].v])]
     [] ev.op = "fresh" -> [props EXCEPT ![Sel(ev.on)] = Nothing]
     [] OTHER -> props
Get(ev) ==
  LET m == props[Sel(ev.on)]  has == ev.k \in DOMAIN m IN
  IF ~has THEN (IF ev.s # ev.ds THEN "a missing text does not yield the default"
                ELSE IF ev.i # ev.di \/ ev.u # ev.du \/ ev.d # ev.dd THEN "a missing number does not yield the default"
                ELSE IF ev.bt # TRUE \/ ev.bf # FALSE THEN "a missing flag does not yield the default" ELSE "")
  ELSE LET v == m[ev.k] IN
    IF v.ns /\ ev.s # v.s THEN "a setting's text is not the one written"
    ELSE IF v.nb /\ (ev.bt # v.b \/ ev.bf # v.b) THEN "a flag is not the one written"
    ELSE IF v.ni /\ ev.i # v.i THEN "an integer is not the one written"
    ELSE IF v.nu /\ ev.u # v.u THEN "an unsigned number is not the one written"
    ELSE IF v.nd /\ ev.d # v.d THEN "a real number is not the one written" ELSE ""
Verdict(ev) ==
   CASE ev.op = "get" -> Get(ev)
     [] ev.op = "keys" -> IF Len(ev.keys) # Cardinality(DOMAIN props[Sel(ev.on)]) \/ {ev.keys[i] : i \in DOMAIN ev.keys} # DOMAIN props[Sel(ev.on)]
                          THEN "the known settings are others than the defined ones" ELSE ""
     [] ev.op = "has" -> IF ev.res # (ev.k \in DOMAIN props[Sel(ev.on)]) THEN "a setting's presence is misreported" ELSE ""
     [] OTHER -> ""
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e
         /\ props' = After(Ep.ev[l + 1])
         /\ bad' = Verdict(Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
