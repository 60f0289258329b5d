----------------------------- MODULE ConfigTrace ----------------------------
(* What the real factories built for configurations, against Config. *)
EXTENDS Config, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, l, bad
vars == <<e, l, bad>>
Ep == Eps[e]
TInit == e \in 1 .. Len(Eps) /\ l = 0 /\ bad = ""
Verdict(ev) ==
  LET p == FunOf(ev.p) m == Means(ev.f, p) IN
  IF m # ev.want THEN "the driver was given another meaning"
  ELSE IF ev.file # "" /\ ~(DOMAIN p \subseteq Known) THEN "a shipped settings file has a key that nothing reads"
  ELSE IF ev.file # "" /\ m = Refused THEN "a shipped settings file is refused"
  ELSE CASE m = Refused /\ ev.got = "B" -> "a configuration that names something unknown was accepted"
         [] m = Refused -> IF ev.got = "R" THEN "" ELSE "refusing a configuration crashed"
         [] ev.got = "S" -> ""
         [] ev.got = "R" -> "a valid configuration was refused"
         [] ev.got = "X" -> "building crashed"
         [] OTHER -> "another thing was built than the configuration says"
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ bad' = Verdict(Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
