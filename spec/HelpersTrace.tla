---------------------------- MODULE HelpersTrace ----------------------------
EXTENDS Helpers, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, l, bad, heard, path, kept, due, grid, told
vars == <<e, l, bad, heard, path, kept, due, grid, told>>
Ep == Eps[e]
TInit == /\ e \in 1 .. Len(Eps) /\ l = 0 /\ bad = "" /\ heard = <<>> /\ path = <<>> /\ kept = NONE /\ due = <<>> /\ told = FALSE
         /\ grid = [what |-> 0, t |-> 0]
Ev == Ep.ev[l + 1]
Path == Ev.op = "path"
\* (between two records of a link its pose is interpolated: not looked at)
SaysPath == IF ~Known(heard) THEN "a path before the robot's place is known"
            ELSE IF ~Ev.frames THEN "not in the map frame"
            ELSE IF Len(Ev.poses) # Len(path) + 1 THEN "not one pose more than before"
            ELSE IF SubSeq(Ev.poses, 1, Len(path)) # path THEN "the way gone has changed"
            ELSE IF Ev.poses[Len(path) + 1][3] # Common(heard) \/ Ev.stamp # Common(heard) THEN "not the time of the newest pose"
            ELSE IF Exact(heard) /\ Ev.poses # Grown(path, heard) THEN "not where the robot is" ELSE ""
SaysSent == IF due = <<>> THEN "a transform out of nothing"
            ELSE LET d == Head(due)
                 IN IF Ev.from # d.from \/ Ev.to # d.to THEN "not the transform due"
                    ELSE IF Ev.p # d.p THEN IF d.corr THEN "not the first correction" ELSE "the transform has changed"
                    ELSE IF ~d.corr /\ Ev.t # d.t THEN "the transform's time has changed" ELSE ""
SaysGrid == IF grid.what = 0 THEN IF Ev.what # 0 THEN "a grid out of nothing" ELSE ""
            ELSE IF Ev.what # grid.what \/ ~Ev.body THEN "not the latest grid"
            ELSE IF Ev.frame # "provided_map" THEN "not in the provided map's frame"
            ELSE IF Ev.t # grid.t THEN "the grid's time has changed" ELSE ""
Says == CASE Ev.op \in {"tf", "newgrid", "turn", "end"} -> IF due # <<>> THEN "a transform has not been sent" ELSE IF Ev.op = "turn" /\ ~told /\ grid.what # 0 THEN "the grid has not been sent" ELSE ""
          [] Ev.op = "links" -> ""
          [] Ev.op = "path" -> SaysPath
          [] Ev.op = "sent" -> SaysSent
          [] Ev.op = "grid" -> SaysGrid
IsIn == Ev.op = "tf" /\ "in" \in DOMAIN Ev
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ bad' = Says
         /\ heard' = IF Ev.op = "links" THEN [i \in 1 .. Ev.n |-> {}] ELSE IF Ev.op = "tf" /\ ~IsIn THEN [heard EXCEPT ![Ev.link] = Put(@, Ev.t, Ev.p)] ELSE heard
         /\ path' = IF Path THEN Ev.poses ELSE path
         /\ kept' = IF IsIn THEN After(kept, Ev.in, 1) ELSE kept
         /\ due' = IF IsIn THEN Dues(kept, Ev.in, 1) ELSE IF Ev.op = "sent" /\ due # <<>> THEN Tail(due) ELSE due
         /\ grid' = IF Ev.op = "newgrid" THEN [what |-> Ev.what, t |-> Ev.t] ELSE grid
         /\ told' = IF Ev.op = "turn" THEN FALSE ELSE IF Ev.op = "grid" THEN TRUE ELSE told
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
