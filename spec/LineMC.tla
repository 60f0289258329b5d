-------------------------------- MODULE LineMC --------------------------------
(* The line of whole points drawn step by step: along the longer axis every time, across when that is the nearer point. *)
EXTENDS GridGeom
CONSTANTS N
VARIABLES b, line
vars == <<b, line>>
O == <<0, 0>>
Init == b \in (-N .. N) \X (-N .. N) /\ line = <<O>>
Sign(v) == IF v > 0 THEN 1 ELSE -1
Step ==
  /\ line[Len(line)] # b /\ UNCHANGED b
  /\ LET c == line[Len(line)]
         steep == Abs(b[1]) < Abs(b[2])
         straight == IF steep THEN <<c[1], c[2] + Sign(b[2])>> ELSE <<c[1] + Sign(b[1]), c[2]>>
         slanted == <<c[1] + Sign(b[1]), c[2] + Sign(b[2])>>
         Off(q) == Abs(Cross(O, b, q[1], q[2])) IN
     line' = Append(line, IF Off(straight) < Off(slanted) THEN straight ELSE slanted)
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Short == Len(line) <= Max(Abs(b[1]), Abs(b[2])) + 1
Right == line[Len(line)] = b => LineFault(O, b, line) = ""
Ends == <>(line[Len(line)] = b)
=============================================================================
