----------------------------- MODULE FixedClimbMC -----------------------------
(* The climber with fixed steps over every score function of a small strip:    *)
(* from where it is it looks one step around along each axis and takes the     *)
(* most promising direction, then tries ever shorter strides that way before   *)
(* the single step. It ends, in a place none of the single steps improves.     *)
EXTENDS Integers, FiniteSets
CONSTANTS W, H, Levels, Stride
Place == (0 .. W) \X (0 .. H)
Dirs == {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>}
VARIABLES f, start, at, d, stride, pc
vars == <<f, start, at, d, stride, pc>>
Val(p) == IF p \in Place THEN f[p] ELSE 0
To(p, dir, k) == <<p[1] + k * dir[1], p[2] + k * dir[2]>>
Init == /\ f \in [Place -> 0 .. Levels] /\ start \in Place /\ at = start /\ d = <<1, 0>> /\ stride = 0 /\ pc = "look"
Look == /\ pc = "look"
        /\ \E dir \in Dirs :
             /\ \A o \in Dirs : Val(To(at, o, 1)) <= Val(To(at, dir, 1))
             /\ d' = dir
        /\ stride' = Stride /\ pc' = "stride" /\ UNCHANGED <<f, start, at>>
Leap == /\ pc = "stride" /\ stride > 1
        /\ IF Val(To(at, d, stride)) > Val(at) THEN at' = To(at, d, stride) /\ pc' = "look" /\ stride' = 0
           ELSE stride' = stride \div 2 /\ UNCHANGED <<at, pc>>
        /\ UNCHANGED <<f, start, d>>
Single == /\ pc = "stride" /\ stride = 1
          /\ IF Val(To(at, d, 1)) > Val(at) THEN at' = To(at, d, 1) /\ pc' = "look" ELSE at' = at /\ pc' = "end"
          /\ stride' = 0 /\ UNCHANGED <<f, start, d>>
Next == Look \/ Leap \/ Single
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(pc = "end")
NeverWorse == Val(at) >= Val(start) /\ (Val(at) = Val(start) => at = start)
NoStepBetter == pc = "end" => \A o \in Dirs : Val(To(at, o, 1)) <= Val(at)
=============================================================================
