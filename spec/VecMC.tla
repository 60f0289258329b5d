------------------------------- MODULE VecMC -------------------------------
(* A pose that is moved, moved back and sent to places: it is always where its moves in total take it. *)
EXTENDS Vec
CONSTANTS N, Steps
VARIABLES start, pose, log
vars == <<start, pose, log>>
R == -N .. N
Vecs == R \X R \X {-1, 0, 1}
Zero == <<0, 0, 0>>
Init == start \in {<<0, 0, 0>>, <<N, -N, 1>>} /\ pose = start /\ log = <<>>
Move(d) == pose' = Plus(pose, d) /\ log' = Append(log, d)
Undo == log # <<>> /\ pose' = Plus(pose, Neg(log[Len(log)])) /\ log' = SubSeq(log, 1, Len(log) - 1)
Go(q) == Move(Minus(q, pose))
Next == /\ UNCHANGED start
        /\ \/ Len(log) < Steps /\ \E d \in Vecs : Move(d) \/ Go(d)
           \/ Undo
Spec == Init /\ [][Next]_vars
There == pose = Plus(start, Total(Zero, log))
Home == log = <<>> => pose = start
Arrives == [][\A q \in Vecs : Go(q) => pose' = q]_vars
Laws == \A d \in Vecs :
  /\ Minus(Plus(pose, d), pose) = d /\ Plus(d, Neg(d)) = Zero /\ Neg(Neg(d)) = d
  /\ Plus(d, pose) = Plus(pose, d) /\ Times(2, d) = Plus(d, d) /\ SqLen(Neg(d)) = SqLen(d)
  /\ SqLen(d) >= 0 /\ (SqLen(d) = 0 <=> d[1] = 0 /\ d[2] = 0) /\ Mags(Neg(d)) = Mags(d)
Compared == \A d \in -20 .. 20 :
  /\ Equal(d) = Equal(-d)
  /\ LessEqual(d) = "no" => LessEqual(-d) = "yes" /\ Less(d) = "no"
  /\ Equal(d) = "yes" => LessEqual(d) = "yes" /\ LessEqual(-d) = "yes"
  /\ (LessEqual(d) = "yes" /\ LessEqual(-d) = "yes") => Equal(d) = "yes"
Bounded == \A l, v, r \in R : l <= r => LET b == Bound(l, v, r) IN b \in l .. r /\ (v \in l .. r => b = v)
Powers == \A n \in {2, 3}, i \in 1 .. 30 : LET p == Power(n, i) IN p >= i /\ (i > 1 => p \div n < i)
ASSUME Compared /\ Bounded /\ Powers
=============================================================================
