----------------------------- MODULE LaserGenMC -----------------------------
(* Laws of the beam oracle for every obstacle pair of a small map and many directions. *)
EXTENDS LaserGen
CONSTANTS R, Step
VARIABLES o, u, a, b
U == 32
Cells == {<<x, y>> : x \in -R .. R, y \in -R .. R}
Init == o \in {<<16, 16>>, <<5, 20>>, <<31, 1>>} /\ u \in {k * Step : k \in 0 .. 7199 \div Step} /\ a \in Cells /\ b \in Cells
Next == UNCHANGED <<o, u, a, b>>
Spec == Init /\ [][Next]_<<o, u, a, b>>
Max == 32 * R
Mid(c) == LET p == Part(o, Dir(u), c, U, 0) IN (p[1] + p[2]) \div 2
MetIsMaybe == Met(o, Dir(u), a, U, Max) => Maybe(o, Dir(u), a, U, Max)
\* of two cells certainly met one comes first, and seeing that one is right while the other is wrong
First == (a # b /\ Own(o, U) \notin {a, b} /\ Met(o, Dir(u), a, U, Max) /\ Met(o, Dir(u), b, U, Max)) =>
  (Seen(o, Dir(u), {a, b}, U, Max, Mid(a)) = "") # (Seen(o, Dir(u), {a, b}, U, Max, Mid(b)) = "")
Alone == (a # Own(o, U) /\ Met(o, Dir(u), a, U, Max)) =>
  Seen(o, Dir(u), {a}, U, Max, Mid(a)) = "" /\ Blind(o, Dir(u), {a}, U, Max) # ""
\* the opposite beam does not meet it
Ahead == (a # Own(o, U) /\ Met(o, Dir(u), a, U, Max)) => Blind(o, Dir(u + 3600), {a}, U, Max) = ""
Quarter4 == (o = <<16, 16>>) => (Met(o, Dir(u), a, U, Max) => Maybe(o, Dir(u + 1800), <<-a[2], a[1]>>, U, Max))
=============================================================================
