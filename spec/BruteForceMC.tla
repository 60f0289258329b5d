----------------------------- MODULE BruteForceMC -----------------------------
(* The brute-force odometer (x fastest, rotation slowest) refines "each pose   *)
(* of the grid around the guess once", for every sequence of acceptances and   *)
(* matchings, when it starts each matching from that matching's guess.         *)
EXTENDS BruteForce
CONSTANTS Nx, Ny, Nt, Guesses, Runs
VARIABLES guess, best, x, y, t, base, seen, run
vars == <<guess, best, x, y, t, base, seen, run>>
Conf == [from |-> <<0, 0, 0>>, step |-> <<1, 1, 1>>, to |-> <<Nx, Ny, Nt>>]
Start(g) == guess' = g /\ best' = g /\ x' = 0 /\ y' = 0 /\ t' = 0 /\ base' = <<>> /\ seen' = <<>>
Init == /\ \E g \in Guesses : guess = <<g, 0, 0>> /\ best = <<g, 0, 0>>
        /\ x = 0 /\ y = 0 /\ t = 0 /\ base = <<>> /\ seen = <<>> /\ run = 1
Propose == /\ t <= Nt
           /\ base' = IF base = <<>> THEN best ELSE base
           /\ LET p == <<base'[1] + x, base'[2] + y, base'[3] + t>> IN
              /\ seen' = Append(seen, p)
              /\ best' \in {best, p}
           /\ IF x < Nx THEN x' = x + 1 /\ UNCHANGED <<y, t>>
              ELSE /\ x' = 0
                   /\ IF y < Ny THEN y' = y + 1 /\ UNCHANGED t ELSE y' = 0 /\ t' = t + 1
           /\ UNCHANGED <<guess, run>>
Again == t > Nt /\ run < Runs /\ run' = run + 1 /\ \E g \in Guesses : Start(<<g, 0, 0>>)
Next == Propose \/ Again
Spec == Init /\ [][Next]_vars
Set == {seen[i] : i \in DOMAIN seen}
Once == Cardinality(Set) = Len(seen)
OnGrid == Set \subseteq Due(Conf, guess)
Complete == t > Nt => Set = Due(Conf, guess)
=============================================================================
