------------------------------ MODULE IidModel ------------------------------
(* Noise applied node by node, any number of times, with any draws: after each *)
(* application every bit is explained by the draws of that application alone.  *)
EXTENDS Iid
CONSTANTS N, TOP
VARIABLES bits, draws, done, p
vars == <<bits, draws, done, p>>
Init == bits = [i \in 1..N |-> 0] /\ draws = <<>> /\ done = 0 /\ p \in 0..TOP
\* Draws lie in 0..TOP-1: never below 0, always below TOP.
Draw(u) == /\ Len(draws) < N
           /\ draws' = Append(draws, u)
           /\ bits' = [bits EXCEPT ![Len(draws) + 1] = IF u < p THEN 1 ELSE 0]
           /\ done' = Len(draws) + 1 /\ UNCHANGED p
Again == done = N /\ draws' = <<>> /\ done' = 0 /\ UNCHANGED bits /\ p' \in 0..TOP
Next == Again \/ \E u \in 0..(TOP - 1) : Draw(u)
Spec == Init /\ [][Next]_vars
Right == done = N => Explained(bits, draws, p)
Never == done = N /\ p = 0 => \A i \in 1..N : bits[i] = 0
Always == done = N /\ p = TOP => \A i \in 1..N : bits[i] = 1
=============================================================================
