------------------------------ MODULE Populate ------------------------------
(***************************************************************************)
(* Population of the modes 0..n-1 with states, over repeated trials by any *)
(* number of noise layers sharing one graph.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Modes(n) == 0..(n - 1)
Partition(n, P, G) == P \cap G = {} /\ P \cup G = Modes(n)
Labelled(n, P, labels) == \A i \in Modes(n) : labels[i + 1] = IF i \in P THEN "p" ELSE "GKP"
=============================================================================
