----------------------------- MODULE WeightModel -----------------------------
(* A code's node data and stabilizer-graph weights under any history of state *)
(* changes and weight assignments: after an assignment the graph shows the    *)
(* rule applied to the present data, whatever came before.                    *)
EXTENDS Weights, TLC
CONSTANTS Dims, Name, Ec, MaxSwaps
D222 == <<2, 2, 2>>
C == [dims |-> Dims, bounds |-> CodeBounds(Name, Ec)]
Qubits == SyndromeQubits(C, Ec)
Movable == QubitsOf(C, IF Ec = "primal" THEN "dual" ELSE "primal")
Rule(dec, P, q) == IF dec = "MWPM" THEN 1 ELSE IF Swapped(C, P, q) >= 2 THEN -1 ELSE 2
VARIABLES P, weight, edge, last
vars == <<P, weight, edge, last>>
Init == P = {} /\ weight = [q \in Qubits |-> 0] /\ edge = weight /\ last = "none"
Swap(v) == /\ (v \in P \/ Cardinality(P) < MaxSwaps)
           /\ P' = IF v \in P THEN P \ {v} ELSE P \cup {v}
           /\ last' = "none" /\ UNCHANGED <<weight, edge>>
Assign(dec) == /\ weight' = [q \in Qubits |-> Rule(dec, P, q)]
               /\ edge' = weight' /\ last' = dec /\ UNCHANGED P
Next == (\E v \in Movable : Swap(v)) \/ (\E d \in {"MWPM", "UF"} : Assign(d))
Spec == Init /\ [][Next]_vars
Fresh == last # "none" => \A q \in Qubits : edge[q] = Rule(last, P, q) /\ weight[q] = edge[q]
\* A swapped-out neighbour matters only in twos: one alone erases nothing.
OneIsHarmless == last = "UF" /\ Cardinality(P) <= 1 => \A q \in Qubits : weight[q] = 2
=============================================================================
