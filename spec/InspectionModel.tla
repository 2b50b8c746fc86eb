--------------------------- MODULE InspectionModel ---------------------------
(* Non-interference: two sessions go through the same history of noise, weight *)
(* assignment and decoding on a chain of checks, and only the first one is     *)
(* inspected in between.  Their results stay the same.  The first session's    *)
(* drawings bring edge weights up to date with the qubits, as                  *)
(* draw_stabilizer_graph does; when weights were assigned, that is no change.  *)
(* Destructive = TRUE drops the connectors to the boundary from the graph that *)
(* is drawn, as a drawing once did: TLC finds the interference.                *)
EXTENDS Inspection
CONSTANTS Weights, Destructive, Depth
\* A chain: boundary - q1 - check 1 - q2 - check 2 - q3 - boundary.
Qubits == 1..3
VARIABLES bits, weight, a, b, resA, resB, steps
\* a, b: [edge weights, connectors there]
vars == <<bits, weight, a, b, resA, resB, steps>>
Fresh == [w |-> [q \in Qubits |-> 1], out |-> TRUE]
Init == /\ bits = [q \in Qubits |-> 0] /\ weight = [q \in Qubits |-> 1]
        /\ a = Fresh /\ b = Fresh /\ resA = {} /\ resB = {} /\ steps = 0
Parity(k) == (bits[k] + bits[k + 1]) % 2
Sync(s) == [s EXCEPT !.w = weight]
\* The lightest correction the graph of session s allows; the leftmost of two.
Corrections(s) ==
  {R \in SUBSET Qubits : /\ \A k \in 1..2 : Cardinality(R \cap {k, k + 1}) % 2 = Parity(k)
                         /\ s.out \/ R \cap {1, 3} = {}}
Cost(s, R) == (IF 1 \in R THEN s.w[1] ELSE 0) + (IF 2 \in R THEN s.w[2] ELSE 0)
              + (IF 3 \in R THEN s.w[3] ELSE 0)
Decode(s) == LET C == Corrections(s)
                 best == {R \in C : \A S \in C : Cost(s, R) <= Cost(s, S)}
             IN IF best = {} THEN {0} ELSE CHOOSE R \in best : TRUE
Tick == steps < Depth /\ steps' = steps + 1
Noise(q) == Tick /\ bits' = [bits EXCEPT ![q] = 1 - @] /\ UNCHANGED <<weight, a, b, resA, resB>>
Assign(w) == /\ Tick /\ weight' = w
             /\ a' = [a EXCEPT !.w = w] /\ b' = [b EXCEPT !.w = w]
             /\ UNCHANGED <<bits, resA, resB>>
Draw == /\ Tick /\ a' = [Sync(a) EXCEPT !.out = IF Destructive THEN FALSE ELSE @]
        /\ UNCHANGED <<bits, weight, b, resA, resB>>
Correct == /\ Tick /\ resA' = Decode(a) /\ resB' = Decode(b)
           /\ UNCHANGED <<bits, weight, a, b>>
Next == \/ \E q \in Qubits : Noise(q) \/ Draw \/ Correct
        \/ \E w \in [Qubits -> Weights] : Assign(w)
Spec == Init /\ [][Next]_vars
NoInterference == resA = resB
SameState == a = b
=============================================================================
