---------------------------- MODULE DistanceModel ----------------------------
(* The distance of the code: a walker moves from check to check, one qubit per *)
(* step, and remembers the parities of its passages through the planes.  All   *)
(* boundary points are one node, "out".  Breadth-first search makes the level  *)
(* of a state the length of a shortest walk to it, so that any walk which      *)
(* closes with an odd parity is at least as long as the distance claimed, and  *)
(* the invariant Tight, violated on purpose, shows that it is attained.        *)
EXTENDS Decoding
CONSTANTS Dims, Name, Ec
D(a, b, c) == <<a, b, c>>
D222 == D(2,2,2)
D333 == D(3,3,3)
D444 == D(4,4,4)
D322 == D(3,2,2)
D232 == D(2,3,2)
D223 == D(2,2,3)
D522 == D(5,2,2)
D252 == D(2,5,2)
D342 == D(3,4,2)
D432 == D(4,3,2)
D433 == D(4,3,3)
D345 == D(3,4,5)
C == [dims |-> Dims, bounds |-> CodeBounds(Name, Ec)]
Out == <<-1, -1, -1>>
Qubits == SyndromeQubits(C, Ec)
EndsOf(q) == LET s == CheckedBy(C, Ec, q) IN IF Cardinality(s) = 2 THEN s ELSE s \cup {Out}
Ends == TLCEval([q \in Qubits |-> EndsOf(q)])
Crosses(q) == {i \in PlaneAxes(Name, Ec) : q[i] = FirstPlane(C, Ec, i)}
Cross == TLCEval([q \in Qubits |-> Crosses(q)])
Nodes == Centres(C, Ec) \cup (IF HasBoundary(C, Ec) THEN {Out} ELSE {})
At == TLCEval([n \in Nodes |-> {q \in Qubits : n \in Ends[q]}])

VARIABLES start, node, par
Init == start \in Nodes /\ node = start /\ par = {}
Move(q) == /\ node' = CHOOSE n \in Ends[q] : n # node
           /\ par' = SymDiff(par, Cross[q]) /\ UNCHANGED start
Next == \E q \in At[node] : Move(q)
Spec == Init /\ [][Next]_<<start, node, par>>
Logical == node = start /\ par # {}
Dist == CodeDistance(Dims, Name, Ec)
DistanceHolds == Logical => TLCGet("level") - 1 >= Dist
NotTight == ~(Logical /\ TLCGet("level") - 1 = Dist)
\* Two checks that share a qubit always share exactly the qubits between them,
\* and every qubit has one or two checks.
EveryQubitChecked == \A q \in Qubits : Cardinality(Ends[q]) = 2
=============================================================================
