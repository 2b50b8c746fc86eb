---------------------------- MODULE HomologyModel ----------------------------
(* The verdict of error correction on a small code: starting from no flips,   *)
(* loops and logical operators are added in every order.  The verdict is       *)
(* success exactly when the number of logical operators added is even in every *)
(* direction; parallel planes always agree; and (Complete) the patterns        *)
(* reached are all the patterns with an empty syndrome.                        *)
EXTENDS Homology
CONSTANTS Dims, Name, Ec, Complete
D222 == <<2, 2, 2>>
D322 == <<3, 2, 2>>
D232 == <<2, 3, 2>>
C == [dims |-> Dims, bounds |-> CodeBounds(Name, Ec)]
Qubits == SyndromeQubits(C, Ec)
Loops == TLCEval({Loop(C, Ec, u) : u \in LoopSites(C, Ec)})
Lines == TLCEval({<<b[1], Line(C, Ec, b[1], b[2])>> : b \in LineBases(C, Name, Ec)})
VARIABLES E, par
Init == E = {} /\ par = {}
AddLoop(l) == E' = SymDiff(E, l) /\ UNCHANGED par
AddLine(l) == E' = SymDiff(E, l[2]) /\ par' = SymDiff(par, {l[1]})
Next == (\E l \in Loops : AddLoop(l)) \/ (\E l \in Lines : AddLine(l))
Spec == Init /\ [][Next]_<<E, par>>
Closed == SyndromeOf(C, Ec, E) = {}
VerdictIsClass == LogicallyTrivial(C, Name, Ec, E) <=> par = {}
Parallel == PlanesAgree(C, Name, Ec, E)
\* Trivial patterns generated by the loops, and all closed patterns.
Group == FoldSet(LAMBDA l, g : g \cup {SymDiff(x, l) : x \in g}, {{}}, Loops)
AllClosed == {S \in SUBSET Qubits : SyndromeOf(C, Ec, S) = {}}
ASSUME Complete => \A S \in AllClosed : LogicallyTrivial(C, Name, Ec, S) <=> S \in TLCEval(Group)
=============================================================================
