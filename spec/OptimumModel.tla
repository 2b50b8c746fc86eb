---------------------------- MODULE OptimumModel ----------------------------
(* Exhaustive check of the oracle for minimum-weight recoveries: errors arrive *)
(* one qubit at a time, in every combination, and the cost found by dynamic    *)
(* programming over pairings equals the least weight of all sets of qubits     *)
(* that have the current syndrome.                                             *)
EXTENDS Decoding
CONSTANTS Dims, Name, Ec, Styles
D222 == <<2, 2, 2>>
D322 == <<3, 2, 2>>
D232 == <<2, 3, 2>>
C == [dims |-> Dims, bounds |-> CodeBounds(Name, Ec)]
Qubits == SyndromeQubits(C, Ec)
Weights(st) == [q \in Qubits |-> IF st = 0 THEN 1
                                 ELSE 1 + ((q[1] * (st + 1) + q[2] * 3 + q[3] * (5 - st) + st) % (2 * st + 1))]
WOf == TLCEval([st \in Styles |-> Weights(st)])
Syn == TLCEval([q \in Qubits |-> CheckedBy(C, Ec, q)])
\* Least weight per syndrome, by adding the qubits one after the other.
Join(f, q, w) ==
  LET moved == {SymDiff(s, Syn[q]) : s \in DOMAIN f}
      all == DOMAIN f \cup moved
  IN TLCEval([s \in all |->
       SetMin((IF s \in DOMAIN f THEN {f[s]} ELSE {})
              \cup (IF s \in moved THEN {f[SymDiff(s, Syn[q])] + w[q]} ELSE {}))])
Best == TLCEval([st \in Styles |->
          FoldLeft(LAMBDA f, q : Join(f, q, WOf[st]), ({} :> 0), SetToSeq(Qubits))])

VARIABLES syn, style
Init == style \in Styles /\ syn = {}
\* The cost depends on the syndrome alone.
Flip(q) == syn' = SymDiff(syn, Syn[q]) /\ UNCHANGED style
Next == \E q \in Qubits : Flip(q)
Spec == Init /\ [][Next]_<<syn, style>>
OracleIsMinimum == OptimalCost(C, Ec, WOf[style], syn) <= Best[style][syn]
OracleIsAttained == OptimalCost(C, Ec, WOf[style], syn) >= Best[style][syn]
=============================================================================
