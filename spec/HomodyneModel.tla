---------------------------- MODULE HomodyneModel ----------------------------
(* CZ gates applied one by one, in every order, to quadratures on a small      *)
(* weighted graph: the p quadratures end up as AfterCZ says, q quadratures are *)
(* untouched, the order does not matter, and the one-shot matrix agrees.       *)
EXTENDS Homodyne
CONSTANTS N, MaxW
Mode == 1..N
Pairs == {<<i, j>> \in Mode \X Mode : i < j}
VARIABLES w, q, p, p0, done
vars == <<w, q, p, p0, done>>
Edges == {<<e[1], e[2], w[e]>> : e \in {e \in Pairs : w[e] # 0}}
Init == /\ w \in [Pairs -> -1..MaxW]
        /\ q \in [Mode -> {0, 1, -3}] /\ p = [i \in Mode |-> i] /\ p0 = p /\ done = {}
CZ(e) == /\ e \notin done /\ done' = done \cup {e}
         /\ p' = [p EXCEPT ![e[1]] = @ + w[e] * q[e[2]], ![e[2]] = @ + w[e] * q[e[1]]]
         /\ UNCHANGED <<w, q, p0>>
Next == \E e \in Pairs : CZ(e)
Spec == Init /\ [][Next]_vars
Propagated == done = Pairs => \A i \in Mode : p[i] = AfterCZ(Edges, LAMBDA j : q[j], LAMBDA j : p0[j], i)
=============================================================================
