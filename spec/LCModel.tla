------------------------------ MODULE LCModel ------------------------------
(* All graphs on N vertices under all sequences of local complementations:     *)
(* the composed certificate always certifies; complementing twice restores;    *)
(* and (small N) a certificate exists only within the orbit.                   *)
EXTENDS LC
CONSTANTS N, Converse
VARIABLES start, graph, cert
vars == <<start, graph, cert>>
Blocks == {c \in {0, 1} \X {0, 1} \X {0, 1} \X {0, 1} : Invertible(c)}
Graphs == SUBSET PairsOf(1..N)
Init == start \in Graphs /\ graph = start /\ cert = [i \in 1..N |-> <<1, 0, 0, 1>>]
Complement(v) == /\ graph' = LocalComp(graph, v) /\ UNCHANGED start
                 /\ LET s == StepCert(graph, v, N)
                    IN cert' = [i \in 1..N |-> Times(s[i], cert[i])]
Next == \E v \in 1..N : Complement(v)
Spec == Init /\ [][Next]_vars
Certified == Certifies(cert, start, graph, N)
Involution == \A v \in 1..N : LocalComp(LocalComp(graph, v), v) = graph
Isolated == \A v \in 1..N : (NbrsOf(graph, v) = {}) = (NbrsOf(start, v) = {})
OnlyOrbit == (Converse /\ graph = start) =>
  LET orb == Orbit(start, N)
  IN \A H \in Graphs \ orb : ~\E c \in [1..N -> Blocks] : Maps(c, start, H, N)
=============================================================================
