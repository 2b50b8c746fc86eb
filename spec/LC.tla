--------------------------------- MODULE LC ---------------------------------
(***************************************************************************)
(* Local complementation of simple graphs on 1..n, given by their set of   *)
(* edges (two-element sets), and local Clifford certificates: a 2x2 binary *)
(* block <<a, b, c, d>> per vertex.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
SymD(A, B) == (A \ B) \cup (B \ A)
NbrsOf(G, v) == {u \in UNION G : {u, v} \in G /\ u # v}
PairsOf(S) == {{x, y} : x, y \in S} \ {{x} : x \in S}
LocalComp(G, v) == SymD(G, PairsOf(NbrsOf(G, v)))
Adj(G, i, j) == IF i # j /\ {i, j} \in G THEN 1 ELSE 0
RECURSIVE Grow(_, _, _)
Grow(seen, front, n) ==
  LET new == {LocalComp(G, v) : G \in front, v \in 1..n} \ seen
  IN IF new = {} THEN seen ELSE Grow(seen \cup new, new, n)
Orbit(G, n) == Grow({G}, {G}, n)

Invertible(c) == (c[1] * c[4] + c[2] * c[3]) % 2 = 1
\* The Clifford maps the stabilizer space of G onto that of H:
\* A G + B = H (C G + D) modulo 2.
Maps(cert, G, H, n) ==
  \A i, k \in 1..n :
    LET cgd(j) == (cert[j][3] * Adj(G, j, k) + (IF j = k THEN cert[j][4] ELSE 0)) % 2
        right == Cardinality({j \in NbrsOf(H, i) : cgd(j) = 1}) % 2
    IN (cert[i][1] * Adj(G, i, k) + (IF i = k THEN cert[i][2] ELSE 0)) % 2 = right
Certifies(cert, G, H, n) ==
  /\ \A i \in 1..n : Invertible(cert[i])
  /\ Maps(cert, G, H, n)
\* The certificate of one complementation at v, and composition.
StepCert(G, v, n) == [i \in 1..n |-> IF i = v THEN <<1, 0, 1, 1>>
                                     ELSE IF i \in NbrsOf(G, v) THEN <<1, 1, 0, 1>>
                                     ELSE <<1, 0, 0, 1>>]
Times(x, y) == << (x[1] * y[1] + x[2] * y[3]) % 2, (x[1] * y[2] + x[2] * y[4]) % 2,
                  (x[3] * y[1] + x[4] * y[3]) % 2, (x[3] * y[2] + x[4] * y[4]) % 2 >>
=============================================================================
