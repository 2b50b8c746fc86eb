----------------------------- MODULE ReduceModel -----------------------------
(* Without noise: a vertex with up to four neighbouring macronodes, added one  *)
(* at a time, each with a GKP star and any planets, the micronode facing the   *)
(* vertex being any of its four.  The processed bit of the vertex is the       *)
(* parity of the neighbouring stars' q quadratures, as in a canonical lattice. *)
(* sqrt(pi) is 4 units; squeezed states have any other q.                      *)
EXTENDS Reduce
CONSTANTS PVals
VARIABLES k, outcome, bit, want
vars == <<k, outcome, bit, want>>
Planets == {<<"GKP", 0>>, <<"GKP", 4>>} \cup {<<"p", x>> : x \in PVals}
Init == k = 0 /\ outcome = 0 /\ bit = 0 /\ want = 0
Neighbour(s, p2, p3, p4, b, w) ==
  LET q == <<s, p2[2], p3[2], p4[2]>>
      m == [i \in 1..4 |-> Dot4(FourSplitter[i], q) \div 2]
      typ == <<"GKP", p2[1], p3[1], p4[1]>>
      z == w * Z(m, b)
  IN /\ k < 4 /\ k' = k + 1
     \* twice the star's p outcome adds up the partners' q
     /\ outcome' = (outcome + w * q[b] - (IF typ[b] = "p" THEN z ELSE 0)) % 8
     /\ bit' = (bit + (IF typ[b] = "GKP" THEN Parity(z, 4) ELSE 0)) % 2
     /\ want' = (want + s \div 4) % 2
\* All quadratures even, so that halves are exact.
Next == \E s \in {0, 4}, p2, p3, p4 \in Planets, b \in 1..4, w \in {-1, 1} :
          /\ (s + p2[2] + p3[2] + p4[2]) % 2 = 0
          /\ Neighbour(s, p2, p3, p4, b, w)
Spec == Init /\ [][Next]_vars
OnGrid == outcome % 4 = 0
Canonical == (Parity(outcome, 4) + bit) % 2 = want
=============================================================================
