--------------------------------- MODULE Iid ---------------------------------
(***************************************************************************)
(* IID noise.  Draws and probabilities are positions on one scale: a draw  *)
(* u is below the probability p exactly when u < p.  0 and TOP are the     *)
(* probabilities 0 and 1.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
\* Bits explained by some assignment of one draw to each node.
Explained(bits, draws, p) ==
  /\ Len(bits) = Len(draws)
  /\ Cardinality({i \in DOMAIN bits : bits[i] = 1}) = Cardinality({i \in DOMAIN draws : draws[i] < p})
\* With the same draws, a larger probability flips a superset.
Monotone(small, large) == \A i \in DOMAIN small : small[i] = 1 => large[i] = 1
=============================================================================
