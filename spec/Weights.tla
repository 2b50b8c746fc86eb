------------------------------- MODULE Weights -------------------------------
(***************************************************************************)
(* Weight assignment.  Weights are logarithms, so they are represented by  *)
(* their integer part and millionths, <<whole, micro>>.                    *)
(***************************************************************************)
EXTENDS Lattice

\* -log of the error probabilities that appear in the rules.
MinusLog(p) ==
  CASE p = "1/4"     -> <<1, 386294>>
    [] p = "1/3"     -> <<1, 98612>>
    [] p = "2/5"     -> <<0, 916291>>
    [] p = "1/2"     -> <<0, 693147>>
    [] p = "1/1024"  -> <<6, 931472>>
    [] p = "1e-300"  -> <<690, 775528>>
    [] p = "smallest"-> <<708, 396419>>
\* The probability a conditional probability is treated as.
Effective(p) == CASE p = "0" -> "smallest" [] p \in {"7/10", "1"} -> "1/2" [] OTHER -> p

Swapped(c, P, q) == Cardinality(Nbrs(c, q) \cap P)
SwapProb(k) == CASE k = 2 -> "1/4" [] k = 3 -> "1/3" [] k = 4 -> "2/5"

Abs(x) == IF x < 0 THEN -x ELSE x
Close(a, b) == /\ Abs(a[1] - b[1]) <= 1
               /\ Abs((a[1] - b[1]) * 1000000 + a[2] - b[2]) <= 3
\* w is mult / den * L rounded to an integer.
RoundsTo(w, mult, den, L) ==
  LET d == mult * L[1] - den * w
  IN /\ Abs(d) <= 1000
     /\ Abs(d * 1000000 + mult * L[2]) <= 500000 * den + 2 * mult
=============================================================================
