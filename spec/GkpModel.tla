------------------------------ MODULE GkpModel ------------------------------
(* A value drifts over the real line in unit steps through bins of width A:    *)
(* the bin is unique, moves by one exactly when an edge is left behind, and    *)
(* bits have period two bins.                                                  *)
EXTENDS Gkp
CONSTANTS A, X
VARIABLE x
Init == x = -X
Next == x < X /\ x' = x + 1
Spec == Init /\ [][Next]_x
Unique == \A n \in (-X)..X : IsBin(n, x, A) <=> n = BinOf(x, A)
Edge == 2 * FracOf(x, A) = A => BinOf(x + 1, A) = BinOf(x, A) + 1
Periodic == /\ BitOf(x + 2 * A, A) = BitOf(x, A)
            /\ BitOf(x + A, A) = 1 - BitOf(x, A)
            /\ FracOf(x + A, A) = FracOf(x, A)
Steps == [][BinOf(x', A) - BinOf(x, A) = IF 2 * FracOf(x, A) + 2 > A THEN 1 ELSE 0]_x
(* The probability of odd bins grows with the variance, from 0 to one half.      *)
ASSUME OddBins(0) = Fine \div 2
ASSUME \A t \in 1..275 :
         /\ OddBins(100 * t) <= OddBins(100 * (t - 1)) + 3
         /\ -5 <= OddBins(100 * t) /\ OddBins(100 * t) <= Fine \div 2
=============================================================================
