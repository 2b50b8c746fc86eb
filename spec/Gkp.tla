-------------------------------- MODULE Gkp --------------------------------
(***************************************************************************)
(* Binning a real number x in bins of width a: x = n a + f with            *)
(* -a/2 < f <= a/2, so that a bin edge belongs to the lower bin; the bit   *)
(* is the parity of n.  x and a are integers in a common unit.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
BinOf(x, a) == -((a - 2 * x) \div (2 * a))
FracOf(x, a) == x - a * BinOf(x, a)
BitOf(x, a) == BinOf(x, a) % 2
\* The declarative statement of the same.
IsBin(n, x, a) == LET f == x - n * a IN -a < 2 * f /\ 2 * f <= a
(***************************************************************************)
(* The probability that a Gaussian shift of density exp(-x^2 / var) ends   *)
(* in a bin of odd parity.  The bits are a square wave, whose average is   *)
(* 1 - 2p = 4/pi sum over odd k of (-1)^((k-1)/2) t^(k^2) / k              *)
(* where t = exp(-pi var / 4).  All in units of 1/Fine.                    *)
(***************************************************************************)
Fine == 30000
Mul(x, y) == (x * y + Fine \div 2) \div Fine
RECURSIVE Pow(_, _)
Pow(t, k) == IF k = 0 THEN Fine
             ELSE LET h == Pow(Mul(t, t), k \div 2) IN IF k % 2 = 1 THEN Mul(t, h) ELSE h
Wave(t) == Pow(t, 1) - Pow(t, 9) \div 3 + Pow(t, 25) \div 5 - Pow(t, 49) \div 7 + Pow(t, 81) \div 9
           - Pow(t, 121) \div 11 + Pow(t, 169) \div 13
OddBins(t) == (Fine - (Wave(t) * 5000) \div 3927) \div 2
=============================================================================
