------------------------------ MODULE Homodyne ------------------------------
(***************************************************************************)
(* CV states on the modes 1..n of a weighted graph, CZ gates along its     *)
(* edges, and homodyne measurement.  Reals are fixed-point: millionths for *)
(* outcomes and draws, quarters for standard deviations.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
\* delta is kept as a fraction <<num, den>> for which all the standard
\* deviations are multiples of a quarter: quarters of sqrt(delta / 2), and of
\* 1 / sqrt(2 delta).
Deltas == {<<2, 1>>, <<1, 2>>, <<8, 1>>, <<1, 8>>}
Root(x) == CHOOSE r \in 0..40 : r * r = x
HalfRoot(d) == Root((16 * d[1]) \div (2 * d[2]))
InvRoot(d)  == Root((16 * d[2]) \div (2 * d[1]))
ASSUME \A d \in Deltas : /\ HalfRoot(d) * HalfRoot(d) * 2 * d[2] = 16 * d[1]
                         /\ InvRoot(d) * InvRoot(d) * 2 * d[1] = 16 * d[2]

\* Standard deviations of the initial noise of mode i, in quarters.
SigmaQ(d, P, perfect, i) == IF i \in perfect THEN 0 ELSE IF i \in P THEN InvRoot(d) ELSE HalfRoot(d)
SigmaP(d, P, perfect, i) == IF i \in perfect THEN 0 ELSE HalfRoot(d)
\* Of the single draw of the two-step order.
SigmaM(d, perfect, i) == IF i \in perfect THEN 0 ELSE HalfRoot(d)

\* Graph: edges are <<i, j, weight>>.
WeightedNbrs(edges, i) ==
  {<<IF e[1] = i THEN e[2] ELSE e[1], e[3]>> : e \in {e \in edges : e[1] = i \/ e[2] = i}}
Sum(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)
\* The p quadrature of mode i after the CZ gates.
AfterCZ(edges, q(_), p(_), i) == p(i) + Sum(WeightedNbrs(edges, i), LAMBDA x : x[2] * q(x[1]))

\* GKP translation of an outcome x (millionths): parity of the nearest multiple
\* of sqrt(pi); both are admissible within a hair of a bin edge.
RootPi == 1772454
GKPBits(x) == {((2 * y + RootPi) \div (2 * RootPi)) % 2 : y \in {x - 20, x + 20}}
=============================================================================
