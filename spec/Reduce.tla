------------------------------- MODULE Reduce -------------------------------
(***************************************************************************)
(* Reduction of macronodes (arXiv:2104.03241).  A macronode has four       *)
(* micronodes with body indices 1 (the star, measured in p) to 4 (planets, *)
(* measured in q).  Each micronode has at most one partner, in another     *)
(* macronode, through a CZ gate of weight w.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
Abs(x) == IF x < 0 THEN -x ELSE x

\* What the q outcomes m[2], m[3], m[4] of a macronode say about the micronode
\* with body index b of it.
Z(m, b) == CASE b = 1 -> 0
             [] b = 2 -> m[2] - m[4]
             [] b = 3 -> m[3] - m[4]
             [] b = 4 -> m[2] + m[3]
\* Bin of x for bins of width a around the multiples of a.
Parity(x, a) == ((2 * x + a) \div (2 * a)) % 2
Parities(x, a, tol) == {Parity(x - tol, a), Parity(x + tol, a)}
Xor(A, B) == {(x + y) % 2 : x \in A, y \in B}
\* Twice the standard four-splitter.
FourSplitter == << << 1,  1,  1, 1>>,
                   <<-1,  1, -1, 1>>,
                   <<-1, -1,  1, 1>>,
                   << 1, -1, -1, 1>> >>
Dot4(r, v) == r[1] * v[1] + r[2] * v[2] + r[3] * v[3] + r[4] * v[4]
=============================================================================
