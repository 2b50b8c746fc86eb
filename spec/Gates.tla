------------------------------- MODULE Gates -------------------------------
(***************************************************************************)
(* Gaussian gates on N modes: the quadratures are a function on            *)
(* ("q" or "p") x 0..N-1, in units of 2^-s (s grows by one with every gate *)
(* that halves).                                                           *)
(*   CZ gates along weighted edges add the weighted q of the neighbours to  *)
(*   each p.  The four-splitter of modes a..a+3 is made of four balanced    *)
(*   beamsplitters, each taking (x, y) to (x - y, x + y) / sqrt 2.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
Quads(N) == {"q", "p"} \X (0..(N - 1))
\* edges are <<i, j, 2 * weight>>, i # j
Weight2(E, i, j) == FoldSet(LAMBDA e, acc : acc + IF {e[1], e[2]} = {i, j} THEN e[3] ELSE 0, 0, E)
Nbrs(E, i) == {IF e[1] = i THEN e[2] ELSE e[1] : e \in {e \in E : i \in {e[1], e[2]}}}
CZ(N, E, x) ==
  [c \in Quads(N) |-> 2 * x[c] + IF c[1] = "q" THEN 0
     ELSE FoldSet(LAMBDA j, acc : acc + Weight2(E, c[2], j) * x[<<"q", j>>], 0, Nbrs(E, c[2]))]
\* One beamsplitter, times sqrt 2 on its two modes.
BS(f, i, j) == [f EXCEPT ![i] = f[i] - f[j], ![j] = f[i] + f[j]]
Four(f) == BS(BS(BS(BS(f, 1, 0), 3, 2), 2, 0), 3, 1)
\* All the macronodes of four consecutive modes, times two.
Split(N, x) ==
  [c \in Quads(N) |-> LET a == 4 * (c[2] \div 4)
                      IN Four([k \in 0..3 |-> x[<<c[1], a + k>>]])[c[2] - a]]
\* The mode at position k is the one at position perm[k] before.
Permute(N, perm, x) == [c \in Quads(N) |-> x[<<c[1], perm[c[2]]>>]]
InversePerm(N, perm) == [i \in 0..(N - 1) |-> CHOOSE k \in 0..(N - 1) : perm[k] = i]
=============================================================================
