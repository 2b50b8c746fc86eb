------------------------------ MODULE Matching ------------------------------
(***************************************************************************)
(* Perfect matchings of a weighted graph on 1..n.  W is a function from    *)
(* the edges (two-element sets) to weights of at least 0.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
INF == 1000000000
Min2(a, b) == IF a <= b THEN a ELSE b
IsPerfect(W, n, M) == /\ M \subseteq DOMAIN W
                      /\ \A v \in 1..n : Cardinality({e \in M : v \in e}) = 1
Total(W, M) == FoldSet(LAMBDA e, acc : acc + W[e], 0, M)
Put(W, e, w) == [x \in DOMAIN W \cup {e} |-> IF x = e THEN w ELSE W[x]]
\* Least total weight: dynamic programming over the sets of vertices still to be
\* matched, given as bit masks.
Bit(m, i) == (m \div (2 ^ (i - 1))) % 2 = 1
RECURSIVE Low(_, _)
Low(m, i) == IF Bit(m, i) THEN i ELSE Low(m, i + 1)
Best(W, n) ==
  LET rows == FoldLeft(LAMBDA f, m :
                Append(f, LET i == Low(m, 1)
                          IN FoldSet(LAMBDA j, acc :
                               IF {i, j} \notin DOMAIN W THEN acc
                               ELSE LET r == m - 2 ^ (i - 1) - 2 ^ (j - 1)
                                    IN Min2(acc, IF f[r + 1] >= INF THEN INF ELSE f[r + 1] + W[{i, j}]),
                               INF, {j \in (i + 1)..n : Bit(m, j)})),
                <<0>>, [m \in 1..(2 ^ n - 1) |-> m])
  IN rows[2 ^ n]
\* A certificate for larger graphs: values y of the vertices and z >= 0 of some
\* odd sets such that y_u + y_v plus the z's of the sets that the edge leaves is
\* at most its weight.  Every perfect matching leaves each odd set at least once,
\* so that the sum of all values bounds its weight from below.
Certificate(W, n, y, sets) ==
  /\ Len(y) = n
  /\ \A k \in DOMAIN sets : sets[k].z >= 0 /\ Cardinality(ToSet(sets[k].of)) % 2 = 1
  /\ \A e \in DOMAIN W :
       LET leaves == {k \in DOMAIN sets : Cardinality(e \cap ToSet(sets[k].of)) = 1}
       IN MapThenSumSet(LAMBDA v : y[v], e) + MapThenSumSet(LAMBDA k : sets[k].z, leaves) <= W[e]
Bound(y, sets) == FoldLeft(LAMBDA a, v : a + v, 0, y) + FoldLeft(LAMBDA a, s : a + s.z, 0, sets)
=============================================================================
