------------------------------ MODULE UnionFind ------------------------------
(***************************************************************************)
(* The Union-Find decoder on an arbitrary graph, as a state machine.       *)
(*                                                                         *)
(* A graph g has g.nodes (checks and boundary points), g.bound (subset of  *)
(* boundary points) and g.edges, a set of qubits, each with ends g.ends[q] *)
(* (a set of two nodes).  Growth status is 0 (empty), 1 (half), 2 (grown). *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, FiniteSetsExt, TLC

\* Components of the graph with the given set of edges.
RECURSIVE Reach(_, _, _)
Reach(g, es, S) ==
  LET out == {q \in es : g.ends[q] \cap S # {}}
  IN IF out = {} THEN S ELSE Reach(g, es \ out, S \cup UNION {g.ends[q] : q \in out})
Component(g, es, n) == Reach(g, es, {n})
Components(g, es) == {Component(g, es, n) : n \in g.nodes}

\* A cluster is satisfied when it can be corrected within itself.
OddNodes(g, syn, K) == Cardinality(K \cap syn) % 2
Satisfied(g, syn, K) == OddNodes(g, syn, K) = 0 \/ K \cap g.bound # {}
\* (Such a cluster contains an odd check.)
Unsatisfied(g, syn, es) == {K \in {Component(g, es, n) : n \in syn} : ~Satisfied(g, syn, K)}

\* One round: every unsatisfied cluster grows half an edge in all directions.
\* An edge between two growing clusters grows from both sides, and so does an
\* edge inside a cluster that is not yet fully grown.
Push(g, K, q) == Cardinality(g.ends[q] \cap K)
GrowAll(g, syn, st) ==
  LET es  == {q \in g.edges : st[q] = 2}
      odd == Unsatisfied(g, syn, es)
      all == UNION odd
      inc(q) == Push(g, all, q)
  IN [q \in g.edges |-> IF st[q] = 2 \/ st[q] + inc(q) > 2 THEN 2 ELSE st[q] + inc(q)]
Grown(g, st) == {q \in g.edges : st[q] = 2}

\* Boundary of a set of edges: the checks it flips.
Flips(g, E) == {n \in g.nodes \ g.bound : Cardinality({q \in E : n \in g.ends[q]}) % 2 = 1}

\* Peeling: any set of edges inside the grown ones with the right boundary is
\* admissible.  One exists exactly when every cluster is satisfied.
Admissible(g, syn, es, R) == R \subseteq es /\ Flips(g, R) = syn
=============================================================================
