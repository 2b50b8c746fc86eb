---------------------------- MODULE ClusterTrees ----------------------------
(* Cluster trees: nodes 1..n, parent pointers (0 for the node on top of its    *)
(* tree) and, for every top, the size, parity and a boundary node (0 if none)  *)
(* of its cluster.  The abstract state is a partition; marks say what each     *)
(* node contributes: 0 or 1 (its parity) or 2 (a boundary node).               *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

(* --- abstract ---------------------------------------------------------- *)
ClusterOf(part, a) == CHOOSE K \in part : a \in K
Merged(part, a, b) ==
  LET A == ClusterOf(part, a)  B == ClusterOf(part, b) IN (part \ {A, B}) \cup {A \cup B}
Grown1(part, a, new) ==
  LET A == ClusterOf(part, a) IN (part \ {A}) \cup {A \cup {new}}
OddIn(marks, K) == Cardinality({k \in K : marks[k] = 1}) % 2
BoundIn(marks, K) == {k \in K : marks[k] = 2}

(* --- trees --------------------------------------------------------------- *)
\* The path of parents from a, at most n steps.
RECURSIVE PathUp(_, _, _)
PathUp(parent, a, fuel) ==
  IF parent[a] = 0 \/ fuel = 0 THEN <<a>> ELSE <<a>> \o PathUp(parent, parent[a], fuel - 1)
TopOf(parent, a) == LET p == PathUp(parent, a, Len(parent)) IN p[Len(p)]
DepthOf(parent, a) == Len(PathUp(parent, a, Len(parent))) - 1
Rooted(parent) == \A a \in DOMAIN parent : parent[a] \in 0..Len(parent)
                                           /\ parent[TopOf(parent, a)] = 0
Partition(parent) == {{b \in DOMAIN parent : TopOf(parent, b) = TopOf(parent, a)} :
                        a \in DOMAIN parent}
Linked(parent, children) ==
  \A a \in DOMAIN parent : children[a] = {b \in DOMAIN parent : parent[b] = a}
\* What the root of a tree knows about it.  size, parity and bnd are by node,
\* and only those of tops matter.
DataOK(part, marks, parent, size, parity, bnd) ==
  \A K \in part :
    LET t == TopOf(parent, CHOOSE k \in K : TRUE) IN
    /\ size[t] = Cardinality(K)
    /\ parity[t] = OddIn(marks, K)
    /\ IF BoundIn(marks, K) = {} THEN bnd[t] = 0 ELSE bnd[t] \in BoundIn(marks, K)
TreesOK(part, marks, s) ==
  /\ Rooted(s.parent) /\ Partition(s.parent) = part
  /\ DataOK(part, marks, s.parent, s.size, s.parity, s.bnd)
=============================================================================
