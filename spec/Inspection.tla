----------------------------- MODULE Inspection -----------------------------
(* What an inspection may do to the state of a session: nothing.  A state is a *)
(* record of components (bits, other node attributes, edges, stabilizers,      *)
(* stabilizer graph with its weights, matching graph, indices, adjacency       *)
(* matrix, noise layer, arguments of the call).  Indices and the adjacency     *)
(* matrix are computed on demand: absent (0) may become present, and then they *)
(* stay as they are.                                                           *)
EXTENDS Integers, FiniteSets, Sequences, TLC
OnDemand == {"indices", "adjacency"}
Changed(before, after) ==
  {c \in DOMAIN before : before[c] # after[c] /\ ~(c \in OnDemand /\ before[c] = 0)}
=============================================================================
