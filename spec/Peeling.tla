------------------------------- MODULE Peeling -------------------------------
(***************************************************************************)
(* Peeling a forest, as a state machine.  Edges are pairs (sets) of nodes. *)
(* par is the set of odd nodes, rec the edges chosen so far.  One step     *)
(* takes any leaf away together with its edge; the edge joins the          *)
(* correction exactly if the leaf is odd.                                  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, FiniteSetsExt

Toggle(S, T) == (S \ T) \cup (T \ S)
Degree(es, n) == Cardinality({e \in es : n \in e})
Leaves(es) == {n \in UNION es : Degree(es, n) = 1}

Peel(es, par, rec, leaf) ==
  LET e == CHOOSE x \in es : leaf \in x
  IN IF leaf \in par
       THEN [es |-> es \ {e}, par |-> Toggle(par, e), rec |-> rec \cup {e}]
       ELSE [es |-> es \ {e}, par |-> par, rec |-> rec]

\* The nodes touched by an odd number of the edges.
OddEnds(es) == {n \in UNION es : Degree(es, n) % 2 = 1}

\* Trees and forests.
RECURSIVE Spread(_, _)
Spread(es, S) ==
  LET out == {e \in es : e \cap S # {}}
  IN IF out = {} THEN S ELSE Spread(es \ out, S \cup UNION out)
Trees(es) == {Spread(es, {n}) : n \in UNION es}
IsForest(es) ==
  \A T \in Trees(es) : Cardinality({e \in es : e \subseteq T}) = Cardinality(T) - 1
\* A forest can be peeled if every tree has an even number of odd nodes.
Peelable(es, par) == par \subseteq UNION es /\ \A T \in Trees(es) : Cardinality(T \cap par) % 2 = 0
=============================================================================
