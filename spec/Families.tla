------------------------------ MODULE Families ------------------------------
(***************************************************************************)
(* Named graphs, told by their shape.  A graph on 1..n is a set of         *)
(* two-element sets.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Simple(G, n) == \A e \in G : Cardinality(e) = 2 /\ e \subseteq 1..n
Degrees(G, n) == [v \in 1..n |-> Cardinality({e \in G : v \in e})]
RECURSIVE Reach(_, _, _)
Reach(G, seen, front) ==
  LET new == UNION {e \in G : e \cap front # {}} \ seen
  IN IF new = {} THEN seen ELSE Reach({e \in G : ~(e \subseteq seen)}, seen \cup new, new)
Connected(G, n) == Reach(G, {1}, {1}) = 1..n
HowMany(d, k) == Cardinality({v \in DOMAIN d : d[v] = k})
IsStar(G, n) == LET d == TLCEval(Degrees(G, n)) IN
  /\ Cardinality(G) = n - 1
  /\ n > 1 => \E v \in 1..n : d[v] = n - 1
IsComplete(G, n) == Cardinality(G) = (n * (n - 1)) \div 2
IsPath(G, n) == LET d == TLCEval(Degrees(G, n)) IN
  /\ Cardinality(G) = n - 1 /\ Connected(G, n) /\ \A v \in 1..n : d[v] <= 2
IsCycle(G, n) == LET d == TLCEval(Degrees(G, n)) IN
  IF n = 1 THEN G = {} ELSE IF n = 2 THEN G = {{1, 2}}
  ELSE Cardinality(G) = n /\ Connected(G, n) /\ \A v \in 1..n : d[v] = 2
Named(name, G, n) == Simple(G, n) /\
  CASE name = "star" -> IsStar(G, n)
    [] name = "complete" -> IsComplete(G, n)
    [] name = "linear" -> IsPath(G, n)
    [] name = "ring" -> IsCycle(G, n)
    [] name = "bell" -> n = 2 /\ G = {{1, 2}}
(* The same, told from an outline alone, for graphs too large to list: numbers   *)
(* of vertices, edges, loops and connected parts, and how many vertices have     *)
(* each degree (a set of pairs).                                                 *)
Parts(G, n) == Cardinality({Reach(G, {v}, {v}) : v \in 1..n})
Outline(G, n) ==
  LET d == TLCEval(Degrees(G, n)) IN
  [order |-> n, size |-> Cardinality(G), loops |-> 0, parts |-> Parts(G, n),
   degrees |-> {<<d[v], HowMany(d, d[v])>> : v \in 1..n}]
Outlined(name, o, n) ==
  /\ o.order = n /\ o.loops = 0
  /\ CASE name = "star" -> o.degrees = (IF n = 1 THEN {<<0, 1>>} ELSE IF n = 2 THEN {<<1, 2>>}
                                        ELSE {<<n - 1, 1>>, <<1, n - 1>>})
                           /\ o.size = n - 1
       [] name = "complete" -> o.degrees = {<<n - 1, n>>} /\ 2 * o.size = n * (n - 1)
       [] name = "linear" -> o.size = n - 1 /\ o.parts = 1 /\ \A p \in o.degrees : p[1] <= 2
       [] name = "ring" -> IF n <= 2 THEN o.size = n - 1 /\ o.parts = 1
                           ELSE o.size = n /\ o.parts = 1 /\ o.degrees = {<<2, n>>}
=============================================================================
