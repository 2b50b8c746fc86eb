--------------------------- MODULE FamiliesModel ---------------------------
(* The descriptions by shape single out exactly the relabelled explicit graphs, *)
(* among all graphs on n <= N vertices (built edge by edge).                     *)
EXTENDS Families
CONSTANT N
VARIABLES n, graph
Pairs(m) == {{x, y} : x, y \in 1..m} \ {{x} : x \in 1..m}
Init == n \in 1..N /\ graph = {}
Next == UNCHANGED n /\ \E e \in Pairs(n) \ graph : graph' = graph \cup {e}
Spec == Init /\ [][Next]_<<n, graph>>
Explicit(name) ==
  CASE name = "star" -> {{1, i} : i \in 2..n}
    [] name = "complete" -> Pairs(n)
    [] name = "linear" -> {{i, i + 1} : i \in 1..(n - 1)}
    [] name = "ring" -> {{i, (i % n) + 1} : i \in 1..n} \ {{1}}
Perms == {f \in [1..n -> 1..n] : \A x, y \in 1..n : x # y => f[x] # f[y]}
Relabelled(name) == {{{f[x] : x \in e} : e \in Explicit(name)} : f \in Perms}
Exactly == \A name \in {"star", "complete", "linear", "ring"} :
             Named(name, graph, n) <=> graph \in Relabelled(name)
FromOutline == \A name \in {"star", "complete", "linear", "ring"} :
                 Named(name, graph, n) <=> Outlined(name, Outline(graph, n), n)
=============================================================================
