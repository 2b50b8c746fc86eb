---------------------------- MODULE DrawingModel ----------------------------
(* Drawing a graph one item at a time, in any order: the finished canvas is the *)
(* picture of the graph, whatever the order, and no two graphs have the same    *)
(* picture.                                                                     *)
EXTENDS Drawing
CONSTANTS Size
VARIABLES todo, canvas, graph
vars == <<todo, canvas, graph>>
Places == {<<x, y, 0>> : x \in 0..1, y \in 0..1} \cup {<<0, 0, 1>>}
Colours == {BLACK, "#ff0000"}
Own == [kind |-> "own", name |-> "", attr |-> "", map |-> <<>>]
Graphs == {[nodes |-> [k \in 1..n |-> [at |-> f[k], attrs |-> [color |-> cs[k]]]],
            edges |-> SetToSeq({[a |-> e[1], b |-> e[2], attrs |-> [color |-> w]] : e \in E})] :
             n \in {Size}, f \in {f \in [1..Size -> Places] : \A i, j \in 1..Size : i # j => f[i] # f[j]},
             cs \in [1..Size -> Colours], w \in Colours,
             E \in SUBSET {<<i, j>> \in (1..Size) \X (1..Size) : i < j}}
Marks(g) == {<<"point", k>> : k \in DOMAIN g.nodes} \cup {<<"segment", k>> : k \in DOMAIN g.edges}
MarkOf(g, m) == IF m[1] = "point" THEN <<"point", Points(g, Own)[m[2]]>> ELSE <<"segment", Segments(g, Own)[m[2]]>>
Init == graph \in Graphs /\ todo = Marks(graph) /\ canvas = {}
Draw(m) == m \in todo /\ todo' = todo \ {m} /\ canvas' = canvas \cup {MarkOf(graph, m)} /\ UNCHANGED graph
Next == \E m \in todo : Draw(m)
Spec == Init /\ [][Next]_vars
\* Read back from the canvas: which nodes, which edges, which colours.
ReadNodes == {<<Turn(m[2][1]), m[2][2]>> : m \in {m \in canvas : m[1] = "point"}}
ReadEdges == {<<{Turn(p) : p \in m[2][1]}, m[2][2]>> : m \in {m \in canvas : m[1] = "segment"}}
Finished ==
  todo = {} => /\ ReadNodes = {<<graph.nodes[k].at, graph.nodes[k].attrs.color>> : k \in DOMAIN graph.nodes}
               /\ ReadEdges = {<<{graph.nodes[graph.edges[k].a].at, graph.nodes[graph.edges[k].b].at},
                                 graph.edges[k].attrs.color>> : k \in DOMAIN graph.edges}
Nothing == Cardinality(canvas) = Cardinality(Marks(graph)) - Cardinality(todo)
Ticks == \A m, n \in -12..12 : \A t \in BOOLEAN : PiText(m, t) = PiText(n, t) => m = n
ASSUME Ticks
\* Boxes of different stabilizers share at most a face.
C2 == [dims |-> <<2, 2, 3>>, bounds |-> CodeBounds("open", "primal")]
Apart == \A s, t \in Centres(C2, "primal") : s # t =>
           \E i \in 1..3 : BoxOf(s).hi[i] <= BoxOf(t).lo[i] \/ BoxOf(t).hi[i] <= BoxOf(s).lo[i]
ASSUME Apart
=============================================================================
