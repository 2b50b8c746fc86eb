--------------------------- MODULE StabGraphTrace ---------------------------
(* C03.  A trace is one code object: the nodes and edges of its stabilizer   *)
(* graph, then a history of weight assignments, each followed by the edge    *)
(* weights, the odd checks for some flips e.ones and the answers of queries  *)
(* for shortest paths, of the graph or of its conversion to networkx.  Nodes *)
(* are numbers into t.names, the coordinate sets they stand for.             *)
EXTENDS StabGraph, TLC, Json, IOUtils, SequencesExt

Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Traces == Data.traces
Conf(t) == [dims |-> t.dims, bounds |-> CodeBounds(t.code, t.ec)]
F(clause, ok) == IF ok THEN {} ELSE {clause}
Val(t, n) == ToSet(t.names[n])

StaticBad(t) ==
  LET c == Conf(t)
      nodes == {Val(t, n) : n \in ToSet(t.nodes)}
      pairs == {{Val(t, e[1]), Val(t, e[2])} : e \in ToSet(t.edges)}
      real == RealEdges(c, t.ec)
      conn == ConnectorEdges(c, t.ec)
  IN F("node-missing", GraphNodes(c, t.ec) \subseteq nodes)
     \cup F("node-extra", nodes \subseteq GraphNodes(c, t.ec))
     \cup F("node-repeated", Len(t.nodes) = Cardinality(GraphNodes(c, t.ec)))
     \cup F("edge-missing", (real \cup conn) \subseteq pairs)
     \cup F("edge-extra", pairs \subseteq (real \cup conn))
     \cup F("edge-repeated", Len(t.edges) = Cardinality(real \cup conn))
     \cup F("real-nodes", {Val(t, n) : n \in ToSet(t.real_nodes)} = RealNodes(c, t.ec))
     \cup F("real-edges", {{Val(t, e[1]), Val(t, e[2])} : e \in ToSet(t.real_edges)} = real)
     \cup F("low-points", {Val(t, n) : n \in ToSet(t.low)} = {{p} : p \in
              IF HasBoundary(c, t.ec) THEN LowPoints(c, t.ec) ELSE {}})
     \cup F("high-points", {Val(t, n) : n \in ToSet(t.high)} = {{p} : p \in
              IF HasBoundary(c, t.ec) THEN HighPoints(c, t.ec) ELSE {}})
     \cup F("neighbours", \A q \in ToSet(t.around) :
              {Val(t, m) : m \in ToSet(q.nbrs)}
                = {w \in nodes : {Val(t, q.node), w} \in pairs /\ w # Val(t, q.node)})
     \cup F("incident-edges", \A q \in ToSet(t.around) :
              {{Val(t, e[1]), Val(t, e[2])} : e \in ToSet(q.out)}
                = {p \in pairs : Val(t, q.node) \in p})

\* Weights e.w[k] were given to qubits t.qubits[k]; e.edges is what the graph
\* then says: <<node, node, common vertex or connector mark, weight>>.
Weights(t, e) == [q \in ToSet(t.qubits) |->
                    e.w[CHOOSE k \in DOMAIN t.qubits : t.qubits[k] = q]]
WeightBad(t, e, W) ==
  LET c == Conf(t)
      shared(x) == LET U == Val(t, x.u) V == Val(t, x.v)
                   IN {q \in U \cap V : q \in DOMAIN W}
      good(x) == IF x.conn
                 THEN x.w = 0
                 ELSE /\ x.vertex \in shared(x)
                      /\ x.w = W[x.vertex]
                      /\ \A q \in shared(x) : W[q] >= x.w
      isconn(x) == {Val(t, x.u), Val(t, x.v)} \cap {LOW, HIGH} # {}
  IN F("edge-weight", \A x \in ToSet(e.edges) : good(x))
     \cup F("connector-edge", \A x \in ToSet(e.edges) : x.conn = isconn(x))

\* The weights the graph reports (judged by WeightBad), per ordered node pair.
Table(e) ==
  LET fwd == {<<<<x.u, x.v>>, x.w>> : x \in ToSet(e.edges)}
      bwd == {<<<<x.v, x.u>>, x.w>> : x \in ToSet(e.edges)}
      all == fwd \cup bwd
  IN [p \in {a[1] : a \in all} |-> (CHOOSE a \in all : a[1] = p)[2]]

RECURSIVE PathWeight(_, _, _)
PathWeight(W, p, k) ==
  IF k >= Len(p) THEN 0
  ELSE LET r == PathWeight(W, p, k + 1)
       IN IF <<p[k], p[k + 1]>> \notin DOMAIN W \/ r < 0 THEN -1
          ELSE W[<<p[k], p[k + 1]>>] + r

\* q.src, q.to, q.len, q.path.  Distances must be those of real paths (so they
\* are large enough) and obey the triangle inequality on every edge (so they
\* are small enough).
QueryBad(t, e, W, conns, want, q) ==
  LET n == Len(q.to)
      pairs == {<<q.to[k], q.len[k]>> : k \in 1..n} \cup {<<q.src, 0>>}
      dist == TLCEval([v \in {p[1] : p \in pairs} |-> (CHOOSE p \in pairs : p[1] = v)[2]])
      hide == q.kind = "stab"
  IN F("path-targets-missing", (want \ {q.src}) \subseteq DOMAIN dist)
     \cup F("path-targets-repeated", Cardinality(DOMAIN dist) = n + 1)
     \cup F("path-ends", \A k \in 1..n : /\ Len(q.path[k]) > 0
                                         /\ q.path[k][1] = q.src
                                         /\ q.path[k][Len(q.path[k])] = q.to[k])
     \cup F("path-weight", \A k \in 1..n : PathWeight(W, q.path[k], 1) = q.len[k])
     \cup F("path-not-shortest", \A x \in ToSet(e.edges) :
              (~(hide /\ x.conn) /\ x.u \in DOMAIN dist /\ x.v \in DOMAIN dist) =>
                /\ dist[x.u] - dist[x.v] <= x.w
                /\ dist[x.v] - dist[x.u] <= x.w)
     \cup F("path-through-connector", hide => \A k \in 1..n :
              ToSet(q.path[k]) \cap conns = {})

EventBad(t, e) ==
  LET W == TLCEval(Weights(t, e))
      T == TLCEval(Table(e))
      conns == TLCEval({v \in DOMAIN t.names : Val(t, v) \in {LOW, HIGH}})
      real == RealNodes(Conf(t), t.ec)
      want == TLCEval({v \in DOMAIN t.names : Val(t, v) \in real})
  IN WeightBad(t, e, W)
     \cup F("edge-list-changed", {{x.u, x.v} : x \in ToSet(e.edges)}
                                   = {{x[1], x[2]} : x \in ToSet(t.edges)})
     \cup F("odd-checks", LET syn == SyndromeOf(Conf(t), t.ec, {t.qubits[k] : k \in ToSet(e.ones)})
                          IN /\ {Val(t, n) : n \in ToSet(e.odd)} = {Faces(Conf(t), s) : s \in syn}
                             /\ Len(e.odd) = Cardinality(syn))
     \cup UNION {QueryBad(t, e, T, conns, want, q) : q \in ToSet(e.queries)}

VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Verdict == PrintT("VERDICT " \o ToJson([tid |-> tid, bad |-> bad']))
Next ==
  LET t == Traces[tid] IN
  /\ UNCHANGED tid
  /\ \/ /\ l = 0 /\ t.error # ""
        /\ l' = -1 /\ bad' = {<<0, "raised">>} /\ Verdict
     \/ /\ l = 0 /\ t.error = ""
        /\ l' = 1 /\ bad' = {<<0, x>> : x \in StaticBad(t)}
     \/ /\ l > 0 /\ l <= Len(t.events)
        /\ l' = l + 1
        /\ bad' = bad \cup {<<l, x>> : x \in EventBad(t, t.events[l])}
     \/ /\ l > 0 /\ l = Len(t.events) + 1 /\ t.error = ""
        /\ l' = -1 /\ UNCHANGED bad /\ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
