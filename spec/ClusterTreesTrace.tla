-------------------------- MODULE ClusterTreesTrace --------------------------
(* C21.  Two sorts of trace.                                                   *)
(* "tree": a history of unions, look-ups and additions; after each call the    *)
(*   trees are recorded (parent, children, and the data of every top).         *)
(* "growth": decodes of a code.  The graph is t.nodes (how many), t.bound and  *)
(*   t.edges; an event has the odd checks, the erased edges, what was set up   *)
(*   initially, and what clusters and support were when growth ended.          *)
EXTENDS ClusterTrees, UnionFind, Json, IOUtils, SequencesExt
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Traces == Data.traces
F(clause, ok) == IF ok THEN {} ELSE {clause}
Sets(ss) == [k \in DOMAIN ss |-> ToSet(ss[k])]

(* ------------------------------ trees ---------------------------------- *)
Start(t) == [part |-> {{a} : a \in 1..Len(t.marks)}, marks |-> t.marks,
             parent |-> [a \in 1..Len(t.marks) |-> 0]]
After(s, e) ==
  CASE e.op = "union" -> [s EXCEPT !.part = Merged(s.part, e.a, e.b)]
    [] e.op = "add" -> [s EXCEPT !.part = Grown1(s.part, e.a, Len(s.marks) + 1),
                                 !.marks = Append(s.marks, 0)]
    [] OTHER -> s
Step(s, e) == [After(s, e) EXCEPT !.parent = IF e.error = "" THEN e.parent ELSE s.parent]
SizeIn(s, a) == Cardinality(ClusterOf(s.part, a))
ResultBad(s, e, n) ==
  CASE e.op = "union" ->
         LET same == ClusterOf(s.part, e.a) = ClusterOf(s.part, e.b) IN
         IF same THEN F("union-result", e.ret = <<0>>)
         ELSE IF Len(e.ret) # 2 THEN {"union-result"}
         ELSE F("union-result",
                /\ {ClusterOf(s.part, e.ret[1]), ClusterOf(s.part, e.ret[2])}
                     = {ClusterOf(s.part, e.a), ClusterOf(s.part, e.b)}
                /\ e.parent[e.ret[2]] = e.ret[1] /\ e.parent[e.ret[1]] = 0)
              \cup F("not-weighted", SizeIn(s, e.ret[1]) >= SizeIn(s, e.ret[2]))
    [] e.op = "find" -> F("wrong-root", e.ret = <<TopOf(e.parent, e.a)>>)
                        \cup F("path-not-shorter",
                             /\ \A x \in DOMAIN s.parent :
                                  DepthOf(e.parent, x) <= DepthOf(s.parent, x)
                             /\ DepthOf(s.parent, e.a) > 1 =>
                                  DepthOf(e.parent, e.a) < DepthOf(s.parent, e.a))
    [] e.op = "parity" -> F("parity", e.ret = <<OddIn(n.marks, ClusterOf(n.part, e.a))>>)
    [] e.op = "add" -> {}
TreeBad(s, e) ==
  LET n == Step(s, e) IN
  IF e.error # "" THEN {"raised"}
  ELSE IF Len(e.parent) # Len(n.marks) \/ ~Rooted(e.parent) THEN {"not-trees"}
  ELSE F("partition", Partition(e.parent) = n.part)
       \cup F("links", Linked(e.parent, Sets(e.children)))
       \cup (IF Partition(e.parent) # n.part THEN {}
             ELSE F("data", DataOK(n.part, n.marks, e.parent, e.size, e.parity, e.bnd))
                  \cup ResultBad(s, e, n))

(* ------------------------------ growth --------------------------------- *)
Graph(t) == [nodes |-> 1..t.nodes, bound |-> ToSet(t.bound), edges |-> DOMAIN t.edges,
             ends |-> [k \in DOMAIN t.edges |-> ToSet(t.edges[k])]]
RECURSIVE Settle(_, _, _)
Settle(g, syn, st) == IF Unsatisfied(g, syn, Grown(g, st)) = {} THEN st
                      ELSE Settle(g, syn, TLCEval(GrowAll(g, syn, st)))
MarksOf(g, syn) == [a \in g.nodes |-> IF a \in g.bound THEN 2 ELSE IF a \in syn THEN 1 ELSE 0]
\* Nodes of a cluster with an edge that is not fully grown.
Rim(g, st, K) == {a \in K : \E q \in g.edges : a \in g.ends[q] /\ st[q] # 2}
ForestBad(g, es, e) ==
  LET used == {e.forest[k][1] : k \in DOMAIN e.forest}
      verts == UNION {g.ends[q] : q \in es}
  IN F("forest-edges", used \subseteq es /\ Cardinality(used) = Len(e.forest)
                       /\ ToSet(e.forestnodes) = verts /\ Len(e.forestnodes) = Cardinality(verts))
     \cup F("not-spanning", \A K \in {Component(g, es, a) : a \in verts} :
                               \A a \in K : Component(g, used, a) = K)
     \cup F("not-forest", Cardinality(used)
                          = Cardinality(verts) - Cardinality({Component(g, es, a) : a \in verts}))
     \cup F("forest-qubits", \A k \in DOMAIN e.forest : e.forest[k][2])
GrowthBad(t, e) ==
  IF e.error # "" THEN {"raised"}
  ELSE
  LET g == Graph(t)
      syn == ToSet(e.syn)
      marks == MarksOf(g, syn)
      st0 == [q \in g.edges |-> IF q \in ToSet(e.erased) THEN 2 ELSE 0]
      part0 == Components(g, Grown(g, st0))
      st1 == TLCEval(Settle(g, syn, st0))
      part1 == Components(g, Grown(g, st1))
      odd0 == {ClusterOf(part0, e.odd[k]) : k \in DOMAIN e.odd}
  IN F("initial-clusters", TreesOK(part0, marks, e.first) /\ Linked(e.first.parent, Sets(e.first.children)))
     \cup F("initial-list", {ClusterOf(part0, e.tops[k]) : k \in DOMAIN e.tops} = part0
                            /\ Len(e.tops) = Cardinality(part0)
                            /\ \A k \in DOMAIN e.tops : e.first.parent[e.tops[k]] = 0)
     \cup F("initial-odd", odd0 = Unsatisfied(g, syn, Grown(g, st0)) /\ Len(e.odd) = Cardinality(odd0))
     \cup F("initial-support", e.status0 = [q \in DOMAIN t.edges |-> st0[q]])
     \cup F("initial-rim", \A k \in DOMAIN e.tops :
               ToSet(e.rims[k]) = Rim(g, st0, ClusterOf(part0, e.tops[k])))
     \cup F("growth", e.status1 = [q \in DOMAIN t.edges |-> st1[q]])
     \cup F("final-clusters", TreesOK(part1, marks, e.last) /\ Linked(e.last.parent, Sets(e.last.children)))
     \cup ForestBad(g, Grown(g, st1), e)

(* A support table grown by hand: e.ops lists <<edge, says grown, status>>.     *)
SupportBad(t, e) ==
  IF e.error # "" THEN {"raised"}
  ELSE
  LET run == FoldLeft(LAMBDA s, o :
                LET old == s.st[o[1]]
                    new == IF old = 2 THEN 2 ELSE old + 1
                IN [st |-> [s.st EXCEPT ![o[1]] = new],
                    ok |-> s.ok /\ o[3] = new /\ (o[2] <=> (old = 1))],
                [st |-> [q \in DOMAIN t.edges |-> IF q \in ToSet(e.erased) THEN 2 ELSE 0],
                 ok |-> TRUE], e.ops)
  IN F("support-growth", run.ok)
     \cup F("support-table", e.status = run.st)

VARIABLES tid, l, bad, s
vars == <<tid, l, bad, s>>
NoState == [part |-> {}, marks |-> <<>>, parent |-> <<>>]
Init == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ s = NoState
Verdict == PrintT("VERDICT " \o ToJson([tid |-> tid, bad |-> bad']))
Tree(t) == t.sort = "tree"
EventBad(t, e) == IF Tree(t) THEN TreeBad(s, e)
                  ELSE IF e.kind = "support" THEN SupportBad(t, e) ELSE GrowthBad(t, e)
Next ==
  LET t == Traces[tid] IN
  /\ UNCHANGED tid
  /\ \/ /\ l = 0 /\ t.error # ""
        /\ l' = -1 /\ bad' = {<<0, "raised">>} /\ UNCHANGED s /\ Verdict
     \/ /\ l = 0 /\ t.error = ""
        /\ l' = 1 /\ UNCHANGED bad /\ s' = IF Tree(t) THEN Start(t) ELSE s
     \/ /\ l > 0 /\ l <= Len(t.events)
        /\ LET now == {<<l, x>> : x \in EventBad(t, t.events[l])} IN
           /\ bad' = bad \cup now
           \* nothing more can be said once the trees are broken
           /\ IF Tree(t) /\ now # {} THEN l' = Len(t.events) + 1 ELSE l' = l + 1
        /\ s' = IF Tree(t) THEN Step(s, t.events[l]) ELSE s
     \/ /\ l > 0 /\ l = Len(t.events) + 1 /\ t.error = ""
        /\ l' = -1 /\ UNCHANGED <<bad, s>> /\ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
