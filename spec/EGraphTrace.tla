---------------------------- MODULE EGraphTrace ----------------------------
(* C16.  A trace is a history of calls on one graph: t.start and, per event,    *)
(* e.op with its arguments, e.error, the state e.st after it (both index         *)
(* dictionaries, and st.slices: axis, coordinate, qubits listed), and for        *)
(* matrices e.rows, e.kind.  Every event is judged from                          *)
(* the recorded state before it.                                                 *)
EXTENDS EGraph, Json, IOUtils
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Traces == Data.traces
F(clause, ok) == IF ok THEN {} ELSE {clause}
FromPairs(ps) == [x \in {ps[k][1] : k \in DOMAIN ps} |->
                    ps[CHOOSE k \in DOMAIN ps : ps[k][1] = x][2]]
StateOf(r) ==
  [nodes |-> ToSet(r.nodes),
   edges |-> {<<{r.edges[k][1], r.edges[k][2]}, r.edges[k][3]>> : k \in DOMAIN r.edges},
   hasIdx |-> r.hasIdx, idx |-> FromPairs(r.to_indices),
   hasMacro |-> r.hasMacro, macro |-> FromPairs(r.macro)]
\* The same up to the caching of indices when none were there.
SameButCache(a, b) == a = b \/ (~a.hasIdx /\ b = Indexed(a))
EventBad(pre, e) ==
  LET p == Post(pre, e.op)
      r == e.st
      now == StateOf(r)
      inv == FromPairs(r.to_points)
      refused == e.error # ""
  IN F("not-inverse", r.hasIdx =>
          /\ Len(r.to_indices) = Len(r.to_points)
          /\ \A k \in DOMAIN r.to_points : r.to_points[k][2] \in DOMAIN now.idx
                                         /\ now.idx[r.to_points[k][2]] = r.to_points[k][1]
          /\ \A x \in DOMAIN now.idx : now.idx[x] \in DOMAIN inv /\ inv[now.idx[x]] = x)
     \cup F("indices-not-a-bijection", Bijective(now))
     \cup F("macronodes-not-exact", MacroExact(now))
     \cup F("slice", \A k \in DOMAIN r.slices : LET s == r.slices[k]
                       IN /\ ToSet(s[3]) = {q \in now.nodes : q[s[1]] = s[2]}
                          /\ Len(s[3]) = Cardinality(ToSet(s[3])))
     \cup F("macronode-added-or-dropped", r.hasMacro = pre.hasMacro)
     \cup (IF refused
           THEN F("refused", ~p.ok)
                \cup F("changed-by-refused-call", SameButCache(pre, now))
           ELSE F("not-refused", p.ok)
                \cup (IF ~p.ok THEN {} ELSE
                  F("qubits", now.nodes = p.st.nodes)
                  \cup F("edges", now.edges = p.st.edges)
                  \cup F("index-changed", (pre.hasIdx => now.hasIdx) /\
                          \A x \in DOMAIN pre.idx \cap now.nodes :
                             x \in DOMAIN now.idx /\ now.idx[x] = pre.idx[x])
                  \cup F("index", e.op.op \in {"index", "dense", "sparse"} => now.hasIdx)
                  \cup F("index-order", (~pre.hasIdx /\ now.hasIdx /\ e.op.op # "add")
                                            => now.idx = p.st.idx)
                  \cup F("macronodes", now.macro = p.st.macro)
                  \cup F("adjacency", e.op.op \in {"dense", "sparse"} =>
                          (now.hasIdx /\ Bijective(now) => e.rows = Matrix(now)))
                  \cup F("matrix-kind", e.op.op \in {"dense", "sparse"} => e.kind = e.op.op)
                  \cup F("returned-indices", e.op.op = "index" => e.returned)))
VARIABLES tid, l, bad, pre
vars == <<tid, l, bad, pre>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ pre = {}
Verdict == PrintT("VERDICT " \o ToJson([tid |-> tid, bad |-> bad']))
Next ==
  LET t == Traces[tid] IN
  /\ UNCHANGED tid
  /\ \/ /\ l = 0 /\ t.error # ""
        /\ l' = -1 /\ bad' = {<<0, "raised">>} /\ UNCHANGED pre /\ Verdict
     \/ /\ l = 0 /\ t.error = ""
        /\ l' = 1 /\ UNCHANGED bad /\ pre' = StateOf(t.start)
     \/ /\ l > 0 /\ l <= Len(t.events)
        /\ l' = l + 1
        /\ pre' = StateOf(t.events[l].st)
        /\ bad' = bad \cup {<<l, x>> : x \in EventBad(pre, t.events[l])}
     \/ /\ l > 0 /\ l = Len(t.events) + 1 /\ t.error = ""
        /\ l' = -1 /\ UNCHANGED <<bad, pre>> /\ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
