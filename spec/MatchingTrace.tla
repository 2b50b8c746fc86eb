---------------------------- MODULE MatchingTrace ----------------------------
(* C27.  A trace is the life of one matching graph on the vertices 1..t.n:        *)
(*   "add"    an edge e.u, e.v of weight e.w with a path e.path, new or not       *)
(*   "match"  the matching returned, e.pairs, and e.total, its weight as reported *)
(*            e.y, e.sets: a certificate (only needed for many vertices)          *)
(*   "weight" e.u, e.v asked for: e.got, e.path, or e.raised                      *)
(*   "nx"     the edges of the graph converted: e.edges of [u, v, w, path]        *)
EXTENDS Matching, Json, IOUtils
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Traces == Data.traces
F(clause, ok) == IF ok THEN {} ELSE {clause}
Exact == 10
VARIABLES tid, l, bad, W, P
vars == <<tid, l, bad, W, P>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ W = <<>> /\ P = <<>>
Verdict == PrintT("VERDICT " \o ToJson([tid |-> tid, bad |-> bad']))
EventBad(t, e) ==
  IF e.error # "" THEN {"raised"}
  ELSE CASE e.kind = "add" -> {}
    [] e.kind = "match" ->
         LET M == {{e.pairs[k][1], e.pairs[k][2]} : k \in DOMAIN e.pairs}
             perfect == Len(e.pairs) * 2 = t.n /\ IsPerfect(W, t.n, M)
             least == IF t.n <= Exact THEN Best(W, t.n)
                      ELSE IF Certificate(W, t.n, e.y, e.sets) THEN Bound(e.y, e.sets)
                      ELSE Assert(FALSE, "the driver's certificate is wrong")
         IN F("not-perfect", perfect)
            \cup F("not-minimum", perfect => Total(W, M) = least)
            \cup F("wrong-total", perfect => e.total = Total(W, M))
    [] e.kind = "weight" ->
         LET x == {e.u, e.v} IN
         IF x \in DOMAIN W
         THEN F("refused-edge", ~e.raised)
              \cup (IF e.raised THEN {} ELSE F("wrong-weight", e.got = W[x]) \cup F("wrong-path", e.path = P[x]))
         ELSE F("not-refused", e.raised)
    [] e.kind = "nx" ->
         F("wrong-conversion",
           /\ Len(e.edges) = Cardinality(DOMAIN W)
           /\ \A k \in DOMAIN e.edges : LET x == {e.edges[k][1], e.edges[k][2]}
                IN x \in DOMAIN W /\ e.edges[k][3] = W[x] /\ e.edges[k][4] = P[x])
         \cup F("virtual-points", e.virtual)
Next ==
  LET t == Traces[tid] IN
  /\ UNCHANGED tid
  /\ \/ /\ l = 0 /\ t.error # ""
        /\ l' = -1 /\ bad' = {<<0, "raised">>} /\ UNCHANGED <<W, P>> /\ Verdict
     \/ /\ l = 0 /\ t.error = ""
        /\ l' = 1 /\ UNCHANGED <<bad, W, P>>
     \/ /\ l > 0 /\ l <= Len(t.events)
        /\ l' = l + 1
        /\ LET e == t.events[l] IN
           /\ bad' = bad \cup {<<l, b>> : b \in EventBad(t, e)}
           /\ W' = IF e.kind = "add" THEN Put(W, {e.u, e.v}, e.w) ELSE W
           /\ P' = IF e.kind = "add" THEN Put(P, {e.u, e.v}, e.path) ELSE P
     \/ /\ l > 0 /\ l = Len(t.events) + 1 /\ t.error = ""
        /\ l' = -1 /\ UNCHANGED <<bad, W, P>> /\ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
