------------------------------ MODULE LCTrace ------------------------------
(* C17.  A trace is one graph t.g (edges) on t.n vertices; events compare it    *)
(* with another: e.n, e.h, e.path (complementations leading there, or none:      *)
(* e.walked), e.got, e.tensor and e.global (both output forms, as sequences of   *)
(* blocks and as a matrix), e.none (nothing returned), e.same (graphs unchanged).*)
(* Traces with t.n = 0 are about the algebra: e.m a matrix (the sets of ones of  *)
(* its rows) of e.cols columns, e.r its reduction in the first e.upto columns    *)
(* with e.p pivots, e.null the basis of its null space.                          *)
EXTENDS LC, Gf2, Json, IOUtils
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Traces == Data.traces
F(clause, ok) == IF ok THEN {} ELSE {clause}
GraphOf(edges) == {{edges[k][1], edges[k][2]} : k \in DOMAIN edges}
Walk(G, path) == FoldLeft(LAMBDA g, v : LocalComp(g, v), G, path)
Exact == 6
GlobalIs(m, cert, n) ==
  /\ Len(m) = 2 * n
  /\ \A i \in 1..n : Len(m[i]) = 2 * n /\ Len(m[n + i]) = 2 * n
  /\ \A i, j \in 1..n :
       LET blk(k) == IF i = j THEN cert[i][k] ELSE 0
       IN m[i][j] = blk(1) /\ m[i][n + j] = blk(2) /\ m[n + i][j] = blk(3) /\ m[n + i][n + j] = blk(4)
EventBad(t, e, G, orbit) ==
  IF e.error # "" THEN {"raised"}
  ELSE LET H == GraphOf(e.h)
           n == t.n
           sizes == n = e.n /\ n > 0
           \* decided by the orbit, or by a walk that leads there
           equal == sizes /\ IF e.walked THEN Walk(G, e.path) = H ELSE H \in orbit
       IN F("not-a-verdict", e.boolean)
          \cup F("graph-changed", e.same)
          \cup F("forms-disagree", e.got = e.got2)
          \cup (IF ~e.got
                THEN F("missed-equivalence", ~equal)
                     \cup F("certificate-without-equivalence", e.none)
                ELSE F("size-mismatch", sizes)
                     \cup (IF ~sizes THEN {} ELSE
                     F("wrong-equivalence", n <= Exact => H \in orbit)
                     \cup F("certificate-shape", Len(e.tensor) = n /\
                           \A i \in DOMAIN e.tensor : e.tensor[i] \in
                             {0, 1} \X {0, 1} \X {0, 1} \X {0, 1})
                     \cup (IF Len(e.tensor) # n THEN {} ELSE
                       F("certificate-invalid", Certifies(e.tensor, G, H, n))
                       \cup F("global-form", GlobalIs(e.global, e.tensor, n)))))
SetsOf(m) == [k \in DOMAIN m |-> ToSet(m[k])]
AlgebraBad(e) ==
  IF e.error # "" THEN {"raised"}
  ELSE LET M == SetsOf(e.m)
       IN F("row-reduction", e.binary /\ Reduced(M, SetsOf(e.r), e.upto, e.p))
          \cup F("null-space", e.binary /\ NullBasis(M, e.cols, SetsOf(e.null)))
          \cup F("matrix-changed", e.same)
VARIABLES tid, l, bad, orbit
vars == <<tid, l, bad, orbit>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ orbit = {}
Verdict == PrintT("VERDICT " \o ToJson([tid |-> tid, bad |-> bad']))
Next ==
  LET t == Traces[tid] IN
  /\ UNCHANGED tid
  /\ \/ /\ l = 0 /\ t.error # ""
        /\ l' = -1 /\ bad' = {<<0, "raised">>} /\ UNCHANGED orbit /\ Verdict
     \/ /\ l = 0 /\ t.error = ""
        /\ l' = 1 /\ UNCHANGED bad
        /\ orbit' = IF t.n \in 1..Exact THEN Orbit(GraphOf(t.g), t.n) ELSE {}
     \/ /\ l > 0 /\ l <= Len(t.events)
        /\ l' = l + 1 /\ UNCHANGED orbit
        /\ bad' = bad \cup {<<l, x>> : x \in IF t.n = 0 THEN AlgebraBad(t.events[l])
                                       ELSE EventBad(t, t.events[l], GraphOf(t.g), orbit)}
     \/ /\ l > 0 /\ l = Len(t.events) + 1 /\ t.error = ""
        /\ l' = -1 /\ UNCHANGED <<bad, orbit>> /\ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
