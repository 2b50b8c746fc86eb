--------------------------- MODULE FamiliesTrace ---------------------------
(* C18.  Events: "make" e.name, e.n, e.order (number of vertices), e.edges over  *)
(* vertex numbers, e.triples; "outline" the same for a graph too large to list;   *)
(* "refuse" an argument that is not a positive integer: e.error, e.valueerror.    *)
EXTENDS Families, Json, IOUtils, SequencesExt
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Traces == Data.traces
F(clause, ok) == IF ok THEN {} ELSE {clause}
EventBad(t, e) ==
  IF e.kind = "refuse" THEN F("not-refused", e.error # "" /\ e.valueerror)
  ELSE IF e.error # "" THEN {"raised"}
  ELSE IF e.kind = "outline"
  THEN F("number-of-vertices", e.order = e.n)
       \cup F("outline", Outlined(e.name, [e EXCEPT !.degrees = ToSet(e.degrees)], e.n))
       \cup F("not-three-coordinates", e.triples)
  ELSE F("number-of-vertices", e.order = e.n)
       \cup F("edges", LET G == {{e.edges[k][1], e.edges[k][2]} : k \in DOMAIN e.edges}
                       IN Cardinality(G) = Len(e.edges) /\ Named(e.name, G, e.n))
       \cup F("not-three-coordinates", e.triples)
       \cup F("not-fresh", e.fresh)
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Verdict == PrintT("VERDICT " \o ToJson([tid |-> tid, bad |-> bad']))
Next ==
  LET t == Traces[tid] IN
  /\ UNCHANGED tid
  /\ \/ /\ l = 0 /\ t.error # ""
        /\ l' = -1 /\ bad' = {<<0, "raised">>} /\ Verdict
     \/ /\ l = 0 /\ t.error = ""
        /\ l' = 1 /\ UNCHANGED bad
     \/ /\ l > 0 /\ l <= Len(t.events)
        /\ l' = l + 1
        /\ bad' = bad \cup {<<l, x>> : x \in EventBad(t, t.events[l])}
     \/ /\ l > 0 /\ l = Len(t.events) + 1 /\ t.error = ""
        /\ l' = -1 /\ UNCHANGED bad /\ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
