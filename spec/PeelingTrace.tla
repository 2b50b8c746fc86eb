---------------------------- MODULE PeelingTrace ----------------------------
(* C06: peelings of forests by the real code.  e.u, e.v: the ends of each edge *)
(* e.par: the odd nodes, e.rec: the edges returned, e.left: edges not removed. *)
EXTENDS Peeling, TLC, Json, IOUtils
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Traces == Data.traces
F(clause, ok) == IF ok THEN {} ELSE {clause}
Members(s) == {s[k] : k \in DOMAIN s}
\* Nodes that occur an odd number of times at the ends of the recovery; sorted
\* occurrences would be quicker, but a function of counts is fast enough.
RECURSIVE Count(_, _, _)
Count(e, k, odd) ==
  IF k > Len(e.rec) THEN odd
  ELSE Count(e, k + 1, Toggle(odd, {e.u[e.rec[k]], e.v[e.rec[k]]}))
EventBad(t, e) ==
  IF e.error # "" THEN {"raised"}
  ELSE F("recovery-outside-forest", Members(e.rec) \subseteq DOMAIN e.u)
       \cup F("recovery-repeats", Cardinality(Members(e.rec)) = Len(e.rec))
       \cup F("syndrome-not-cleared", Count(e, 1, {}) = Members(e.par))
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Verdict == PrintT("VERDICT " \o ToJson([tid |-> tid, bad |-> bad']))
Next ==
  LET t == Traces[tid] IN
  /\ UNCHANGED tid
  /\ \/ /\ l = 0 /\ t.error # ""
        /\ l' = -1 /\ bad' = {<<0, "raised">>} /\ Verdict
     \/ /\ l = 0 /\ t.error = ""
        /\ l' = 1 /\ UNCHANGED bad
     \/ /\ l > 0 /\ l <= Len(t.events)
        /\ l' = l + 1
        /\ bad' = bad \cup {<<l, x>> : x \in EventBad(t, t.events[l])}
     \/ /\ l > 0 /\ l = Len(t.events) + 1 /\ t.error = ""
        /\ l' = -1 /\ UNCHANGED bad /\ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
