------------------------------ MODULE IidTrace ------------------------------
(* C10.  A trace is one code under a history of IID noise: groups of runs from *)
(* the same seed with increasing probability, runs that continue a generator,  *)
(* and refused probabilities.                                                  *)
EXTENDS Iid, TLC, Json, IOUtils, SequencesExt
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Traces == Data.traces
F(clause, ok) == IF ok THEN {} ELSE {clause}
Zero(b) == \A i \in DOMAIN b : b[i] = 0
One(b) == \A i \in DOMAIN b : b[i] = 1
RunBad(t, e, r) ==
  F("bits-not-from-draws", Explained(r.bits, e.draws, r.p))
  \cup F("bit-not-integer", r.ints)
  \cup F("not-one-draw-per-node", r.next = e.next)
  \cup F("node-set", Len(r.bits) = t.nodes)
  \cup F("probability-0", r.p = 0 => Zero(r.bits))
  \cup F("probability-1", r.p = e.top => One(r.bits))
EventBad(t, e) ==
  IF e.kind = "refuse" THEN F("not-refused", e.error # "")
  ELSE IF e.error # "" THEN {"raised"}
  ELSE UNION {RunBad(t, e, e.runs[k]) : k \in DOMAIN e.runs}
       \cup F("draws-not-per-node", \A k \in 1..(Len(e.runs) - 1) :
                 e.runs[k].p <= e.runs[k + 1].p => Monotone(e.runs[k].bits, e.runs[k + 1].bits))
       \cup F("not-reproducible", \A j, k \in DOMAIN e.runs :
                 e.runs[j].p = e.runs[k].p => e.runs[j].bits = e.runs[k].bits)
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Verdict == PrintT("VERDICT " \o ToJson([tid |-> tid, bad |-> bad']))
Next ==
  LET t == Traces[tid] IN
  /\ UNCHANGED tid
  /\ \/ /\ l = 0 /\ t.error # ""
        /\ l' = -1 /\ bad' = {<<0, "raised">>} /\ Verdict
     \/ /\ l = 0 /\ t.error = ""
        /\ l' = 1 /\ UNCHANGED bad
     \/ /\ l > 0 /\ l <= Len(t.events)
        /\ l' = l + 1
        /\ bad' = bad \cup {<<l, x>> : x \in EventBad(t, t.events[l])}
     \/ /\ l > 0 /\ l = Len(t.events) + 1 /\ t.error = ""
        /\ l' = -1 /\ UNCHANGED bad /\ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
