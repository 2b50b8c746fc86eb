----------------------------- MODULE TrialTrace -----------------------------
(* C23.  A trace is a history of trials on one code.  Each event is one trial,   *)
(* run on the used objects (e.used) and on new ones (e.fresh) from the same      *)
(* seed and settings (e.noise, e.decoder, e.method).  Both list digests of the   *)
(* variables of the trial that are written, the odd stabilizers and the weight of *)
(* the recovery (where it is determined), and whether the recovery clears it.    *)
EXTENDS Trial, Json, IOUtils, SequencesExt
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Traces == Data.traces
F(clause, ok) == IF ok THEN {} ELSE {clause}
\* The steps whose products are compared: those of the specification.
\* (Micronodes may keep outcomes of quadratures that are not measured again.)
Seen(e) == {"bit", "label", "prob", "weight", "edge"} \cup IF e.noise = "cv" THEN {"outcome"} ELSE {}
Compared(e) == Seen(e) \cap UNION {st[3] : st \in ToSet(Steps(e.noise, e.decoder, e.method))}
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Verdict == PrintT("VERDICT " \o ToJson([tid |-> tid, bad |-> bad']))
EventBad(t, e) ==
  IF e.fresh.error # "" \/ e.used.error # ""
  THEN F("raised-only-on-used", e.fresh.error # "") \cup F("raised", e.fresh.error = "")
  ELSE UNION {F("stale-" \o v, e.fresh.vars[v] = e.used.vars[v]) : v \in Compared(e)}
       \cup F("stale-syndrome", e.fresh.odd = e.used.odd)
       \cup F("stale-recovery", e.fresh.total = e.used.total)
       \cup F("not-cleared", e.fresh.cleared /\ e.used.cleared)
Next ==
  LET t == Traces[tid] IN
  /\ UNCHANGED tid
  /\ \/ /\ l = 0 /\ t.error # ""
        /\ l' = -1 /\ bad' = {<<0, "raised">>} /\ Verdict
     \/ /\ l = 0 /\ t.error = ""
        /\ l' = 1 /\ UNCHANGED bad
     \/ /\ l > 0 /\ l <= Len(t.events)
        /\ l' = l + 1
        /\ bad' = bad \cup {<<l, b>> : b \in EventBad(t, t.events[l])}
     \/ /\ l > 0 /\ l = Len(t.events) + 1 /\ t.error = ""
        /\ l' = -1 /\ UNCHANGED bad /\ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
