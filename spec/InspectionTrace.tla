--------------------------- MODULE InspectionTrace ---------------------------
(* C22.  Events: "inspect" e.name with the state before and after, a digest    *)
(* per component; "decode" the same decoding twice without and once with       *)
(* drawing, from the same state: what it returned and what it left on the code. *)
EXTENDS Inspection, Json, IOUtils, SequencesExt
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Traces == Data.traces
F(clause, ok) == IF ok THEN {} ELSE {clause}
EventBad(t, e) ==
  (IF e.error = "" THEN {} ELSE IF e.kind = "inspect" /\ e.mayraise THEN {} ELSE {"raised " \o e.name})
  \cup
  (CASE e.kind = "inspect" -> {"changed " \o c \o " by " \o e.name : c \in Changed(e.before, e.after)}
     [] e.kind = "decode" ->
          IF e.error # "" THEN {}
          ELSE F("drawing-changes-recovery", e.off1.result = e.off2.result => e.on.result = e.off1.result)
               \cup F("drawing-changes-outcome", e.off1.left = e.off2.left => e.on.left = e.off1.left)
               \cup {"changed " \o c \o " by drawing" : c \in Changed(e.off1.state, e.on.state)})
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Verdict == PrintT("VERDICT " \o ToJson([tid |-> tid, bad |-> bad']))
Next ==
  LET t == Traces[tid] IN
  /\ UNCHANGED tid
  /\ \/ /\ l = 0 /\ t.error # ""
        /\ l' = -1 /\ bad' = {<<0, "raised">>} /\ Verdict
     \/ /\ l = 0 /\ t.error = ""
        /\ l' = 1 /\ UNCHANGED bad
     \/ /\ l > 0 /\ l <= Len(t.events)
        /\ l' = l + 1
        /\ bad' = bad \cup {<<l, x>> : x \in EventBad(t, t.events[l])}
     \/ /\ l > 0 /\ l = Len(t.events) + 1 /\ t.error = ""
        /\ l' = -1 /\ UNCHANGED bad /\ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
