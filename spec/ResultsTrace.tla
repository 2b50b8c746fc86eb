---------------------------- MODULE ResultsTrace ----------------------------
(* C20.  A trace is a history of simulations on one results file.  Each event  *)
(* has the file before and after (characters, or ABSENT), the columns and the  *)
(* fields the run must give, with the time fields only described.  Files that  *)
(* other ranks were told to use must stay absent (e.others).                   *)
EXTENDS Results, Json, IOUtils
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Traces == Data.traces
F(clause, ok) == IF ok THEN {} ELSE {clause}
Digits == 48..57
IsTime(f) == Len(f) = 8 /\ \A k \in 1..8 : IF k \in {3, 6} THEN f[k] = 58 ELSE f[k] \in Digits
IsNumber(f) == f # <<>> /\ \A k \in DOMAIN f : f[k] \in Digits \cup {46, 43, 45, 101}
Fits(field, want) == CASE want = <<-1>> -> IsTime(field)
                       [] want = <<-2>> -> IsNumber(field)
                       [] OTHER -> field = want
EventBad(t, e) ==
  IF e.error # "" THEN {"raised"}
  ELSE IF e.after = ABSENT THEN {"no-file"}
  ELSE
  LET existed == e.before # ABSENT
      tail == IF existed THEN SubSeq(e.after, Len(e.before) + 1, Len(e.after)) ELSE e.after
      new == Parse(tail)
      header == LET rs == IF existed THEN Rows(e.before) ELSE new.rows
                IN IF rs = <<>> THEN <<>> ELSE Head(rs)
      row == IF new.rows = <<>> THEN <<>> ELSE Last(new.rows)
  IN IF existed /\ ~IsPrefix(e.before, e.after) THEN {"earlier-lines-changed"}
     ELSE IF ~WellFormed(new) THEN {"not-csv"}
     ELSE IF Len(new.rows) # (IF existed THEN 1 ELSE 2) THEN {"not-one-row"}
     ELSE F("header", existed \/ header = e.columns)
          \cup F("row-not-aligned", Len(row) = Len(header) /\ header = e.columns)
          \cup F("fields", Len(row) = Len(e.fields)
                           /\ \A k \in DOMAIN row : Fits(row[k], e.fields[k]))
          \cup F("other-rank-wrote", e.others = 0)
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Verdict == PrintT("VERDICT " \o ToJson([tid |-> tid, bad |-> bad']))
Next ==
  LET t == Traces[tid] IN
  /\ UNCHANGED tid
  /\ \/ /\ l = 0 /\ t.error # ""
        /\ l' = -1 /\ bad' = {<<0, "raised">>} /\ Verdict
     \/ /\ l = 0 /\ t.error = ""
        /\ l' = 1 /\ UNCHANGED bad
     \/ /\ l > 0 /\ l <= Len(t.events)
        /\ l' = l + 1
        /\ bad' = bad \cup {<<l, x>> : x \in EventBad(t, t.events[l])}
     \/ /\ l > 0 /\ l = Len(t.events) + 1 /\ t.error = ""
        /\ l' = -1 /\ UNCHANGED bad /\ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
