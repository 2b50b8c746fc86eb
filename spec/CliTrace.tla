------------------------------ MODULE CliTrace ------------------------------
(* C26.  A trace is a history of command lines in one directory.  Each event:    *)
(* the line (as in Cli: e.line), whether it was refused (e.refused), the results *)
(* file before and after, the columns and fields it must gain (the decoder left  *)
(* to the specification), and what was run: e.calls decoder calls, e.used the    *)
(* decoder and e.same whether code, noise and options were those asked for.      *)
EXTENDS Cli, Json, IOUtils
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Traces == Data.traces
F(clause, ok) == IF ok THEN {} ELSE {clause}
Digits == 48..57
IsTime(f) == Len(f) = 8 /\ \A k \in 1..8 : IF k \in {3, 6} THEN f[k] = 58 ELSE f[k] \in Digits
IsNumber(f) == f # <<>> /\ \A k \in DOMAIN f : f[k] \in Digits \cup {46, 43, 45, 101}
LineOf(e) == [parts |-> ToSet(e.line.parts), decoder |-> e.line.decoder, known |-> e.line.known,
              literal |-> e.line.literal]
Fits(field, want, dec) == CASE want = <<-1>> -> IsTime(field)
                            [] want = <<-2>> -> IsNumber(field)
                            [] want = <<-3>> -> field = dec
                            [] OTHER -> field = want
EventBad(t, e) ==
  IF e.error # "" THEN {"driver-error"}
  ELSE IF ~Accepted(LineOf(e))
  THEN F("not-refused", e.refused) \cup F("refused-but-written", e.after = e.before)
  ELSE IF e.refused THEN {"refused"}
  ELSE IF e.after = ABSENT THEN {"no-file"}
  ELSE
  LET dec == DecoderOf(e.line.decoder)
      existed == e.before # ABSENT
      tail == IF existed THEN SubSeq(e.after, Len(e.before) + 1, Len(e.after)) ELSE e.after
      new == Parse(tail)
      row == IF new.rows = <<>> THEN <<>> ELSE Last(new.rows)
  IN IF existed /\ ~IsPrefix(e.before, e.after) THEN {"earlier-lines-changed"}
     ELSE IF ~WellFormed(new) THEN {"not-csv"}
     ELSE IF Len(new.rows) # (IF existed THEN 1 ELSE 2) THEN {"not-one-row"}
     ELSE F("header", existed \/ Head(new.rows) = e.columns)
          \cup F("fields", Len(row) = Len(e.fields)
                           /\ \A k \in DOMAIN row : Fits(row[k], e.fields[k], dec))
          \cup (IF ~e.observed THEN {} ELSE
                F("trials-run", e.calls = e.trials)
                \cup F("other-decoder-run", \A k \in DOMAIN e.used : e.used[k] = dec)
                \cup F("other-settings-run", e.same))
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Verdict == PrintT("VERDICT " \o ToJson([tid |-> tid, bad |-> bad']))
Next ==
  LET t == Traces[tid] IN
  /\ UNCHANGED tid
  /\ \/ /\ l = 0 /\ t.error # ""
        /\ l' = -1 /\ bad' = {<<0, "raised">>} /\ Verdict
     \/ /\ l = 0 /\ t.error = ""
        /\ l' = 1 /\ UNCHANGED bad
     \/ /\ l > 0 /\ l <= Len(t.events)
        /\ l' = l + 1
        /\ bad' = bad \cup {<<l, x>> : x \in EventBad(t, t.events[l])}
     \/ /\ l > 0 /\ l = Len(t.events) + 1 /\ t.error = ""
        /\ l' = -1 /\ UNCHANGED bad /\ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
