--------------------------- MODULE MonteCarloTrace ---------------------------
(* C19.  Events:                                                               *)
(*  "script"   trials with prescribed noise: e.ranks is one list per rank of   *)
(*             the kinds of noise it asked for, e.streams the random number    *)
(*             each application drew; e.errors the count at the root; "again"  *)
(*             holds the same for a second run with the same seed.             *)
(*  "outcomes" every sequence of outcomes of a few trials (from the model).    *)
(*  "long"     many trials: e.applied applications of noise, of which e.failed *)
(*             left a logical error behind; with many ranks, e.draws holds what *)
(*             each application drew.                                          *)
(*  "real"     trials with the real noise layers: e.left lists, per trial, the *)
(*             flipped syndrome qubits left on the code after it; e.noise and   *)
(*             e.noise2 those after each application of noise, in two runs     *)
(*             with the same seed.                                             *)
EXTENDS MonteCarlo, Homology, Json, IOUtils
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Traces == Data.traces
Conf(t) == [dims |-> t.dims, bounds |-> CodeBounds(t.code, t.ec)]
F(clause, ok) == IF ok THEN {} ELSE {clause}
Q(t, idx) == {t.qubits[k] : k \in ToSet(idx)}
RunBad(e, r) ==
  LET kinds == Concat(r.ranks)
      draws == Concat(r.streams)
  IN F("not-each-trial-once", Len(kinds) = e.trials)
     \cup F("range", r.errors \in 0..e.trials)
     \cup F("count", r.errors = Fails([k \in DOMAIN kinds |-> Succeeds(kinds[k], e.setting)]))
     \cup F("same-noise-again", Cardinality(ToSet(draws)) = Len(draws))
ScriptBad(e) ==
  RunBad(e, e.first) \cup RunBad(e, e.again)
  \cup F("not-reproducible", e.seeded => e.first.errors = e.again.errors
                                         /\ e.first.streams = e.again.streams)
RealBad(t, e) ==
  LET c == Conf(t) IN
  F("not-each-trial-once", Len(e.left) = e.trials)
  \cup F("range", e.errors \in 0..e.trials)
  \cup F("not-decoded", \A k \in DOMAIN e.left : SyndromeOf(c, t.ec, Q(t, e.left[k])) = {})
  \cup F("count", e.errors = Cardinality({k \in DOMAIN e.left :
                                ~LogicallyTrivial(c, t.code, t.ec, Q(t, e.left[k]))}))
  \cup F("not-reproducible", e.seeded => e.noise = e.noise2)
EventBad(t, e) ==
  IF e.error # "" THEN {"raised"}
  ELSE CASE e.kind = "script" -> ScriptBad(e)
         [] e.kind = "long" -> F("not-each-trial-once", e.applied = e.trials)
                               \cup F("count", e.errors = e.failed)
                               \cup F("same-noise-again", Cardinality(ToSet(e.draws)) = Len(e.draws))
         [] e.kind = "real" -> RealBad(t, e)
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Verdict == PrintT("VERDICT " \o ToJson([tid |-> tid, bad |-> bad']))
Next ==
  LET t == Traces[tid] IN
  /\ UNCHANGED tid
  /\ \/ /\ l = 0 /\ t.error # ""
        /\ l' = -1 /\ bad' = {<<0, "raised">>} /\ Verdict
     \/ /\ l = 0 /\ t.error = ""
        /\ l' = 1 /\ UNCHANGED bad
     \/ /\ l > 0 /\ l <= Len(t.events)
        /\ l' = l + 1
        /\ bad' = bad \cup {<<l, x>> : x \in EventBad(t, t.events[l])}
     \/ /\ l > 0 /\ l = Len(t.events) + 1 /\ t.error = ""
        /\ l' = -1 /\ UNCHANGED bad /\ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
