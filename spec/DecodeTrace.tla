----------------------------- MODULE DecodeTrace -----------------------------
(* C04, C05, C06, C07: a trace is the history of one code object.  Qubits are *)
(* numbers into t.qubits.  Each event is one decode:                          *)
(*   e.ones     flipped qubits before          e.rec    returned recovery     *)
(*   e.after    flipped qubits after recovery  e.others other bits unchanged  *)
(* and, when the property needs them, weights, erasures, the matching and the *)
(* verdict.  Which clauses apply is fixed by t.judge.                         *)
EXTENDS Decoding, Json, IOUtils

Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Traces == Data.traces
Conf(t) == [dims |-> t.dims, bounds |-> CodeBounds(t.code, t.ec)]
F(clause, ok) == IF ok THEN {} ELSE {clause}
Q(t, idx) == {t.qubits[k] : k \in ToSet(idx)}

BasicBad(t, e) ==
  LET c == Conf(t)
      E == Q(t, e.ones)
      R == Q(t, e.rec)
      A == Q(t, e.after)
  IN F("recovery-outside-code", RecoveryQubitsOK(c, t.ec, R))
     \cup F("recovery-repeats", Cardinality(ToSet(e.rec)) = Len(e.rec))
     \cup F("syndrome-not-cleared", ClearsSyndrome(c, t.ec, E, R))
     \cup F("recovery-of-nothing", EmptyWhenClear(c, t.ec, E, R))
     \cup F("recovery-applied-wrongly", A = SymDiff(E, R))
     \cup F("other-bits-changed", e.others)
     \cup F("reports-odd-stabilizers", e.odd_after = 0)

\* Matching: pairs of nodes, each the coordinate set it stands for; virtual
\* points are the singleton of their boundary point.
MatchBad(t, e) ==
  LET c == Conf(t)
      E == Q(t, e.ones)
      W == [q \in {t.qubits[k] : k \in DOMAIN t.qubits} |->
              e.w[CHOOSE k \in DOMAIN t.qubits : t.qubits[k] = q]]
      syn == SyndromeOf(c, t.ec, E)
      cost == WeightOf(W, Q(t, e.rec))
      \* every recovery weighs at least as much as the least one: with many odd
      \* stabilizers the recovery is only compared with a given rival
      opt == IF e.exact THEN OptimalCost(c, t.ec, TLCEval(W), syn) ELSE cost
      stabs == {Faces(c, s) : s \in syn}
      ends == [k \in 1..(2 * Len(e.pairs)) |->
                 LET p == e.pairs[(k + 1) \div 2]
                 IN ToSet(IF k % 2 = 1 THEN p.u ELSE p.v)]
      isStab(v) == Cardinality(v) > 1
  IN F("recovery-not-minimal", cost = opt)
     \cup F("rival-is-no-recovery-HARNESS", ClearsSyndrome(c, t.ec, E, Q(t, e.rival)))
     \cup F("recovery-heavier-than-rival", cost <= WeightOf(W, Q(t, e.rival)))
     \cup F("matching-not-perfect",
            /\ {ends[k] : k \in {k \in DOMAIN ends : isStab(ends[k])}} = stabs
            /\ Cardinality({k \in DOMAIN ends : isStab(ends[k])}) = Cardinality(stabs))
     \cup F("matching-weight", e.total = opt)
     \cup F("virtual-points-matched", e.virtual_ok)

RadiusBad(t, e) ==
  LET c == Conf(t)
      E == Q(t, e.ones)
      S == Q(t, e.erased)
      tt == Cardinality(E \ S)
  IN IF ~WithinRadius(t.dims, t.code, t.ec, tt, Cardinality(S)) THEN {"outside-radius-HARNESS"}
     ELSE F("within-radius-not-corrected",
              LogicallyTrivial(c, t.code, t.ec, Q(t, e.after)))
          \cup F("within-radius-reported-failed", e.result)

EventBad(t, e) ==
  IF e.error # "" THEN {"raised"}
  ELSE BasicBad(t, e)
       \cup (IF "match" \in ToSet(t.judge) THEN MatchBad(t, e) ELSE {})
       \cup (IF "radius" \in ToSet(t.judge) THEN RadiusBad(t, e) ELSE {})

VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Verdict == PrintT("VERDICT " \o ToJson([tid |-> tid, bad |-> bad']))
Next ==
  LET t == Traces[tid] IN
  /\ UNCHANGED tid
  /\ \/ /\ l = 0 /\ t.error # ""
        /\ l' = -1 /\ bad' = {<<0, "raised">>} /\ Verdict
     \/ /\ l = 0 /\ t.error = ""
        /\ l' = 1 /\ UNCHANGED bad
     \/ /\ l > 0 /\ l <= Len(t.events)
        /\ l' = l + 1
        /\ bad' = bad \cup {<<l, x>> : x \in EventBad(t, t.events[l])}
     \/ /\ l > 0 /\ l = Len(t.events) + 1 /\ t.error = ""
        /\ l' = -1 /\ UNCHANGED bad /\ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
