----------------------------- MODULE WeightTrace -----------------------------
(* C09.  One code object, a history of weight assignments.  Event:            *)
(*   e.decoder, e.method, e.integer, e.pre           the call, with           *)
(*   e.mult / e.den                                  its multiplier           *)
(*   e.squeezed   coordinates of the p-squeezed nodes                         *)
(*   e.prob       name of each qubit's precomputed probability, per qubit     *)
(*   e.hom        number of its homodyne outcome, per qubit                   *)
(*   e.table      e.table[number of neighbours][outcome]: -log of the         *)
(*                conditional probability (capped), by the documented formula *)
(*   e.w          weights found: <<whole, micro, is an integer>>              *)
(*   e.edges      stabilizer-graph edges: <<qubit number, whole, micro>>      *)
(*   e.conns      weights at the connectors are all zero                      *)
EXTENDS Weights, TLC, Json, IOUtils, SequencesExt

Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Traces == Data.traces
Conf(t) == [dims |-> t.dims, bounds |-> CodeBounds(t.code, t.ec)]
F(clause, ok) == IF ok THEN {} ELSE {clause}

LogFor(t, e, k) ==
  LET c == Conf(t)
      q == t.qubits[k]
      n == Swapped(c, ToSet(e.squeezed), q)
  IN IF n >= 2 THEN MinusLog(SwapProb(n))
     ELSE IF e.pre THEN MinusLog(Effective(e.prob[k]))
     ELSE e.table[Cardinality(Nbrs(c, q))][e.hom[k]]
NodeOK(t, e, k) ==
  LET w == e.w[k]
      n == Swapped(Conf(t), ToSet(e.squeezed), t.qubits[k])
  IN IF e.method = "uniform"
     THEN w = <<IF e.decoder = "MWPM" THEN 1 ELSE IF n >= 2 THEN -1 ELSE 2, 0, TRUE>>
     ELSE IF e.integer THEN w[3] /\ w[2] = 0 /\ RoundsTo(w[1], e.mult, e.den, LogFor(t, e, k))
     ELSE Close(w, LogFor(t, e, k))

Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
EdgesBad(t, e) ==
  LET c == Conf(t)
      chk == TLCEval([k \in DOMAIN t.qubits |->
                 LET S == CheckedBy(c, t.ec, t.qubits[k])
                 IN IF Cardinality(S) = 2 THEN S ELSE S \cup {t.qubits[k]}])
      sharing == Cardinality({chk[k] : k \in DOMAIN chk}) < Len(t.qubits)
      found == {chk[x[1]] : x \in ToSet(e.edges)}
  IN F("edge-weight-stale", \A x \in ToSet(e.edges) :
          /\ <<x[2], x[3]>> = <<e.w[x[1]][1], e.w[x[1]][2]>>
          /\ sharing => \A j \in DOMAIN t.qubits :
                            chk[j] = chk[x[1]] => Less(e.w[x[1]], e.w[j]))
     \cup F("edge-without-qubit", \A k \in DOMAIN t.qubits : chk[k] \in found)
     \cup F("connector-weight", e.conns)

EventBad(t, e) ==
  IF e.method = "blueprint" /\ e.decoder = "UF" THEN F("not-refused", e.error # "")
  ELSE IF e.error # "" THEN {"raised"}
  ELSE F("node-weight-" \o e.method \o "-" \o e.decoder,
         \A k \in DOMAIN t.qubits : NodeOK(t, e, k))
       \cup EdgesBad(t, e)
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Verdict == PrintT("VERDICT " \o ToJson([tid |-> tid, bad |-> bad']))
Next ==
  LET t == Traces[tid] IN
  /\ UNCHANGED tid
  /\ \/ /\ l = 0 /\ t.error # ""
        /\ l' = -1 /\ bad' = {<<0, "raised">>} /\ Verdict
     \/ /\ l = 0 /\ t.error = ""
        /\ l' = 1 /\ UNCHANGED bad
     \/ /\ l > 0 /\ l <= Len(t.events)
        /\ l' = l + 1
        /\ bad' = bad \cup {<<l, x>> : x \in EventBad(t, t.events[l])}
     \/ /\ l > 0 /\ l = Len(t.events) + 1 /\ t.error = ""
        /\ l' = -1 /\ UNCHANGED bad /\ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
