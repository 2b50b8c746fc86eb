------------------------------ MODULE CodeTrace ------------------------------
(* C02: stabilizers, syndrome qubits, boundary points and parities of a code *)
(* object, against Lattice.tla.  A trace is one code object: a static dump   *)
(* followed by a history of bit assignments and the parities read after each.*)
EXTENDS Lattice, TLC, Json, IOUtils, SequencesExt

Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Traces == Data.traces
Conf(t) == [dims |-> t.dims, bounds |-> CodeBounds(t.code, t.ec)]
F(clause, ok) == IF ok THEN {} ELSE {clause}

StaticBad(t) ==
  LET c == Conf(t)
      got == [k \in DOMAIN t.stabs |-> ToSet(t.stabs[k])]
      want == {Faces(c, s) : s \in Centres(c, t.ec)}
      synd == SyndromeQubits(c, t.ec)
      bnd == IF HasBoundary(c, t.ec) THEN LowPoints(c, t.ec) \cup HighPoints(c, t.ec) ELSE {}
  IN F("stabilizer-missing", want \subseteq {got[k] : k \in DOMAIN got})
     \cup F("stabilizer-extra", {got[k] : k \in DOMAIN got} \subseteq want)
     \cup F("stabilizer-repeated", Len(t.stabs) = Cardinality(want))
     \cup F("stabilizer-repeats-qubit", \A k \in DOMAIN got : Cardinality(got[k]) = Len(t.stabs[k]))
     \cup F("syndrome-coords", ToSet(t.coords) = synd)
     \cup F("syndrome-coords-repeated", Len(t.coords) = Cardinality(ToSet(t.coords)))
     \cup F("all-syndrome-coords", ToSet(t.all_coords) = synd)
     \cup F("syndrome-indices", ToSet(t.ind_coords) = synd)
     \cup F("all-syndrome-indices", ToSet(t.all_ind_coords) = synd)
     \cup F("boundary-points", ToSet(t.bound) = bnd)
     \cup F("boundary-points-repeated", Len(t.bound) = Cardinality(ToSet(t.bound)))
     \cup F("one-check-iff-boundary", \A q \in synd :
               Cardinality({k \in DOMAIN got : q \in got[k]})
                 = (IF q \in ToSet(t.bound) THEN 1 ELSE 2))

\* A history event: the set of qubits with bit 1, and the stabilizers seen odd.
EventBad(t, e) ==
  LET c == Conf(t)
      E == ToSet(e.ones)
      oddSets == {Faces(c, s) : s \in SyndromeOf(c, t.ec, E \cap QubitsOf(c, t.ec))}
  IN F("parity", {ToSet(t.stabs[k]) : k \in ToSet(e.odd)} = oddSets)
     \cup F("parity-range", e.in_range)
     \cup F("odd-stabilizers-listed", ToSet(e.odd) = ToSet(e.odd_listed))

VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Verdict == PrintT("VERDICT " \o ToJson([tid |-> tid, bad |-> bad']))
Next ==
  LET t == Traces[tid] IN
  /\ UNCHANGED tid
  /\ \/ /\ l = 0 /\ t.error # ""
        /\ l' = -1 /\ bad' = {<<0, "raised">>} /\ Verdict
     \/ /\ l = 0 /\ t.error = ""
        /\ l' = 1 /\ bad' = {<<0, x>> : x \in StaticBad(t)}
     \/ /\ l > 0 /\ l <= Len(t.events)
        /\ l' = l + 1
        /\ bad' = bad \cup {<<l, x>> : x \in EventBad(t, t.events[l])}
     \/ /\ l > 0 /\ l = Len(t.events) + 1 /\ t.error = ""
        /\ l' = -1 /\ UNCHANGED bad /\ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
