--------------------------- MODULE PopulateTrace ---------------------------
(* C11.  One graph, several noise layers, a history of populations.  Event:    *)
(* e.kind "none" | "fixed" | "swap" | "refuse", e.p, e.gkp the layer's lists    *)
(* (with repetitions), e.labels per mode, e.fixed the supplied modes, e.size    *)
(* the binomial draw the generator was about to give, e.same whether the same   *)
(* generator state gave the same sample again, e.prob one of "0", "1", "mid"    *)
(* (one half), "other".                                                         *)
EXTENDS Populate, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Traces == Data.traces
F(clause, ok) == IF ok THEN {} ELSE {clause}
EventBad(t, e) ==
  IF e.kind = "refuse" THEN F("not-refused", e.error # "")
  ELSE IF e.error # "" THEN {"raised"}
  ELSE LET P == ToSet(e.p)
           G == ToSet(e.gkp)
           n == t.n
       IN F("not-a-partition", Partition(n, P, G))
          \cup F("repeated-index", Len(e.p) = Cardinality(P) /\ Len(e.gkp) = Cardinality(G))
          \cup F("labels-disagree", P \subseteq Modes(n) /\ Labelled(n, P, e.labels))
          \cup F("supplied-modes-changed", e.kind # "swap" => P = ToSet(e.fixed))
          \cup F("sample-size", e.kind = "swap" => Cardinality(P) = e.size)
          \cup F("probability-0-or-1", /\ e.prob = "0" => P = {}
                                       /\ e.prob = "1" => P = Modes(n))
          \cup F("not-reproducible", e.same)
\* Over many trials with a swap-out probability every mode is sometimes swapped
\* out and sometimes not.
MixBad(t) ==
  LET mid == {k \in DOMAIN t.events : t.events[k].kind = "swap" /\ t.events[k].error = ""
                                      /\ t.events[k].prob = "mid"}
      Ps == {ToSet(t.events[k].p) : k \in mid}
  IN IF Cardinality(mid) < 40 THEN {}
     ELSE F("modes-never-or-always-swapped", \A i \in Modes(t.n) :
              (\E P \in Ps : i \in P) /\ (\E P \in Ps : i \notin P))
          \cup F("sample-not-fresh", Cardinality(Ps) > 1)
\* Neighbouring indices are swapped out independently: of k modes out of n, on
\* average k (n - k) / (n - 1) are not followed by another one, which bounds the
\* total of many trials (by more than eight standard deviations).
Breaks(n, P) == Cardinality({i \in P : (i + 1) % n \notin P})
Sum(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)
Abs(x) == IF x < 0 THEN -x ELSE x
IndependenceBad(t) ==
  LET mid == {k \in DOMAIN t.events : t.events[k].kind = "swap" /\ t.events[k].error = ""
                                      /\ t.events[k].prob = "mid"}
      T == Cardinality(mid)
      Out(k) == LET P == ToSet(t.events[k].p)
                IN Breaks(t.n, P) - ((Cardinality(P) * (t.n - Cardinality(P))) \div (t.n - 1))
      x == Abs(Sum(mid, Out))
  IN IF t.n < 8 \/ T < 4 \/ x <= T THEN {}
     ELSE F("modes-swapped-together", (x - T) * (x - T) <= 4 * T * t.n)
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Verdict == PrintT("VERDICT " \o ToJson([tid |-> tid, bad |-> bad']))
Next ==
  LET t == Traces[tid] IN
  /\ UNCHANGED tid
  /\ \/ /\ l = 0 /\ t.error # ""
        /\ l' = -1 /\ bad' = {<<0, "raised">>} /\ Verdict
     \/ /\ l = 0 /\ t.error = ""
        /\ l' = 1 /\ UNCHANGED bad
     \/ /\ l > 0 /\ l <= Len(t.events)
        /\ l' = l + 1
        /\ bad' = bad \cup {<<l, x>> : x \in EventBad(t, t.events[l])}
     \/ /\ l > 0 /\ l = Len(t.events) + 1 /\ t.error = ""
        /\ l' = -1 /\ bad' = bad \cup {<<l, x>> : x \in MixBad(t) \cup IndependenceBad(t)} /\ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
