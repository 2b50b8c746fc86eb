----------------------------- MODULE GatesTrace -----------------------------
(* C24.  A trace is a circuit on t.n modes from the quadratures t.x (all q's    *)
(* first).  Events, each with the quadratures that the code computed in the     *)
(* several ways it offers, in units of 2^-s, whole: e.xs:                       *)
(*   "cz"     e.edges, weights in halves      "split"                           *)
(*   "perm"   e.perm, e.inv its inverse                                         *)
(*   "large"  e.perm of many elements and e.inv its inverse                     *)
(*   "refuse" fewer than four modes: e.raised                                   *)
EXTENDS Gates, Json, IOUtils, SequencesExt
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Traces == Data.traces
F(clause, ok) == IF ok THEN {} ELSE {clause}
Vec(n, xs) == [c \in Quads(n) |-> xs[(IF c[1] = "q" THEN 0 ELSE n) + c[2] + 1]]
Zero(f) == [i \in 0..(Len(f) - 1) |-> f[i + 1]]
VARIABLES tid, l, bad, x
vars == <<tid, l, bad, x>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ x = <<>>
Verdict == PrintT("VERDICT " \o ToJson([tid |-> tid, bad |-> bad']))
After(t, e) ==
  CASE e.kind = "cz" -> CZ(t.n, ToSet(e.edges), x)
    [] e.kind = "split" -> Split(t.n, x)
    [] e.kind = "perm" -> Permute(t.n, Zero(e.perm), x)
    [] OTHER -> x
EventBad(t, e, y) ==
  IF e.error # "" THEN {"raised"}
  ELSE F("wrong-quadratures", \A k \in DOMAIN e.xs : Len(e.xs[k]) = 2 * t.n /\ Vec(t.n, e.xs[k]) = y)
       \cup F("input-changed", e.same)
       \cup (IF e.kind # "perm" THEN {} ELSE F("wrong-inverse", Zero(e.inv) = InversePerm(t.n, Zero(e.perm))))
       \cup (IF e.kind # "large" THEN {}
             ELSE F("wrong-inverse", /\ Len(e.inv) = Len(e.perm)
                                     /\ \A k \in DOMAIN e.perm : e.inv[e.perm[k] + 1] = k - 1))
       \cup F("not-refused", e.kind = "refuse" => e.raised)
Next ==
  LET t == Traces[tid] IN
  /\ UNCHANGED tid
  /\ \/ /\ l = 0 /\ t.error # ""
        /\ l' = -1 /\ bad' = {<<0, "raised">>} /\ UNCHANGED x /\ Verdict
     \/ /\ l = 0 /\ t.error = ""
        /\ l' = 1 /\ UNCHANGED bad /\ x' = Vec(t.n, t.x)
     \/ /\ l > 0 /\ l <= Len(t.events)
        /\ l' = l + 1
        /\ x' = After(t, t.events[l])
        /\ bad' = bad \cup {<<l, b>> : b \in EventBad(t, t.events[l], x')}
     \/ /\ l > 0 /\ l = Len(t.events) + 1 /\ t.error = ""
        /\ l' = -1 /\ UNCHANGED <<bad, x>> /\ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
