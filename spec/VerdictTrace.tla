---------------------------- MODULE VerdictTrace ----------------------------
(* C08.  Events of kind "check": a closed pattern, built from loops and lines, *)
(* was put on the code and the correction was checked.  Events of kind         *)
(* "correct": arbitrary flips were put on the code and the whole round ran.    *)
(* "recover": an arbitrary recovery e.rec was applied to the flips e.ones;     *)
(* e.good and e.listed (the number of stabilizers named) are what the sanity   *)
(* check, if asked for (e.said), reported.                                     *)
EXTENDS Homology, Json, IOUtils
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Traces == Data.traces
Conf(t) == [dims |-> t.dims, bounds |-> CodeBounds(t.code, t.ec)]
F(clause, ok) == IF ok THEN {} ELSE {clause}
Q(t, idx) == {t.qubits[k] : k \in ToSet(idx)}
AxisName(i) == CASE i = 1 -> "x" [] i = 2 -> "y" [] i = 3 -> "z"

FoldOps(c, ec, ops) ==
  FoldLeft(LAMBDA E, o : SymDiff(E, IF o.op = "loop" THEN Loop(c, ec, o.at)
                                                     ELSE Line(c, ec, o.axis, o.at)), {}, ops)
ClassOf(ops) ==
  FoldLeft(LAMBDA P, o : IF o.op = "line" THEN SymDiff(P, {o.axis}) ELSE P, {}, ops)
\* What the parallel planes must report: one even/odd flag per plane.
PlanesExpected(c, t, even(_)) ==
  [i \in Axes |-> IF i \in PlaneAxes(t.code, t.ec)
                  THEN [k \in 1..Cardinality(PlaneCoords(c, t.ec, i)) |-> even(i)] ELSE <<>>]
Planes(e) == <<e.planes.x, e.planes.y, e.planes.z>>

CheckBad(t, e) ==
  LET c == Conf(t)
      E == Q(t, e.ones)
      cls == ClassOf(e.ops)
  IN IF SyndromeOf(c, t.ec, E) # {} \/ E # FoldOps(c, t.ec, e.ops) THEN {"bad-pattern-HARNESS"}
     ELSE F("verdict-not-class", e.verdict = <<cls = {}>>)
          \cup F("verdict-depends-on-sanity-check", e.verdict2 = e.verdict)
          \cup F("parallel-planes", Planes(e) = PlanesExpected(c, t, LAMBDA i : i \notin cls))
CorrectBad(t, e) ==
  LET c == Conf(t)
      A == Q(t, e.after)
  IN F("syndrome-left", SyndromeOf(c, t.ec, A) = {})
     \cup F("result-not-class", e.result = LogicallyTrivial(c, t.code, t.ec, A))

RecoverBad(t, e) ==
  LET c == Conf(t)
      A == SymDiff(Q(t, e.ones), Q(t, e.rec))
      odd == Cardinality(SyndromeOf(c, t.ec, A))
  IN F("recovery-applied-wrongly", Q(t, e.after) = A /\ e.others)
     \cup F("reports-recovery-wrongly", e.good = (e.said /\ odd = 0))
     \cup F("lists-unsatisfied-wrongly", e.listed = IF e.said THEN odd ELSE 0)

EventBad(t, e) == IF e.error # "" THEN {"raised"}
                  ELSE IF e.kind = "check" THEN CheckBad(t, e)
                  ELSE IF e.kind = "recover" THEN RecoverBad(t, e) ELSE CorrectBad(t, e)
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Verdict == PrintT("VERDICT " \o ToJson([tid |-> tid, bad |-> bad']))
Next ==
  LET t == Traces[tid] IN
  /\ UNCHANGED tid
  /\ \/ /\ l = 0 /\ t.error # ""
        /\ l' = -1 /\ bad' = {<<0, "raised">>} /\ Verdict
     \/ /\ l = 0 /\ t.error = ""
        /\ l' = 1 /\ UNCHANGED bad
     \/ /\ l > 0 /\ l <= Len(t.events)
        /\ l' = l + 1
        /\ bad' = bad \cup {<<l, x>> : x \in EventBad(t, t.events[l])}
     \/ /\ l > 0 /\ l = Len(t.events) + 1 /\ t.error = ""
        /\ l' = -1 /\ UNCHANGED bad /\ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
