---------------------------- MODULE HomodyneTrace ----------------------------
(* C12.  A trace is one graph (t.n modes, t.edges) with measurements on it.    *)
(* Kinds of events:                                                            *)
(*   "measure"  e.order, e.delta, e.quad, e.inds (modes asked for), e.z the     *)
(*              standard normal draws, e.sq p-squeezed modes, e.perfect,        *)
(*              e.q0/e.p0 initial quadratures (two-step), e.out per mode, or    *)
(*              NONE where nothing was written, e.rest other data unchanged,     *)
(*              e.got what hom_outcomes returned                                *)
(*              e.order "given": e.mean and e.sd were supplied by the caller   *)
(*              e.propagated: whether initial quadratures went through the CZs *)
(*   "start"    initial quadratures in the two-step order, without noise        *)
(*   "round"    apply_noise on a code: as "measure" plus e.bits per mode        *)
(*   "scz"      the symplectic matrix and its application to e.v, e.m           *)
EXTENDS Homodyne, Json, IOUtils, SequencesExt
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Traces == Data.traces
F(clause, ok) == IF ok THEN {} ELSE {clause}
NONE == -2000000000
Near(a, b, tol) == Abs(a - b) <= tol

\* Expected outcome of mode i (k-th in the list of requested modes), times 4.
Expected(t, e, i, k) ==
  LET d == e.delta  P == ToSet(e.sq)  X == ToSet(e.perfect)  E == ToSet(t.edges)
  IN IF e.order = "initial"
     THEN IF e.quad = "q" THEN SigmaQ(d, P, X, i) * e.z[i]
          ELSE AfterCZ(E, LAMBDA j : SigmaQ(d, P, X, j) * e.z[j],
                          LAMBDA j : SigmaP(d, P, X, j) * e.z[t.n + j], i)
     ELSE IF e.order = "given"
     THEN e.sd[i] * e.z[k] + 4 * e.mean[i]
     ELSE (IF e.sd # <<>> THEN e.sd[i] ELSE SigmaM(d, X, i)) * e.z[k]
          + 4 * (IF e.quad = "q" THEN e.q0[i]
                 ELSE IF ~e.propagated THEN e.p0[i]
                 ELSE AfterCZ(E, LAMBDA j : e.q0[j], LAMBDA j : e.p0[j], i))
Tol(t, i) == 40 + 12 * Sum(WeightedNbrs(ToSet(t.edges), i), LAMBDA x : Abs(x[2]))
\* The last position of each requested mode decides, should it be repeated.
Pos(e, i) == {k \in DOMAIN e.inds : e.inds[k] = i}
MeasureBad(t, e) ==
  F("wrong-outcome", \A i \in ToSet(e.inds) :
       e.out[i] # NONE /\ \E k \in Pos(e, i) : Near(4 * e.out[i], Expected(t, e, i, k), Tol(t, i)))
  \cup F("written-elsewhere", \A i \in 1..t.n : i \notin ToSet(e.inds) => e.out[i] = NONE)
  \cup F("other-data-changed", e.rest)
  \cup F("hom-outcomes", e.got = e.out)
StartBad(t, e) ==
  F("gkp-start-not-on-grid", \A i \in 1..t.n : i \notin ToSet(e.sq) =>
       \E m \in -6..6 : Near(e.q0[i], m * RootPi, 8))
  \cup F("squeezed-start-range", \A i \in ToSet(e.sq) : e.q0[i] >= 0 /\ e.q0[i] <= 2 * RootPi)
  \* Every mode has a draw of its own (for forty modes, by chance but once in 2^38).
  \cup LET sq == ToSet(e.sq)  gkp == (1..t.n) \ sq IN
       F("squeezed-start-not-drawn-per-mode",
         /\ Cardinality(sq) >= 3 => Cardinality({e.q0[i] : i \in sq}) > 1
         /\ Cardinality(sq) >= 40 => (\E i \in sq : e.q0[i] < RootPi) /\ (\E i \in sq : e.q0[i] > RootPi))
       \cup F("gkp-start-not-drawn-per-mode",
         Cardinality(gkp) >= 40 => \E i, j \in gkp : Abs(e.q0[i] - e.q0[j]) > 16)
  \cup F("p-start-not-zero", \A i \in 1..t.n :
       Near(e.p1[i], AfterCZ(ToSet(t.edges), LAMBDA j : e.q0[j], LAMBDA j : 0, i), Tol(t, i)))
RoundBad(t, e) ==
  MeasureBad(t, e)
  \cup F("bit-not-translated", \A i \in ToSet(e.inds) :
           e.out[i] = NONE \/ (IF e.translator = "gkp" THEN e.bits[i] \in GKPBits(e.out[i])
                              ELSE e.bits[i] = IF e.out[i] > 0 THEN 1 ELSE 0))
  \cup F("bits-elsewhere", \A i \in 1..t.n : i \notin ToSet(e.inds) => e.bits[i] = -7)

SCZOf(t) ==
  [i \in 1..(2 * t.n) |-> [j \in 1..(2 * t.n) |->
     IF i = j THEN 1
     ELSE IF i > t.n /\ j <= t.n
          THEN Sum(WeightedNbrs(ToSet(t.edges), i - t.n), LAMBDA x : IF x[1] = j THEN x[2] ELSE 0)
          ELSE 0]]
Dot(u, v) == FoldLeft(LAMBDA acc, k : acc + u[k] * v[k], 0, [k \in DOMAIN u |-> k])
SczBad(t, e) ==
  LET S == TLCEval(SCZOf(t))
      n2 == 2 * t.n
      SM == TLCEval([i \in 1..n2 |-> [j \in 1..n2 |-> Dot(S[i], [k \in 1..n2 |-> e.m[k][j]])]])
      SMS == [i \in 1..n2 |-> [j \in 1..n2 |-> Dot(SM[i], S[j])]]
      Sv == [i \in 1..n2 |-> Dot(S[i], e.v)]
  IN F("scz-matrix", \A k \in DOMAIN e.mats : e.mats[k] = S)
     \cup F("scz-dense", e.dense)
     \cup F("scz-vector", \A k \in DOMAIN e.vecs : e.vecs[k] = Sv)
     \cup F("scz-on-matrix", \A k \in DOMAIN e.twod : e.twod[k] = SMS)

EventBad(t, e) ==
  IF e.error # "" THEN {"raised"}
  ELSE CASE e.kind = "measure" -> MeasureBad(t, e)
         [] e.kind = "start" -> StartBad(t, e)
         [] e.kind = "round" -> RoundBad(t, e)
         [] e.kind = "scz" -> SczBad(t, e)
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Verdict == PrintT("VERDICT " \o ToJson([tid |-> tid, bad |-> bad']))
Next ==
  LET t == Traces[tid] IN
  /\ UNCHANGED tid
  /\ \/ /\ l = 0 /\ t.error # ""
        /\ l' = -1 /\ bad' = {<<0, "raised">>} /\ Verdict
     \/ /\ l = 0 /\ t.error = ""
        /\ l' = 1 /\ UNCHANGED bad
     \/ /\ l > 0 /\ l <= Len(t.events)
        /\ l' = l + 1
        /\ bad' = bad \cup {<<l, x>> : x \in EventBad(t, t.events[l])}
     \/ /\ l > 0 /\ l = Len(t.events) + 1 /\ t.error = ""
        /\ l' = -1 /\ UNCHANGED bad /\ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
