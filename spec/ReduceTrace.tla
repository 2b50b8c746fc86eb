----------------------------- MODULE ReduceTrace -----------------------------
(* C15.  A trace is one code (t.conf, t.ec) with macronode noise: t.home,       *)
(* t.partner (0: none), t.w per micronode, t.pts per vertex.  An event is one    *)
(* trial: e.state, e.body, e.out (p outcome of stars, q outcome of planets)      *)
(* per micronode; e.bit, e.p (1e-8), e.label per vertex; e.pe[i][b] the error    *)
(* probability of the outcome Z(., b) of the macronode of i, e.fin[v] the number *)
(* of squeezed partners, the combined outcome and its error probability;         *)
(* e.q the initial q quadratures found with trivial networks and the same seed;  *)
(* e.bs twice the network in use; e.noise, e.z sorted noise and draws.           *)
EXTENDS Reduce, Lattice, Json, IOUtils, SequencesExt
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Traces == Data.traces
F(clause, ok) == IF ok THEN {} ELSE {clause}
Near(a, b, tol) == Abs(a - b) <= tol
NONE == -2000000000
RootPi == 1772454

TrialBad(t, e) ==
  LET M == DOMAIN t.home
      V == DOMAIN t.pts
      group == TLCEval([v \in V |-> {i \in M : t.home[i] = v}])
      bodies == \A v \in V : {e.body[i] : i \in group[v]} = 1..4 /\ Cardinality(group[v]) = 4
      at == TLCEval([v \in V |-> [b \in 1..4 |-> CHOOSE i \in group[v] : e.body[i] = b]])
      m(v) == [b \in 1..4 |-> e.out[at[v][b]]]
      zOf(i) == LET j == t.partner[i] IN t.w[i] * Z(m(t.home[j]), e.body[j])
      linked(v) == {i \in group[v] : t.partner[i] # 0}
      ps(v) == {i \in linked(v) : e.state[t.partner[i]] = "p"}
      gs(v) == linked(v) \ ps(v)
      outcome(v) == 2 * e.out[at[v][1]] - FoldSet(LAMBDA i, acc : acc + zOf(i), 0, ps(v))
      bits(v) == FoldSet(LAMBDA i, acc : Xor(acc, Parities(zOf(i), RootPi, 20)),
                         Parities(outcome(v), RootPi, 20), gs(v))
      perr(v) == IF e.noiseless THEN 0
                 ELSE LET s == e.fin[v].val + FoldSet(LAMBDA i, acc : acc
                                 + e.pe[i][e.body[t.partner[i]]], 0, gs(v))
                      IN IF s < 0 THEN 0 ELSE IF s > 50000000 THEN 50000000 ELSE s
      qOf(v) == [b \in 1..4 |-> e.q[at[v][b]]]
      pOf(v) == [b \in 1..4 |-> LET i == at[v][b] IN
                   IF t.partner[i] = 0 THEN 0 ELSE t.w[i] * e.q[t.partner[i]]]
      wave(v, b) == IF b = 1 THEN Dot4([k \in 1..4 |-> e.bs[5][4 + k]], pOf(v))
                             ELSE Dot4(e.bs[b], qOf(v))
      parity(i) == Parity(e.q[i], RootPi)
      starry == \A v \in V : \E i \in group[v] : e.state[i] = "GKP"
      bitAt == TLCEval([p \in {t.pts[v] : v \in V} |-> e.bit[CHOOSE v \in V : t.pts[v] = p]])
  IN IF ~bodies THEN {"body-indices"}
     ELSE F("star-not-gkp", \A v \in V : (\E i \in group[v] : e.state[i] = "GKP")
                                            => e.state[at[v][1]] = "GKP")
     \cup F("label", \A v \in V : e.label[v] = e.state[at[v][1]])
     \cup F("unmeasured", \A i \in M : e.out[i] # NONE)
     \cup (IF \E i \in M : e.out[i] = NONE THEN {} ELSE
       F("bit", \A v \in V : e.bit[v] \in bits(v))
       \cup F("error-probability-range", \A v \in V : e.p[v] >= 0 /\ e.p[v] <= 50000000)
       \cup F("error-probability-argument", \A v \in V : e.noiseless \/
                (e.fin[v].num = Cardinality(ps(v)) /\ Near(e.fin[v].x, outcome(v), 20)))
       \cup F("error-probability", \A v \in V : Near(e.p[v], perr(v), 3))
       \cup F("network-not-kept", e.kept)
       \cup F("not-reproducible", e.again)
       \cup F("other-data-changed", e.rest)
       \cup (IF ~e.noiseless \/ ~e.probed THEN {} ELSE
             F("start-off-grid", \A i \in M : e.state[i] = "GKP" =>
                  \E k \in 0..1 : Near(e.q[i], k * RootPi, 10))
             \cup F("start-range", \A i \in M : e.q[i] >= -5 /\ e.q[i] <= 2 * RootPi + 5)
             \cup F("network-not-applied", \A v \in V : \A b \in 1..4 :
                      Near(2 * e.out[at[v][b]], wave(v, b), 60))
             \cup (IF ~e.standard THEN {} ELSE
                   F("not-canonical", starry => \A v \in V :
                        e.bit[v] = FoldSet(LAMBDA i, acc : (acc +
                                      parity(at[t.home[t.partner[i]]][1])) % 2, 0, linked(v)))))
       \cup (IF ~(e.noiseless /\ e.standard /\ starry) THEN {} ELSE
             F("stabilizer-violated", \A s \in Centres(t.conf, t.ec) :
                  FoldSet(LAMBDA f, acc : acc + bitAt[f], 0, Faces(t.conf, s)) % 2 = 0))
       \cup F("noise", Len(e.noise) = Len(e.z) /\ \A k \in DOMAIN e.z :
                  Near(4 * e.noise[k], e.sd * e.z[k], 60))
       \cup F("noise-on-perfect", e.quiet))

EventBad(t, e) == IF e.error # "" THEN {"raised"} ELSE TrialBad(t, e)
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Verdict == PrintT("VERDICT " \o ToJson([tid |-> tid, bad |-> bad']))
Next ==
  LET t == Traces[tid] IN
  /\ UNCHANGED tid
  /\ \/ /\ l = 0 /\ t.error # ""
        /\ l' = -1 /\ bad' = {<<0, "raised">>} /\ Verdict
     \/ /\ l = 0 /\ t.error = ""
        /\ l' = 1 /\ UNCHANGED bad
     \/ /\ l > 0 /\ l <= Len(t.events)
        /\ l' = l + 1
        /\ bad' = bad \cup {<<l, x>> : x \in EventBad(t, t.events[l])}
     \/ /\ l > 0 /\ l = Len(t.events) + 1 /\ t.error = ""
        /\ l' = -1 /\ UNCHANGED bad /\ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
