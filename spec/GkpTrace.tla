------------------------------ MODULE GkpTrace ------------------------------
(* C13.  Kinds of events:                                                      *)
(*   "snap"   integer_fractional of exact values: e.a, e.x, results e.n, e.f    *)
(*   "bin"    GKP_binner of (m + r / 1000000) sqrt(pi) for e.m, e.r: e.bit,     *)
(*            e.frac (millionths of a bin, e.tol off)                                  *)
(*   "table"  Z_err_cond at increasing variances e.v (units of 1e-4) and        *)
(*            increasing distances e.r from the bin centre (millionths of a     *)
(*            bin): e.p[v][r] a set of values, in 1e-9, one for each way of     *)
(*            asking: shifts by bins, reflections, scalars, arrays.             *)
(*            e.lo, e.hi: log odds and log polarisation (see LogOdds, LogPol)   *)
(*   "hole"   outcomes e.r, e.under (whether the sums underflow), e.p, e.one    *)
(*            (scalar calls), e.mode, e.value                                   *)
(*   "pairs"  e.gap: relative differences between the elements of an array    *)
(*            call and the scalar calls, in units of 1e-12                      *)
(*   "mean"   Z_err for increasing variances: e.p; e.t the values of           *)
(*            exp(-pi var / 4) and e.w those of exp(-pi var^2 / 4), in 1/Fine   *)
(*   "known"  the same for one fixed list of variances                          *)
EXTENDS Gkp, Json, IOUtils, SequencesExt
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Traces == Data.traces
F(clause, ok) == IF ok THEN {} ELSE {clause}
Near(a, b, tol) == Abs(a - b) <= tol
NONE == -2000000000
Unit == 1000000
One == 1000000000
Pi == 3141593

SnapBad(e) ==
  F("not-nearest-bin", \A k \in DOMAIN e.x : IsBin(e.n[k], e.x[k], e.a))
  \cup F("not-n-alpha-plus-f", \A k \in DOMAIN e.x : e.f[k] = e.x[k] - e.n[k] * e.a)
  \cup F("shape", e.shape /\ Len(e.n) = Len(e.x) /\ Len(e.f) = Len(e.x))
BinBad(e) ==
  F("wrong-bit", \A k \in DOMAIN e.m : e.bit[k] = (e.m[k] + BinOf(e.r[k], Unit)) % 2)
  \cup F("wrong-fraction", \A k \in DOMAIN e.m : Near(e.frac[k], FracOf(e.r[k], Unit), e.tol))
  \cup F("shape", e.shape /\ Len(e.bit) = Len(e.m) /\ Len(e.frac) = Len(e.m))

All(e) == {<<i, j>> : i \in DOMAIN e.v, j \in DOMAIN e.r}
Val(e, c) == e.p[c[1]][c[2]]
\* ln(p / (1 - p)) var = -pi (1 - 2 r) when only the two nearest bins count,
\* and -ln((1 - 2p) / (2 cos(pi r))) 4 / var = pi when the noise is wide.
\* (both recorded in millionths, NONE where the approximation does not apply)
TableBad(e) ==
  F("not-a-probability", \A c \in All(e) : \A y \in ToSet(Val(e, c)) : -2 <= y /\ y <= One + 2)
  \cup F("calls-disagree", \A c \in All(e) : \A y, z \in ToSet(Val(e, c)) : Near(y, z, 100))
  \cup F("half-at-edge", \A c \in All(e) : e.r[c[2]] = 500000 =>
            \A y \in ToSet(Val(e, c)) : Near(y, One \div 2, 100))
  \cup F("decreases-with-distance", \A i \in DOMAIN e.v : \A j \in 1..(Len(e.r) - 1) :
            e.p[i][j][1] <= e.p[i][j + 1][1] + 2)
  \cup F("decreases-with-variance", \A j \in DOMAIN e.r : \A i \in 1..(Len(e.v) - 1) :
            e.p[i][j][1] <= e.p[i + 1][j][1] + 2)
  \cup F("wrong-odds", \A c \in All(e) : LET y == e.lo[c[1]][c[2]] IN
            y = NONE \/ Near(y, 2 * (((Pi \div 10) * (e.r[c[2]] \div 100)) \div 1000) - Pi, 60))
  \cup F("wrong-wide-limit", \A c \in All(e) : LET y == e.hi[c[1]][c[2]] IN
            y = NONE \/ Near(y, Pi, 300))
PairsBad(e) == F("elements-disagree", \A k \in DOMAIN e.gap : e.gap[k] <= 100)
HoleBad(e) ==
  LET put(k) == CASE e.mode = "default" -> 0
                  [] e.mode = "value" -> e.value
                  [] e.mode = "bin_location" -> 1000 * Abs(e.r[k])
  IN F("not-replaced", \A k \in DOMAIN e.r : e.under[k] => Near(e.p[k], put(k), 2000))
     \cup F("calls-disagree", \A k \in DOMAIN e.r : Near(e.p[k], e.one[k], 100))
     \cup F("not-a-probability", \A k \in DOMAIN e.r : ~e.under[k] => 0 <= e.p[k] /\ e.p[k] <= One)
     \cup F("shape", Len(e.p) = Len(e.r))
(* The unconditional probability is the average of the conditional one.  (The   *)
(* code takes the width of the density for its variance: a listed finding, hence *)
(* two readings, of which every answer has to fit one.)                          *)
Reads(e, ts) == \A k \in DOMAIN ts : Near(e.p[k] \div (One \div Fine), OddBins(ts[k]), 12)
MeanBad(e) ==
  F("wrong-average", Reads(e, e.t) \/ Reads(e, e.w)) \cup
  F("calls-disagree", Len(e.one) = Len(e.p) /\ \A k \in DOMAIN e.p : Near(e.p[k], e.one[k], 1000)) \cup
  F("width-for-variance", e.kind = "known" => Reads(e, e.t)) \cup
  F("not-a-probability", \A k \in DOMAIN e.p : -2 <= e.p[k] /\ e.p[k] <= One + 2)
  \cup F("decreases-with-variance", \A k \in 1..(Len(e.p) - 1) : e.p[k] <= e.p[k + 1] + 2)

EventBad(t, e) ==
  IF e.error # "" THEN {"raised"}
  ELSE CASE e.kind = "snap" -> SnapBad(e)
         [] e.kind = "bin" -> BinBad(e)
         [] e.kind = "table" -> TableBad(e)
         [] e.kind = "hole" -> HoleBad(e)
         [] e.kind = "pairs" -> PairsBad(e)
         [] e.kind \in {"mean", "known"} -> MeanBad(e)
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Verdict == PrintT("VERDICT " \o ToJson([tid |-> tid, bad |-> bad']))
Next ==
  LET t == Traces[tid] IN
  /\ UNCHANGED tid
  /\ \/ /\ l = 0 /\ t.error # ""
        /\ l' = -1 /\ bad' = {<<0, "raised">>} /\ Verdict
     \/ /\ l = 0 /\ t.error = ""
        /\ l' = 1 /\ UNCHANGED bad
     \/ /\ l > 0 /\ l <= Len(t.events)
        /\ l' = l + 1
        /\ bad' = bad \cup {<<l, x>> : x \in EventBad(t, t.events[l])}
     \/ /\ l > 0 /\ l = Len(t.events) + 1 /\ t.error = ""
        /\ l' = -1 /\ UNCHANGED bad /\ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
