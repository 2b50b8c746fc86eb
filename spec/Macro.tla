------------------------------- MODULE Macro -------------------------------
(***************************************************************************)
(* Macronization.  A dumbbell for an edge {u, v} is a micronode at u       *)
(* displaced towards v and one at v displaced towards u; both the other    *)
(* way for a periodic edge.  Displacements are vectors of length 1000.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Minus(a, b) == [i \in 1..3 |-> a[i] - b[i]]
Norm2(w) == w[1] * w[1] + w[2] * w[2] + w[3] * w[3]
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Max0(x) == IF x < 0 THEN 0 ELSE x
\* Displacement d points along s * w (rounded coordinates: up to 55 off).
Slack == 20
Along(d, w, s) ==
  \A i \in 1..3 :
     LET lo == Max0(Abs(d[i]) - Slack)  hi == Abs(d[i]) + Slack  n == Norm2(w)
     IN /\ Abs(d[i]) <= Slack \/ Sign(d[i]) = s * Sign(w[i])
        /\ Abs(d[i]) <= 1000 + Slack
        /\ ((lo * lo) \div 100) * n <= 10000 * w[i] * w[i] + n
        /\ ((hi * hi) \div 100) * n + n >= 10000 * w[i] * w[i]
\* The micronode that u has for its edge with v.
Micro(u, v, periodic) == <<u, [i \in 1..3 |-> 1000 * Sign(v[i] - u[i]) * (IF periodic THEN -1 ELSE 1)]>>
Size(deg, pad) == IF pad THEN IF deg < 4 THEN 4 ELSE deg ELSE deg
=============================================================================
