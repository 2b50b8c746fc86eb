------------------------------ MODULE Decoding ------------------------------
(***************************************************************************)
(* One round of qubit-level error correction as a state machine:           *)
(*                                                                         *)
(*   flips  --Noise-->  flips  --Weigh-->  weights  --Decode-->  recovery  *)
(*          --Recover-->  residual  --Check-->  verdict                    *)
(*                                                                         *)
(* This module gives the guards and effects of those steps as operators on *)
(* sets of qubits; trace specifications and models instantiate them.       *)
(***************************************************************************)
EXTENDS Lattice, SequencesExt, FiniteSetsExt, TLC

INF == 1000000000

\* What any decoder owes: a recovery among the syndrome qubits that clears the
\* syndrome, and nothing when there is nothing to clear.
RecoveryQubitsOK(c, ec, R) == \A q \in R : q \in QubitsOf(c, ec) /\ CheckedBy(c, ec, q) # {}
ClearsSyndrome(c, ec, E, R) == SyndromeOf(c, ec, SymDiff(E, R)) = {}
EmptyWhenClear(c, ec, E, R) == SyndromeOf(c, ec, E) = {} => R = {}

(***************************************************************************)
(* Minimum-weight recoveries.                                              *)
(***************************************************************************)
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
MinOr(S, d) == IF S = {} THEN d ELSE SetMin(S)
WeightOf(W, R) == FoldSet(LAMBDA q, acc : acc + W[q], 0, R)

\* Neighbouring checks with the weight of the lightest qubit between them, and
\* the lightest qubit between a check and the boundary.
StabAdj(c, ec, W) ==
  [s \in Centres(c, ec) |->
     LET out == {<<CHOOSE u \in CheckedBy(c, ec, q) : u # s, W[q]>> :
                    q \in {q \in Faces(c, s) : Cardinality(CheckedBy(c, ec, q)) = 2}}
     IN {<<u, SetMin({o[2] : o \in {o \in out : o[1] = u}})>> : u \in {o[1] : o \in out}}]
StabExit(c, ec, W) ==
  [s \in Centres(c, ec) |->
     MinOr({W[q] : q \in {q \in Faces(c, s) : Cardinality(CheckedBy(c, ec, q)) = 1}}, INF)]

\* Bellman-Ford from the distances in dist.
RECURSIVE Relax(_, _)
Relax(adj, dist) ==
  LET next == TLCEval([s \in DOMAIN dist |->
                SetMin({dist[s]} \cup {IF dist[a[1]] >= INF THEN INF ELSE dist[a[1]] + a[2] :
                                         a \in adj[s]})])
  IN IF next = dist THEN dist ELSE Relax(adj, next)
DistFrom(adj, src) == Relax(adj, [s \in DOMAIN adj |-> IF s = src THEN 0 ELSE INF])

\* Least cost of pairing up the odd checks, or sending them to the boundary:
\* dynamic programming over subsets, encoded as bit masks.
RECURSIVE LowBit(_, _)
LowBit(m, i) == IF (m \div (2 ^ (i - 1))) % 2 = 1 THEN i ELSE LowBit(m, i + 1)
HasBit(m, i) == (m \div (2 ^ (i - 1))) % 2 = 1
OptimalCost(c, ec, W, syn) ==
  IF syn = {} THEN 0 ELSE
  LET adj  == TLCEval(StabAdj(c, ec, W))
      exit == TLCEval(Relax(adj, StabExit(c, ec, W)))
      odd  == SetToSeq(syn)
      n    == Len(odd)
      D    == TLCEval([i \in 1..n |-> LET d == DistFrom(adj, odd[i])
                                      IN [j \in 1..n |-> d[odd[j]]]])
      X    == TLCEval([i \in 1..n |-> exit[odd[i]]])
      step(acc, m) ==
        LET i == LowBit(m, 1)
            r == m - 2 ^ (i - 1)
            via == {X[i] + acc[r + 1]} \cup
                   {D[i][j] + acc[r - 2 ^ (j - 1) + 1] : j \in {j \in (i + 1)..n : HasBit(r, j)}}
        IN Append(acc, SetMin({IF v >= INF THEN INF ELSE v : v \in via}))
      best == FoldLeft(step, <<0>>, [m \in 1..(2 ^ n - 1) |-> m])
  IN best[2 ^ n]

(***************************************************************************)
(* Distances of the code and the correction radius.                        *)
(***************************************************************************)
Min2(a, b) == IF a < b THEN a ELSE b
CodeDistance(dims, name, ec) ==
  CASE name = "open"     -> IF ec = "primal" THEN dims[1] ELSE dims[2]
    [] name = "toric"    -> Min2(dims[1], dims[2])
    [] name = "periodic" -> Min2(Min2(dims[1], dims[2]), dims[3])
WithinRadius(dims, name, ec, t, s) == 2 * t + s < CodeDistance(dims, name, ec)
=============================================================================
