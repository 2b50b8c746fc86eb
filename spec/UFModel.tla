------------------------------- MODULE UFModel -------------------------------
(* Union-Find decoding of every pattern of flips and erasures on a small code: *)
(* growth terminates, it never undoes itself, and when it stops a correction   *)
(* exists inside the grown edges.  Within the correction radius the grown      *)
(* edges, together with the error, contain no logical operator, so that every  *)
(* admissible correction succeeds.                                             *)
EXTENDS Decoding, UnionFind
CONSTANTS Dims, Name, Ec, MaxFlips, MaxErased
D2 == <<2, 2, 2>>
D3 == <<3, 3, 3>>
D322 == <<3, 2, 2>>
D232 == <<2, 3, 2>>
D522 == <<5, 2, 2>>
D422 == <<4, 2, 2>>
D242 == <<2, 4, 2>>
D252 == <<2, 5, 2>>
C == [dims |-> Dims, bounds |-> CodeBounds(Name, Ec)]
\* Nodes are checks, and one boundary point per qubit with a single check.
Qubits == SyndromeQubits(C, Ec)
EndsOf(q) == LET s == CheckedBy(C, Ec, q) IN IF Cardinality(s) = 2 THEN s ELSE s \cup {q}
Bound == {q \in Qubits : Cardinality(CheckedBy(C, Ec, q)) = 1}
G == TLCEval([nodes |-> Centres(C, Ec) \cup Bound, bound |-> Bound, edges |-> Qubits,
              ends |-> [q \in Qubits |-> EndsOf(q)]])

\* Classes of the walks from a node: a set of edges contains a logical operator
\* when some walk inside it closes, or joins two boundary points, with an odd
\* number of steps through a plane.
Crosses(q) == {i \in PlaneAxes(Name, Ec) : q[i] = FirstPlane(C, Ec, i)}
Walks(es, n) ==
  LET step(seen) == seen \cup UNION {{<<n2, SymDiff(x[2], Crosses(q))>> :
                       n2 \in G.ends[q] \ {x[1]}} :
                         <<x, q>> \in {y \in seen \X es : y[1][1] \in G.ends[y[2]]}}
      RECURSIVE Fix(_)
      Fix(s) == LET t == TLCEval(step(s)) IN IF t = s THEN s ELSE Fix(t)
  IN Fix({<<n, {}>>})
NoLogical(es) ==
  \A K \in {K \in Components(G, es) : Cardinality(K) > 1} :
    LET n == CHOOSE n \in K : K \cap Bound = {} \/ n \in Bound
        W == Walks(es, n)
    IN \A w \in W : (w[1] = n \/ (n \in Bound /\ w[1] \in Bound)) => w[2] = {}

VARIABLES flips, erased, st, phase
vars == <<flips, erased, st, phase>>
Syn == Flips(G, flips)
Init == flips = {} /\ erased = {} /\ st = [q \in Qubits |-> 0] /\ phase = "noise"
\* Noise and erasures, in a fixed order so that each pattern is reached once.
Rank == TLCEval(LET s == SetToSeq(Qubits) IN [q \in Qubits |-> CHOOSE k \in 1..Len(s) : s[k] = q])
Above(q, S) == \A r \in S : Rank[r] < Rank[q]
FlipQ(q) == /\ phase = "noise" /\ Cardinality(flips) < MaxFlips /\ Above(q, flips)
            /\ flips' = flips \cup {q} /\ UNCHANGED <<erased, st, phase>>
Erase(q) == /\ phase = "noise" /\ Cardinality(erased) < MaxErased /\ Above(q, erased)
            /\ erased' = erased \cup {q} /\ UNCHANGED <<flips, st, phase>>
Start == /\ phase = "noise" /\ phase' = "grow"
         /\ st' = [q \in Qubits |-> IF q \in erased THEN 2 ELSE 0]
         /\ UNCHANGED <<flips, erased>>
Grow == /\ phase = "grow" /\ Unsatisfied(G, Syn, Grown(G, st)) # {}
        /\ st' = GrowAll(G, Syn, st) /\ UNCHANGED <<flips, erased, phase>>
Stop == /\ phase = "grow" /\ Unsatisfied(G, Syn, Grown(G, st)) = {}
        /\ phase' = "done" /\ UNCHANGED <<flips, erased, st>>
Next == (\E q \in Qubits : FlipQ(q) \/ Erase(q)) \/ Start \/ Grow \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ Grow \/ Stop)

Terminates == <>(phase = "done")
GrowthMonotone == [][phase = "grow" /\ phase' = "grow" => st' # st /\ \A q \in Qubits : st'[q] >= st[q]]_vars
\* Every cluster can be corrected inside itself.
AllSatisfied == phase = "done" => \A K \in Components(G, Grown(G, st)) : Satisfied(G, Syn, K)
\* Nothing grows when there is nothing to clear.
NoGrowthWithoutSyndrome == Syn = {} => \A q \in Qubits : st[q] \in {0, 2} /\ (st[q] = 2 => q \in erased)
InRadius == LET free == Cardinality(flips \ erased)
            IN WithinRadius(Dims, Name, Ec, free, Cardinality(erased))
RadiusTheorem == phase = "done" /\ InRadius => NoLogical(Grown(G, st) \cup flips)
=============================================================================
