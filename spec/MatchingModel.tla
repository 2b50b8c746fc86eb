---------------------------- MODULE MatchingModel ----------------------------
(* A graph is built edge by edge, edges being reweighted at will.  The dynamic   *)
(* programme gives the least weight of all the perfect matchings, and no         *)
(* certificate exceeds it.                                                       *)
EXTENDS Matching
CONSTANTS N, Weights
VARIABLE W
Pairs == {e \in SUBSET (1..N) : Cardinality(e) = 2}
Perfect == TLCEval({M \in SUBSET Pairs : Cardinality(M) * 2 = N /\ UNION M = 1..N})
Init == W = <<>>
Next == \E e \in Pairs, w \in Weights : W' = Put(W, e, w)
Spec == Init /\ [][Next]_W
Here == {M \in Perfect : M \subseteq DOMAIN W}
Optimum == Best(W, N) = IF Here = {} THEN INF
                        ELSE CHOOSE x \in {Total(W, M) : M \in Here} : \A M \in Here : x <= Total(W, M)
AllPerfect == \A M \in Here : IsPerfect(W, N, M)
Ys == [1..N -> {-1, 0, 1}]
Duality == \A y \in Ys : \A z \in {0, 1} :
             LET s == << [of |-> <<1, 2, 3>>, z |-> z] >>
             IN Certificate(W, N, y, s) => Bound(y, s) <= Best(W, N)
=============================================================================
