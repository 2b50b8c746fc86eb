------------------------------ MODULE Gf2Model ------------------------------
(* Gauss-Jordan elimination as a transition system, over every binary matrix *)
(* of Rows x Cols: it ends, in the reduced form the predicate describes; that *)
(* form is unique; and the null space it yields is the one found by search.   *)
EXTENDS Gf2, TLC
CONSTANTS Rows, Cols
Vectors == SUBSET (1..Cols)
VARIABLES M, R, col, p
vars == <<M, R, col, p>>
Init == /\ M \in [1..Rows -> Vectors]
        /\ R = M /\ col = 1 /\ p = 0
Swap(f, i, j) == [k \in DOMAIN f |-> IF k = i THEN f[j] ELSE IF k = j THEN f[i] ELSE f[k]]
Step ==
  /\ col <= Cols /\ col' = col + 1 /\ UNCHANGED M
  /\ LET cand == {i \in (p + 1)..Rows : col \in R[i]}
     IN IF cand = {} THEN UNCHANGED <<R, p>>
        ELSE \E i \in cand :
             LET S == Swap(R, p + 1, i)
             IN /\ p' = p + 1
                /\ R' = [k \in DOMAIN S |-> IF k # p + 1 /\ col \in S[k]
                                            THEN Sum2(S[k], S[p + 1]) ELSE S[k]]
Next == Step
Spec == Init /\ [][Next]_vars
Ends == \A m \in {Cols} : col > Cols => Reduced(M, R, m, p)
Prefix == Reduced(M, R, col - 1, p)
\* The number of vectors in the null space, by search.
Size == col > Cols =>
        Cardinality({v \in Vectors : \A k \in DOMAIN M : Dot(M[k], v) = 0}) = 2 ^ (Cols - p)
=============================================================================
