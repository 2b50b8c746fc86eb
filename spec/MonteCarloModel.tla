--------------------------- MODULE MonteCarloModel ---------------------------
(* All interleavings of R ranks running T trials with any outcomes, and of the *)
(* reduction at the root, which may overtake nobody.                           *)
EXTENDS MonteCarlo
CONSTANTS MaxT, MaxR, Eager      \* Eager: a rank other than the root need not wait
VARIABLES T, R, next, noisy, outcome, by, local, sent, result
vars == <<T, R, next, noisy, outcome, by, local, sent, result>>
NONE == -1
Ranks == 0..(R - 1)
Init == /\ T \in 0..MaxT /\ R \in 1..MaxR
        /\ next = [r \in Ranks |-> 0] /\ noisy = [r \in Ranks |-> NONE]
        /\ outcome = <<>> /\ by = <<>>
        /\ local = [r \in Ranks |-> 0] /\ sent = {} /\ result = NONE
\* Rank r looks at trial next[r]: another rank's is skipped.
Skip(r) == /\ noisy[r] = NONE /\ next[r] < T /\ next[r] % R # r
           /\ next' = [next EXCEPT ![r] = @ + 1]
           /\ UNCHANGED <<T, R, noisy, outcome, by, local, sent, result>>
Noise(r) == /\ noisy[r] = NONE /\ next[r] < T /\ next[r] % R = r
            /\ noisy' = [noisy EXCEPT ![r] = next[r]]
            /\ UNCHANGED <<T, R, next, outcome, by, local, sent, result>>
Decode(r, ok) == /\ noisy[r] # NONE
                 /\ outcome' = Append(outcome, ok) /\ by' = Append(by, <<noisy[r], r>>)
                 /\ local' = [local EXCEPT ![r] = @ + (IF ok THEN 1 ELSE 0)]
                 /\ next' = [next EXCEPT ![r] = @ + 1]
                 /\ noisy' = [noisy EXCEPT ![r] = NONE]
                 /\ UNCHANGED <<T, R, sent, result>>
Send(r) == /\ next[r] = T /\ noisy[r] = NONE /\ r \notin sent /\ sent' = sent \cup {r}
           /\ UNCHANGED <<T, R, next, noisy, outcome, by, local, result>>
Root == /\ sent = Ranks /\ result = NONE
        /\ result' = T - FoldSet(LAMBDA r, a : a + local[r], 0, Ranks)
        /\ UNCHANGED <<T, R, next, noisy, outcome, by, local, sent>>
Next == Root \/ \E r \in Ranks : Skip(r) \/ Noise(r) \/ Send(r) \/ \E ok \in BOOLEAN : Decode(r, ok)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Once == \A j, k \in DOMAIN by : by[j][1] = by[k][1] => j = k
Shares == \A j \in DOMAIN by : by[j][1] \in Share(T, R, by[j][2])
Partition == UNION {Share(T, R, r) : r \in Ranks} = 0..(T - 1)
             /\ \A q, r \in Ranks : q # r => Share(T, R, q) \cap Share(T, R, r) = {}
Counted == result # NONE => /\ Len(outcome) = T
                            /\ result = Fails(outcome)
                            /\ result \in 0..T
Ends == <>(result # NONE)
=============================================================================
