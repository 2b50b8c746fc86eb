----------------------------- MODULE GatesModel -----------------------------
(* Circuits of up to Depth gates on N modes, as maps on the unit vectors: they  *)
(* stay symplectic, CZ gates commute, four-splitters also preserve lengths and  *)
(* do not mix q and p.                                                          *)
EXTENDS Gates, SequencesExt
CONSTANTS N, Depth
VARIABLES cols, s, n, rigid
vars == <<cols, s, n, rigid>>
Unit(c) == [d \in Quads(N) |-> IF d = c THEN 1 ELSE 0]
Edges == {<<i, j, w>> : i \in {0, 1}, j \in {1, 3}, w \in {-2, 1}}
Circuits == {{e} : e \in {e \in Edges : e[1] # e[2]}} \cup {{<<0, 1, 2>>, <<1, 2, -2>>, <<0, 3, 1>>}}
Shifts == {[i \in 0..(N - 1) |-> (i + k) % N] : k \in 1..2} \cup {[i \in 0..(N - 1) |-> N - 1 - i]}
Init == cols = [c \in Quads(N) |-> Unit(c)] /\ s = 0 /\ n = 0 /\ rigid = TRUE
Do(F(_), k, r) == /\ n < Depth /\ n' = n + 1
                  /\ cols' = [c \in Quads(N) |-> F(cols[c])]
                  /\ s' = s + k
                  /\ rigid' = (rigid /\ r)
Next == \/ \E E \in Circuits : Do(LAMBDA x : CZ(N, E, x), 1, FALSE)
        \/ Do(LAMBDA x : Split(N, x), 1, TRUE)
        \/ \E p \in Shifts : Do(LAMBDA x : Permute(N, p, x), 0, TRUE)
Spec == Init /\ [][Next]_vars
Dot(x, y) == FoldSet(LAMBDA c, acc : acc + x[c] * y[c], 0, Quads(N))
Form(x, y) == FoldSet(LAMBDA i, acc : acc + x[<<"q", i>>] * y[<<"p", i>>] - x[<<"p", i>>] * y[<<"q", i>>],
                      0, 0..(N - 1))
Symplectic == \A c, d \in Quads(N) : Form(cols[c], cols[d]) = 4^s * Form(Unit(c), Unit(d))
Rigid == rigid => \A c, d \in Quads(N) :
           /\ Dot(cols[c], cols[d]) = IF c = d THEN 4^s ELSE 0
           /\ c[1] # d[1] => cols[c][d] = 0
Commute == \A c \in Quads(N) : \A E, G \in Circuits :
             CZ(N, E, CZ(N, G, cols[c])) = CZ(N, G, CZ(N, E, cols[c]))
Undo == \A p \in Shifts : Permute(N, InversePerm(N, p), Permute(N, p, cols[<<"q", 0>>])) = cols[<<"q", 0>>]
=============================================================================
