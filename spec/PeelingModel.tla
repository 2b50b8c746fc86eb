---------------------------- MODULE PeelingModel ----------------------------
(* Peeling every forest on N nodes, in every order: it always ends, with the *)
(* one correction whose odd ends are the odd nodes.                          *)
EXTENDS Peeling
CONSTANT N
Pairs == {e \in SUBSET (1..N) : Cardinality(e) = 2}
VARIABLES es, par, rec, es0, par0
vars == <<es, par, rec, es0, par0>>
Init == /\ es0 \in {x \in SUBSET Pairs : Cardinality(x) < N /\ IsForest(x)}
        /\ par0 \in {p \in SUBSET (1..N) : Peelable(es0, p)}
        /\ es = es0 /\ par = par0 /\ rec = {}
Next == /\ \E leaf \in Leaves(es) :
              LET s == Peel(es, par, rec, leaf)
              IN es' = s.es /\ par' = s.par /\ rec' = s.rec
        /\ UNCHANGED <<es0, par0>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* The odd nodes left and the odd ends of the correction make up the syndrome.
Conserved == Toggle(par, OddEnds(rec)) = par0
StillPeelable == Peelable(es, par)
Unique == es = {} => rec = CHOOSE r \in SUBSET es0 : OddEnds(r) = par0
OnlyOne == es = es0 => Cardinality({r \in SUBSET es0 : OddEnds(r) = par0}) = 1
Ends == <>(es = {} /\ par = {})
=============================================================================
