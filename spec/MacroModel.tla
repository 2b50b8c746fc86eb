----------------------------- MODULE MacroModel -----------------------------
(* Macronizing an RHG lattice dumbbell by dumbbell, in any of several orders:  *)
(* no two dumbbells ever share a micronode, each micronode is in exactly one   *)
(* entry of the dictionary, and at the end every vertex has as many micronodes *)
(* as neighbours, at most four.                                                *)
EXTENDS Macro, Lattice
CONSTANTS Conf
VARIABLES todo, micros, dict
vars == <<todo, micros, dict>>
Confs == {[dims |-> <<x, y, z>>, bounds |-> <<a, b, d>>] :
            x \in 2..3, y \in {2}, z \in {2}, a, b, d \in {"primal", "dual", "periodic"}}
Init == \E c \in (IF Conf = 0 THEN Confs ELSE
                  {[dims |-> <<2, 2, 2>>, bounds |-> <<"periodic", "primal", "dual">>]}) :
          /\ todo = EdgesOf(c) /\ micros = {}
          /\ dict = [v \in Vertices(c) |-> {}]
Dumbbell(e) ==
  LET per == IsWrapEdge(e)  a == Micro(e[1], e[2], per)  b == Micro(e[2], e[1], per) IN
  /\ todo' = todo \ {e}
  /\ micros' = micros \cup {{a, b}}
  /\ dict' = [dict EXCEPT ![e[1]] = @ \cup {a}, ![e[2]] = @ \cup {b}]
\* One end of the list or the other (a full interleaving would be all subsets).
First == CHOOSE e \in todo : TRUE
Last == CHOOSE e \in todo : \A f \in todo : Abs(f[1][1]) * 10000 + f[1][2] * 100 + f[2][3] >=
                                            Abs(e[1][1]) * 10000 + e[1][2] * 100 + e[2][3]
Next == todo # {} /\ (Dumbbell(First) \/ Dumbbell(Last))
Spec == Init /\ [][Next]_vars
Disjoint == \A x, y \in micros : x # y => x \cap y = {}
Covered == UNION micros = UNION {dict[v] : v \in DOMAIN dict}
Homes == \A v \in DOMAIN dict : \A m \in dict[v] : m[1] = v
Degrees == todo = {} => \A v \in DOMAIN dict : Cardinality(dict[v]) \in 1..4
=============================================================================
