----------------------------- MODULE EGraphModel -----------------------------
(* All histories of D calls from a small alphabet on two small graphs, one      *)
(* plain and one macronized.  With Emit each history is printed, to be replayed *)
(* against the implementation.                                                  *)
EXTENDS EGraph, Json
CONSTANTS D, Emitting
VARIABLES st, hist, start
vars == <<st, hist, start>>
Plain == [nodes |-> {<<0, 0, 0>>, <<100, 0, 0>>}, edges |-> {<<{<<0, 0, 0>>, <<100, 0, 0>>}, 1>>},
          hasIdx |-> FALSE, idx |-> Empty, hasMacro |-> FALSE, macro |-> Empty]
Macronized == [nodes |-> {<<10, 0, 0>>, <<90, 0, 0>>}, edges |-> {<<{<<10, 0, 0>>, <<90, 0, 0>>}, 1>>},
          hasIdx |-> FALSE, idx |-> Empty, hasMacro |-> TRUE,
          macro |-> [c \in {<<0, 0, 0>>, <<100, 0, 0>>} |->
                       IF c = <<0, 0, 0>> THEN << <<10, 0, 0>> >> ELSE << <<90, 0, 0>> >>]]
Adds(s) ==
  LET first == IF s = "plain" THEN <<0, 0, 0>> ELSE <<10, 0, 0>> IN
  {[op |-> "add", q |-> q, nbp |-> nb, nbi |-> <<>>, by |-> "point", mac |-> m] :
     q \in {<<>>, first, <<0, 10, 0>>}, m \in BOOLEAN,
     nb \in { <<>>, <<first>>, <<first, <<700, 0, 0>>>> }}
  \cup
  {[op |-> "add", q |-> q, nbp |-> <<>>, nbi |-> nb, by |-> "index", mac |-> m] :
     q \in {<<>>, first, <<0, 10, 0>>}, m \in BOOLEAN, nb \in { <<0>>, <<1, 2>> }}
Removes(s) ==
  {[op |-> "remove", by |-> "point", q |-> q, i |-> 0] :
     q \in {IF s = "plain" THEN <<0, 0, 0>> ELSE <<10, 0, 0>>, <<0, 10, 0>>, <<700, 0, 0>>}}
  \cup {[op |-> "remove", by |-> "index", q |-> <<>>, i |-> i] : i \in {0, 1, 2}}
Ops(s) == Adds(s) \cup Removes(s) \cup {[op |-> x] : x \in {"index", "dense", "sparse"}}
Init == /\ start \in {"plain", "macro"} /\ hist = <<>>
        /\ st = IF start = "plain" THEN Plain ELSE Macronized
Next == /\ Len(hist) < D /\ UNCHANGED start
        /\ \E op \in Ops(start) : st' = Post(st, op).st /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_vars
Consistent == Sound(st)
KeepIndex == [][st.hasIdx => \A p \in st.nodes \cap st'.nodes : st'.idx[p] = st.idx[p]]_vars
FreshIndex == [][(st.hasIdx /\ st'.nodes \ st.nodes # {}) =>
                   \A p \in st'.nodes \ st.nodes : st'.idx[p] \notin Indices(st)]_vars
Emit == (Emitting /\ Len(hist) = D) =>
           PrintT("HIST " \o ToJson([start |-> start, ops |-> hist]))
=============================================================================
