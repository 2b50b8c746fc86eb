--------------------------- MODULE PopulateModel ---------------------------
(* Layers with fixed squeezed modes, or with a swap-out probability, take      *)
(* turns in populating one graph: the lists of the layer that acted last are   *)
(* always a partition, agree with the labels, and forget earlier trials.       *)
EXTENDS Populate
CONSTANTS N, Trials
VARIABLES layers, labels, last, trial
vars == <<layers, labels, last, trial>>
Kinds == {"none", "fixed", "swap"}
Init == /\ layers \in [1..2 -> [kind : Kinds, P : SUBSET Modes(N), G : {{}}]]
        /\ \A k \in 1..2 : layers[k].kind # "fixed" => layers[k].P = {}
        /\ labels = [i \in 1..N |-> "unset"] /\ last = 0 /\ trial = 0
Trial(k, P) ==
  /\ trial < Trials /\ trial' = trial + 1 /\ last' = k
  /\ layers[k].kind # "swap" => P = layers[k].P
  /\ layers' = [layers EXCEPT ![k] = [@ EXCEPT !.P = P, !.G = Modes(N) \ P]]
  /\ labels' = [i \in 1..N |-> IF i - 1 \in P THEN "p" ELSE "GKP"]
Next == \E k \in 1..2, P \in SUBSET Modes(N) : Trial(k, P)
Spec == Init /\ [][Next]_vars
Partitioned == last > 0 => Partition(N, layers[last].P, layers[last].G)
LabelsAgree == last > 0 => Labelled(N, layers[last].P, labels)
FixedStays == [][\A k \in 1..2 : layers[k].kind # "swap" => layers'[k].P = layers[k].P]_vars
=============================================================================
