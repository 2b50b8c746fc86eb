----------------------------- MODULE TrialModel -----------------------------
(* Trials on one code, interleaved with trials on others, whose noise objects    *)
(* may be replaced: no step reads what an earlier trial has left, so that a      *)
(* trial is a function of its settings and its random draws alone.  With Mixed   *)
(* the kind of noise may change from trial to trial, and then it can.            *)
EXTENDS Trial
CONSTANTS Trials, Mixed
VARIABLES written, trial, kind, todo, stale
vars == <<written, trial, kind, todo, stale>>
Init == /\ written = [v \in Vars |-> 0] /\ trial = 0 /\ todo = <<>> /\ stale = {}
        /\ kind \in Kinds
Begin == /\ todo = <<>> /\ trial < Trials /\ trial' = trial + 1
         /\ \E k \in IF Mixed THEN Kinds ELSE {kind} : \E d \in {"MWPM", "UF"} :
              \E m \in {"uniform", "blueprint"} :
                /\ Allowed(k, d, m) /\ kind' = k /\ todo' = Steps(k, d, m)
         /\ UNCHANGED <<written, stale>>
Step == /\ todo # <<>>
        /\ LET st == Head(todo) IN
           /\ stale' = stale \cup {v \in st[2] : written[v] \notin {0, trial}
                                     \/ (written[v] = 0 /\ v # "label")}
           /\ written' = [v \in Vars |-> IF v \in st[3] THEN trial ELSE written[v]]
        /\ todo' = Tail(todo) /\ UNCHANGED <<trial, kind>>
Next == Begin \/ Step
Spec == Init /\ [][Next]_vars
Fresh == stale = {}
=============================================================================
