-------------------------- MODULE ClusterTreesModel --------------------------
(* All histories of weighted unions and compressing look-ups on N nodes, for    *)
(* all marks.  Beyond the consistency of C21: a tree over k nodes is no deeper  *)
(* than log2(k), which is what keeps look-ups short.                            *)
EXTENDS ClusterTrees, Json
CONSTANTS N, D, AllMarks, Emitting
VARIABLES marks, part, parent, children, size, parity, bnd, hist
vars == <<marks, part, parent, children, size, parity, bnd, hist>>
Nodes == 1..N
Init == /\ marks \in IF AllMarks THEN [Nodes -> 0..2] ELSE {[a \in Nodes |-> a % 3]}
        /\ part = {{a} : a \in Nodes}
        /\ parent = [a \in Nodes |-> 0] /\ children = [a \in Nodes |-> {}]
        /\ size = [a \in Nodes |-> 1]
        /\ parity = [a \in Nodes |-> IF marks[a] = 1 THEN 1 ELSE 0]
        /\ bnd = [a \in Nodes |-> IF marks[a] = 2 THEN a ELSE 0]
        /\ hist = <<>>
Log(op) == hist' = IF Emitting THEN Append(hist, op) ELSE <<Len(hist)>>
Full == Emitting /\ Len(hist) = D
Union(a, b) ==
  LET ra == TopOf(parent, a)  rb == TopOf(parent, b)
      big == IF size[ra] >= size[rb] THEN ra ELSE rb
      small == IF big = ra THEN rb ELSE ra
  IN /\ ~Full /\ Log([op |-> "union", a |-> a, b |-> b])
     /\ IF ra = rb THEN UNCHANGED <<marks, part, parent, children, size, parity, bnd>>
        ELSE /\ part' = Merged(part, a, b)
             /\ parent' = [parent EXCEPT ![small] = big]
             /\ children' = [children EXCEPT ![big] = @ \cup {small}]
             /\ size' = [size EXCEPT ![big] = @ + size[small]]
             /\ parity' = [parity EXCEPT ![big] = (@ + parity[small]) % 2]
             /\ bnd' = [bnd EXCEPT ![big] = IF bnd[small] # 0 THEN bnd[small] ELSE @]
             /\ UNCHANGED marks
Find(a) ==
  LET path == PathUp(parent, a, N)
      top == path[Len(path)]
      on == {path[k] : k \in 1..(Len(path) - 1)}
  IN /\ ~Full /\ Log([op |-> "find", a |-> a, b |-> a])
     /\ parent' = [x \in Nodes |-> IF x \in on THEN top ELSE parent[x]]
     /\ children' = [x \in Nodes |-> IF x = top THEN children[x] \cup on ELSE children[x] \ on]
     /\ UNCHANGED <<marks, part, size, parity, bnd>>
Next == \E a \in Nodes : Find(a) \/ \E b \in Nodes : Union(a, b)
Spec == Init /\ [][Next]_vars
Bounded == Emitting \/ hist = <<>> \/ hist[1] < 100
Consistent == TreesOK(part, marks, [parent |-> parent, size |-> size, parity |-> parity, bnd |-> bnd])
Links == Linked(parent, children)
Shallow == \A a \in Nodes : 2 ^ DepthOf(parent, a) <= size[TopOf(parent, a)]
NeverSplit == [][\A K \in part : \E L \in part' : K \subseteq L]_vars
NeverDeeper == [][part' = part => \A a \in Nodes : DepthOf(parent', a) <= DepthOf(parent, a)]_vars
Emit == Full => PrintT("HIST " \o ToJson(hist))
View == <<marks, part, parent, children, size, parity, bnd>>
=============================================================================
