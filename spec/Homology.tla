------------------------------ MODULE Homology ------------------------------
(* Closed patterns of flips: products of loops (around a vertex of the        *)
(* opposite complex) and straight logical operators.                          *)
EXTENDS Decoding
Other(ec) == IF ec = "primal" THEN "dual" ELSE "primal"
Loop(c, ec, u) == {q \in Nbrs(c, u) : CheckedBy(c, ec, q) # {}}
LoopSites(c, ec) == {u \in QubitsOf(c, Other(ec)) : Loop(c, ec, u) # {}}
\* The straight line along axis i through q, which it crosses at plane sites.
Line(c, ec, i, q) ==
  {p \in SyndromeQubits(c, ec) : p[i] % 2 = q[i] % 2 /\ \A j \in Axes \ {i} : p[j] = q[j]}
LineBases(c, name, ec) ==
  {<<i, q>> \in PlaneAxes(name, ec) \X SyndromeQubits(c, ec) :
      /\ q[i] = FirstPlane(c, ec, i)
      /\ \A j \in Axes \ {i} : q[j] % 2 = (IF ec = "primal" THEN 1 ELSE 0)}
PlanesAgree(c, name, ec, E) ==
  \A i \in PlaneAxes(name, ec) : \A v \in PlaneCoords(c, ec, i) :
     PlaneEven(E, i, v) = PlaneEven(E, i, FirstPlane(c, ec, i))
=============================================================================
