------------------------------ MODULE StabGraph ------------------------------
(***************************************************************************)
(* The stabilizer graph of a code, over Lattice.tla.  A node is the set of *)
(* coordinates it stands for: the qubits of a stabilizer, the singleton of *)
(* a boundary point, or one of the two connectors LOW and HIGH.            *)
(***************************************************************************)
EXTENDS Lattice

LOW  == {<<-1, -1, -1>>}
HIGH == {<<-2, -2, -2>>}

BoundPoints(c, ec) ==
  IF HasBoundary(c, ec) THEN LowPoints(c, ec) \cup HighPoints(c, ec) ELSE {}
StabNodes(c, ec)  == {Faces(c, s) : s \in Centres(c, ec)}
RealNodes(c, ec)  == StabNodes(c, ec) \cup {{p} : p \in BoundPoints(c, ec)}
GraphNodes(c, ec) == RealNodes(c, ec) \cup {LOW, HIGH}

\* The edge that qubit q stands for.
EdgeOf(c, ec, q) ==
  LET S == {Faces(c, s) : s \in CheckedBy(c, ec, q)}
  IN IF Cardinality(S) = 1 THEN S \cup {{q}} ELSE S
RealEdges(c, ec) == {EdgeOf(c, ec, q) : q \in SyndromeQubits(c, ec)}
ConnectorEdges(c, ec) ==
  IF HasBoundary(c, ec)
  THEN {{LOW, {p}} : p \in LowPoints(c, ec)} \cup {{HIGH, {p}} : p \in HighPoints(c, ec)}
  ELSE {}
=============================================================================
