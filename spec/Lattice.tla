------------------------------ MODULE Lattice ------------------------------
(***************************************************************************)
(* The RHG lattice, its check operators and its logical planes.            *)
(*                                                                         *)
(* A configuration c has c.dims = <<dx,dy,dz>> and c.bounds, three strings *)
(* "primal" | "dual" | "periodic".  Everything is defined on coordinates:  *)
(* nothing here follows how the implementation builds the lattice.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Axes == 1..3
Odd(n)  == n % 2 = 1
Even(n) == n % 2 = 0

\* The box: coordinates a vertex may have along axis i.
LoC(c, i) == IF c.bounds[i] = "dual" THEN 1 ELSE 0
HiC(c, i) == IF c.bounds[i] = "primal" THEN 2 * c.dims[i] - 2 ELSE 2 * c.dims[i] - 1
Box(c) == (LoC(c,1)..HiC(c,1)) \X (LoC(c,2)..HiC(c,2)) \X (LoC(c,3)..HiC(c,3))

NumOdd(p) == (p[1] % 2) + (p[2] % 2) + (p[3] % 2)
IsPrimal(p) == NumOdd(p) = 2      \* a face of a primal cube
IsDual(p)   == NumOdd(p) = 1      \* an edge of a primal cube
Kind(p) == IF IsPrimal(p) THEN "primal" ELSE "dual"

Vertices(c)       == {p \in Box(c) : NumOdd(p) \in {1, 2}}
QubitsOf(c, ec)   == {p \in Box(c) : NumOdd(p) = (IF ec = "primal" THEN 2 ELSE 1)}

\* One step along axis i; wraps when the axis is periodic.
Wrap(c, i, v) == IF c.bounds[i] = "periodic" THEN v % (2 * c.dims[i]) ELSE v
Step(c, p, i, s) == [p EXCEPT ![i] = Wrap(c, i, p[i] + s)]
InBox(c, p) == \A i \in Axes : p[i] >= LoC(c, i) /\ p[i] <= HiC(c, i)
Around(c, p) == {q \in {Step(c, p, i, s) : i \in Axes, s \in {-1, 1}} : InBox(c, q)}

\* Cluster-state edges, written <<primal, dual>>.
Nbrs(c, p) == {q \in Around(c, p) : NumOdd(q) \in {1, 2}}
EdgesOf(c) == UNION {{<<p, q>> : q \in Nbrs(c, p)} : p \in QubitsOf(c, "primal")}
Dir(e) == CHOOSE i \in Axes : e[1][i] # e[2][i]
Orient(p, q) == IF IsPrimal(p) THEN <<p, q>> ELSE <<q, p>>
IsWrapEdge(e) == LET d == e[1][Dir(e)] - e[2][Dir(e)] IN d # 1 /\ d # -1

\* The alternating polarity: sign set by the coordinate following the direction.
AltPolarity(e) == LET i == Dir(e)
                      j == IF i = 3 THEN 1 ELSE i + 1
                  IN IF Even(e[1][j]) THEN 1 ELSE -1
SymPolarity(e) == ((e[1][1] + e[2][1] + 2 * (e[1][2] + e[2][2])
                    + 3 * (e[1][3] + e[2][3])) % 5) - 2
PolarityOf(name, e) == CASE name = "none" -> 1
                         [] name = "alternating" -> AltPolarity(e)
                         [] name = "symmetric" -> SymPolarity(e)

(***************************************************************************)
(* Checks.  A primal check sits at an all-odd centre, a dual check at an   *)
(* all-even centre; it measures the lattice vertices one step away.        *)
(***************************************************************************)
Centres(c, ec) == {p \in Box(c) : NumOdd(p) = (IF ec = "primal" THEN 3 ELSE 0)}
Faces(c, s) == Around(c, s)
CheckedBy(c, ec, q) == {s \in Around(c, q) : NumOdd(s) = (IF ec = "primal" THEN 3 ELSE 0)}
SyndromeQubits(c, ec) == {q \in QubitsOf(c, ec) : CheckedBy(c, ec, q) # {}}

\* The boundary axis of an open code: where the boundary type equals ec.
BoundAxes(c, ec) == {i \in Axes : c.bounds[i] = ec}
BoundAxis(c, ec) == CHOOSE i \in BoundAxes(c, ec) :
                        \A j \in BoundAxes(c, ec) : i <= j
HasBoundary(c, ec) == /\ \A i \in Axes : c.bounds[i] # "periodic"
                      /\ BoundAxes(c, ec) # {}
LowPoints(c, ec)  == {q \in SyndromeQubits(c, ec) :
                        q[BoundAxis(c, ec)] = LoC(c, BoundAxis(c, ec))}
HighPoints(c, ec) == {q \in SyndromeQubits(c, ec) :
                        q[BoundAxis(c, ec)] = HiC(c, BoundAxis(c, ec))}

\* Boundary conditions of the named codes.
CodeBounds(name, ec) ==
  CASE name = "open"     -> IF ec = "primal" THEN <<"primal", "dual", "dual">>
                                            ELSE <<"primal", "dual", "primal">>
    [] name = "toric"    -> IF ec = "primal" THEN <<"periodic", "periodic", "dual">>
                                            ELSE <<"periodic", "periodic", "primal">>
    [] name = "periodic" -> <<"periodic", "periodic", "periodic">>

(***************************************************************************)
(* Syndromes, planes and logical classes of a set E of flipped qubits.     *)
(***************************************************************************)
SymDiff(A, B) == (A \ B) \cup (B \ A)
ParityOf(S) == Cardinality(S) % 2
SyndromeOf(c, ec, E) ==
  {s \in UNION {CheckedBy(c, ec, q) : q \in E} : ParityOf(Faces(c, s) \cap E) = 1}

PlaneAxes(name, ec) == CASE name = "open"     -> IF ec = "primal" THEN {1} ELSE {2}
                         [] name = "toric"    -> {1, 2}
                         [] name = "periodic" -> {1, 2, 3}
PlaneCoords(c, ec, i) ==
  {v \in LoC(c, i)..HiC(c, i) : v % 2 = (IF ec = "primal" THEN 0 ELSE 1)}
PlaneQubits(c, ec, i, v) == {q \in SyndromeQubits(c, ec) : q[i] = v}
PlaneEven(E, i, v) == ParityOf({q \in E : q[i] = v}) = 0
FirstPlane(c, ec, i) == IF ec = "primal" THEN 0 ELSE 1
LogicallyTrivial(c, name, ec, E) ==
  \A i \in PlaneAxes(name, ec) : PlaneEven(E, i, FirstPlane(c, ec, i))
=============================================================================
