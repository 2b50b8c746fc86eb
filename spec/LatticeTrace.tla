---------------------------- MODULE LatticeTrace ----------------------------
(* C01: the graph built by the code, node by node and edge by edge, is the  *)
(* lattice of Lattice.tla.  Each trace is one construction; its events are  *)
(* the graph attribute dumps.                                               *)
EXTENDS Lattice, TLC, Json, IOUtils, SequencesExt

Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Traces == Data.traces

Conf(t) == [dims |-> t.dims,
            bounds |-> IF "code" \in DOMAIN t THEN CodeBounds(t.code, t.ec) ELSE t.bounds]

F(clause, ok) == IF ok THEN {} ELSE {clause}

NodeBad(t) ==
  LET c == Conf(t)
      V == Vertices(c)
      N == {n.p : n \in ToSet(t.nodes)}
  IN F("vertex-missing", V \subseteq N)
     \cup F("vertex-extra", N \subseteq V)
     \cup F("vertex-type", \A n \in ToSet(t.nodes) :
                             n.p \in V => n.type = Kind(n.p))
     \cup F("vertex-duplicate", Len(t.nodes) = Cardinality(N))

EdgeBad(t) ==
  LET c == Conf(t)
      X == EdgesOf(c)
      E == {Orient(e.p, e.q) : e \in ToSet(t.edges)}
  IN F("edge-missing", X \subseteq E)
     \cup F("edge-extra", E \subseteq X)
     \cup F("edge-duplicate", Len(t.edges) = Cardinality(E))
     \cup F("edge-weight", \A e \in ToSet(t.edges) :
               LET o == Orient(e.p, e.q) IN
               o \in X => e.w = PolarityOf(t.polarity, o))
     \cup F("edge-periodic-flag", \A e \in ToSet(t.edges) :
               LET o == Orient(e.p, e.q) IN
               o \in X => (e.periodic = IsWrapEdge(o)))

CodeBad(t) ==
  IF "code" \notin DOMAIN t THEN {} ELSE
    F("code-dims", t.got_dims = t.dims)
    \cup F("code-boundaries", t.got_bounds = CodeBounds(t.code, t.ec))
    \cup F("code-ec", t.got_ec = <<t.ec>>)

\* Slices of the lattice: e.axis (1..3), e.number and the coordinates listed.
SliceBad(t) ==
  F("slice", \A s \in ToSet(t.slices) :
      /\ ToSet(s.coords) = {p \in Vertices(Conf(t)) : p[s.axis] = s.number}
      /\ Len(s.coords) = Cardinality(ToSet(s.coords)))

\* Requests: r.sizes the sizes given (one or three positive integers are a size),
\* the names of the error complex, of the boundaries and of the backend.
SizeOK(r) == Len(r.sizes) \in {1, 3} /\ \A k \in DOMAIN r.sizes : r.sizes[k] >= 2
ForCode(r) == SizeOK(r) /\ r.ec \in {"primal", "dual"} /\ r.bounds \in {<<"open">>, <<"toric">>, <<"periodic">>}
              /\ r.backend \in {"networkx", "rustworkx"}
Types == {"primal", "dual", "periodic"}
ForLattice(r) == SizeOK(r) /\ IF Len(r.bounds) = 1
                             THEN r.bounds[1] \in Types \cup {"open_primal", "open_dual", "periodic_primal", "periodic_dual"}
                             ELSE Len(r.bounds) = 3 /\ ToSet(r.bounds) \subseteq Types
RequestBad(t) ==
  UNION {F(IF r.refused THEN "refused" ELSE "not-refused",
           r.refused = ~(IF r.what = "code" THEN ForCode(r) ELSE ForLattice(r))) : r \in ToSet(t.requests)}

VARIABLES tid, phase, bad
vars == <<tid, phase, bad>>

Init == tid \in 1..Len(Traces) /\ phase = "nodes" /\ bad = {}
Next ==
  LET t == Traces[tid] IN
  \/ /\ t.error # "" /\ phase = "nodes"
     /\ phase' = "done" /\ bad' = {"raised"} /\ UNCHANGED tid
     /\ PrintT("VERDICT " \o ToJson([tid |-> tid, bad |-> bad']))
  \/ /\ t.error = "" /\ phase = "nodes" /\ "requests" \in DOMAIN t
     /\ phase' = "done" /\ bad' = RequestBad(t) /\ UNCHANGED tid
     /\ PrintT("VERDICT " \o ToJson([tid |-> tid, bad |-> bad']))
  \/ /\ t.error = "" /\ phase = "nodes" /\ "requests" \notin DOMAIN t
     /\ bad' = NodeBad(t) /\ phase' = "edges" /\ UNCHANGED tid
  \/ /\ phase = "edges"
     /\ bad' = bad \cup EdgeBad(t) \cup CodeBad(t) \cup SliceBad(t) /\ phase' = "done" /\ UNCHANGED tid
     /\ PrintT("VERDICT " \o ToJson([tid |-> tid, bad |-> bad']))
Spec == Init /\ [][Next]_vars
=============================================================================
