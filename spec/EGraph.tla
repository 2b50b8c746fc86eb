------------------------------- MODULE EGraph -------------------------------
(***************************************************************************)
(* A graph state under edits.  Points are triples of hundredths.           *)
(* A state is a record                                                     *)
(*   nodes   set of points                                                 *)
(*   edges   set of <<{p, q}, weight>>                                     *)
(*   idx     function from points to indices; hasIdx says whether any      *)
(*   macro   function from macronode centres to sequences of points;       *)
(*           hasMacro says whether any                                     *)
(* Post(st, op) is the outcome of a call: [ok, st, ret].                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

Lex(p, q) == \/ p[1] < q[1]
             \/ p[1] = q[1] /\ p[2] < q[2]
             \/ p[1] = q[1] /\ p[2] = q[2] /\ p[3] < q[3]
Sorted(S) == SetToSortSeq(S, Lex)
Round(p) == [i \in 1..3 |-> 100 * ((p[i] + 50) \div 100)]
Empty == [x \in {} |-> 0]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

\* Indices when none are cached: sorted points, or macronode by macronode with
\* qubits that belong to none of them last.
Listing(st) ==
  IF ~st.hasMacro THEN Sorted(st.nodes)
  ELSE LET listed == FlattenSeq([k \in 1..Cardinality(DOMAIN st.macro) |->
                        st.macro[Sorted(DOMAIN st.macro)[k]]])
       IN listed \o Sorted(st.nodes \ ToSet(listed))
Indexed(st) ==
  IF st.hasIdx THEN st
  ELSE LET L == Listing(st)
       IN [st EXCEPT !.hasIdx = TRUE,
                     !.idx = [p \in ToSet(L) |-> (CHOOSE k \in DOMAIN L : L[k] = p) - 1]]
PointAt(st, i) == CHOOSE p \in DOMAIN st.idx : st.idx[p] = i
Indices(st) == {st.idx[p] : p \in DOMAIN st.idx}
InOrder(st) == SetToSortSeq(DOMAIN st.idx, LAMBDA p, q : st.idx[p] < st.idx[q])
Weight(st, p, q) == IF \E e \in st.edges : e[1] = {p, q}
                    THEN (CHOOSE e \in st.edges : e[1] = {p, q})[2] ELSE 0
Matrix(st) == LET L == InOrder(st) IN [i \in DOMAIN L |-> [j \in DOMAIN L |-> Weight(st, L[i], L[j])]]

(* The invariants of C16. *)
Bijective(st) == st.hasIdx => /\ DOMAIN st.idx = st.nodes
                              /\ Cardinality(Indices(st)) = Cardinality(st.nodes)
MacroExact(st) == st.hasMacro =>
  /\ \A c \in DOMAIN st.macro : /\ Len(st.macro[c]) > 0
                                /\ ToSet(st.macro[c]) \subseteq st.nodes
                                /\ \A k \in DOMAIN st.macro[c] : Round(st.macro[c][k]) = c
                                /\ Cardinality(ToSet(st.macro[c])) = Len(st.macro[c])
  /\ \A c, d \in DOMAIN st.macro : c # d => ToSet(st.macro[c]) \cap ToSet(st.macro[d]) = {}
Sound(st) == Bijective(st) /\ MacroExact(st) /\ \A e \in st.edges : e[1] \subseteq st.nodes

Refuse(st) == [ok |-> FALSE, st |-> st]
Accept(st) == [ok |-> TRUE, st |-> st]

\* op.q = <<>> asks for a qubit one step beyond the largest x.
Beyond(st) == <<Max({p[1] : p \in st.nodes}) + 100, 0, 0>>
AddTo(st, q, nbrs, mac) ==
  LET st1 == [st EXCEPT !.nodes = @ \cup {q},
                        !.edges = @ \cup {<<{q, p}, 1>> : p \in nbrs}]
      st2 == IF ~st.hasIdx THEN st1
             ELSE [st1 EXCEPT !.idx = With(@, q, 1 + Max({-1} \cup Indices(st)))]
      c == Round(q)
  IN IF ~mac THEN st2
     ELSE [st2 EXCEPT !.macro = With(@, c, IF c \in DOMAIN @ THEN Append(@[c], q) ELSE <<q>>)]
AddQubit(st, op) ==
  LET st1 == IF op.by = "index" THEN Indexed(st) ELSE st
      none == op.q = <<>>
      q == IF none THEN Beyond(st) ELSE op.q
      known == IF op.by = "index" THEN ToSet(op.nbi) \subseteq Indices(st1)
               ELSE ToSet(op.nbp) \subseteq st.nodes
      nbrs == IF op.by = "index" THEN {PointAt(st1, i) : i \in ToSet(op.nbi)} ELSE ToSet(op.nbp)
  IN IF \/ none /\ st.nodes = {}
        \/ ~none /\ Len(op.q) # 3
        \/ ~none /\ q \in st.nodes
        \/ op.mac /\ ~st.hasMacro
        \/ ~known
     THEN Refuse(st) ELSE Accept(AddTo(st1, q, nbrs, op.mac))
RemoveFrom(st, q) ==
  [nodes |-> st.nodes \ {q}, edges |-> {e \in st.edges : q \notin e[1]},
   hasIdx |-> st.hasIdx, idx |-> Without(st.idx, {q}), hasMacro |-> st.hasMacro,
   macro |-> LET keep == {c \in DOMAIN st.macro : ToSet(st.macro[c]) \ {q} # {}}
             IN [c \in keep |-> SelectSeq(st.macro[c], LAMBDA p : p # q)]]
RemoveQubit(st, op) ==
  IF op.by = "index"
  THEN IF st.hasIdx /\ op.i \in Indices(st) THEN Accept(RemoveFrom(st, PointAt(st, op.i)))
       ELSE Refuse(st)
  ELSE IF op.q \in st.nodes THEN Accept(RemoveFrom(st, op.q)) ELSE Refuse(st)
Post(st, op) ==
  CASE op.op = "add" -> AddQubit(st, op)
    [] op.op = "remove" -> RemoveQubit(st, op)
    [] op.op \in {"index", "dense", "sparse", "look"} -> Accept(Indexed(st))
    [] op.op = "macronize" -> Accept(st)
    [] op.op = "bad" -> Refuse(st)
=============================================================================
