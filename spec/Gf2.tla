-------------------------------- MODULE Gf2 --------------------------------
(***************************************************************************)
(* Linear algebra over the two-element field.  A vector is the set of the  *)
(* (positive) positions of its ones; a list of vectors is a sequence.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Sum2(a, b) == (a \ b) \cup (b \ a)
Lead(r) == CHOOSE x \in r : \A y \in r : x <= y
RECURSIVE Residue(_, _)
Residue(B, r) ==
  IF r = {} THEN {}
  ELSE LET same == {b \in B : Lead(b) = Lead(r)}
       IN IF same = {} THEN r ELSE Residue(B, Sum2(r, CHOOSE b \in same : TRUE))
\* An echelon basis (leads all different) of the span of a list of vectors.
Echelon(rows) ==
  FoldLeft(LAMBDA B, r : LET x == Residue(B, r) IN IF x = {} THEN B ELSE B \cup {x}, {}, rows)
Rank(rows) == Cardinality(Echelon(rows))
InSpan(B, r) == Residue(B, r) = {}
SameSpan(a, b) ==
  LET A == Echelon(a)
      B == Echelon(b)
  IN Cardinality(A) = Cardinality(B) /\ \A k \in DOMAIN b : InSpan(A, b[k])
Cut(rows, m) == [k \in DOMAIN rows |-> rows[k] \cap (1..m)]
\* R is M reduced in its first m columns, with p pivots.
Reduced(M, R, m, p) ==
  LET C == Cut(R, m)
  IN /\ Len(R) = Len(M)
     /\ p = Rank(Cut(M, m))
     /\ \A k \in 1..Len(R) : (C[k] = {}) = (k > p)
     /\ \A k \in 1..p - 1 : Lead(C[k]) < Lead(C[k + 1])
     /\ \A k \in 1..p : \A j \in 1..Len(R) : j # k => Lead(C[k]) \notin R[j]
     /\ SameSpan(M, R)
Dot(a, b) == Cardinality(a \cap b) % 2
\* N is a basis of the vectors of length n orthogonal to all of M.
NullBasis(M, n, N) ==
  /\ Len(N) = n - Rank(M)
  /\ Rank(N) = Len(N)
  /\ \A k \in DOMAIN N : N[k] \subseteq 1..n /\ \A j \in DOMAIN M : Dot(M[j], N[k]) = 0
=============================================================================
