----------------------------- MODULE MonteCarlo -----------------------------
(* Monte Carlo estimation over several ranks.                                 *)
(*                                                                            *)
(* Trials are numbered 0..T-1.  A rank runs its share, one trial at a time;   *)
(* a trial applies noise to the rank's own code and then decodes it.  When a  *)
(* rank has run its share it hands its count to the root, which adds them up. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt
Share(T, R, r) == {i \in 0..(T - 1) : i % R = r}
Fails(outcomes) == Cardinality({k \in DOMAIN outcomes : ~outcomes[k]})
Concat(lists) == FoldLeft(LAMBDA a, b : a \o b, <<>>, lists)

(* Decoders tell noise apart.  A scripted kind of noise is a pattern on a line *)
(* of three syndrome qubits that crosses the code:                             *)
(*   clean    nothing is flipped                                               *)
(*   logical  the whole line is flipped: no syndrome, a logical operator       *)
(*   pair     the two ends are flipped; the analog information says that they  *)
(*            were likely and everything else was not                          *)
(*   swap     the two ends are flipped and erased (two swap-outs around each)  *)
(*   round    as pair, but with weights whose order depends on rounding:       *)
(*            ends 1.4 each, middle 2.6                                        *)
(*   hom      as pair, but only the homodyne outcomes say so, while the        *)
(*            precomputed probabilities say the opposite                       *)
(* A decoder without analog information flips the middle: a logical error.     *)
Kinds == {"clean", "logical", "pair", "swap", "round", "hom"}
\* A decoder setting: d.decoder, d.method, d.integer, d.mult, d.pre.
Blueprint(d) == d.decoder = "MWPM" /\ d.method = "blueprint"
RoundOff(x, m) == (2 * x * m + 10) \div 20      \* x tenths times m, to the nearest integer
EndsLighter(d) == IF d.integer THEN 2 * RoundOff(14, d.mult) < RoundOff(26, d.mult)
                  ELSE 28 < 26
\* Does correction succeed after this kind of noise?
Succeeds(kind, d) ==
  CASE kind = "clean" -> TRUE
    [] kind = "logical" -> FALSE
    [] kind = "pair" -> Blueprint(d) /\ d.pre
    [] kind = "swap" -> d.decoder = "UF" \/ Blueprint(d)
    [] kind = "round" -> Blueprint(d) /\ d.pre /\ EndsLighter(d)
    [] kind = "hom" -> Blueprint(d) /\ ~d.pre
=============================================================================
