------------------------------- MODULE Trial -------------------------------
(***************************************************************************)
(* One trial of error correction, as what its steps read and write.  The   *)
(* shared variables live in the code and in the noise object, and are      *)
(* written over and over by successive trials.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Kinds == {"iid", "cv", "macro"}
\* <<name, reads, writes>>
Noise(kind) ==
  CASE kind = "iid"   -> << <<"flip", {}, {"bit"}>> >>
    [] kind = "cv"    -> << <<"populate", {}, {"states", "label"}>>,
                            <<"measure", {"states"}, {"outcome"}>>,
                            <<"translate", {"outcome"}, {"bit"}>> >>
    [] kind = "macro" -> << <<"populate", {}, {"states", "microlabel"}>>,
                            <<"permute", {"states"}, {"order"}>>,
                            <<"relabel", {"order", "microlabel"}, {"body", "label"}>>,
                            <<"entangle", {"states", "order"}, {"quads"}>>,
                            <<"measure", {"quads", "order"}, {"outcome"}>>,
                            <<"reduce", {"outcome", "body", "microlabel"}, {"bit", "prob"}>> >>
\* "label" is optional for uniform weights: without CV noise no qubit is squeezed.
Weigh(kind, decoder, method) ==
  << <<"weigh",
       (IF decoder = "UF" \/ method = "blueprint" THEN {"label"} ELSE {})
         \cup (IF method = "blueprint" /\ kind = "macro" THEN {"prob"} ELSE {}),
       {"weight"}>>,
     <<"edges", {"weight"}, {"edge"}>> >>
Decode(decoder) ==
  << <<"decode", {"bit", "weight"} \cup (IF decoder = "MWPM" THEN {"edge"} ELSE {}), {"flips"}>>,
     <<"recover", {"bit", "flips"}, {"bit"}>>,
     <<"verdict", {"bit"}, {"verdict"}>> >>
Allowed(kind, decoder, method) == method = "blueprint" => decoder = "MWPM" /\ kind # "iid"
Steps(kind, decoder, method) == Noise(kind) \o Weigh(kind, decoder, method) \o Decode(decoder)
Vars == {"bit", "states", "label", "outcome", "microlabel", "order", "body", "quads", "prob",
         "weight", "edge", "flips", "verdict"}
=============================================================================
