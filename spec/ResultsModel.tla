---------------------------- MODULE ResultsModel ----------------------------
(* All histories of runs that write any fields into one file.  The invariants  *)
(* say what the statement of C20 says; NoQuotes = TRUE is the variant in which *)
(* fields are written as they are, which TLC refutes.                          *)
EXTENDS Results
CONSTANTS Alphabet, MaxLen, Cols, Runs, NoQuotes
VARIABLES file, wrote, old
vars == <<file, wrote, old>>
Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Header == [k \in 1..Cols |-> <<96 + k>>]
RawLine(fs) == Join(fs) \o <<LF>>
Init == file = ABSENT /\ wrote = <<>> /\ old = ABSENT
Run(row) == /\ Len(wrote) < Runs
            /\ old' = file
            /\ file' = IF NoQuotes THEN (IF file = ABSENT THEN Line(Header) ELSE file) \o RawLine(row)
                       ELSE After(file, Header, row)
            /\ wrote' = Append(wrote, row)
Next == \E row \in [1..Cols -> Texts] : Run(row)
Spec == Init /\ [][Next]_vars
\* (a lone carriage return at the end of a bare field never occurs: it is quoted)
Table == file # ABSENT => /\ WellFormed(Parse(file))
                          /\ Rows(file) = <<Header>> \o wrote
Kept == file # ABSENT /\ old # ABSENT => IsPrefix(old, file)
Aligned == file # ABSENT => \A k \in DOMAIN Rows(file) : Len(Rows(file)[k]) = Cols
=============================================================================
