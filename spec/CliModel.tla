------------------------------ MODULE CliModel ------------------------------
(* Command lines, good and bad, one after the other on one file: it holds the    *)
(* header and one row for each good one, and bad ones leave no mark.             *)
EXTENDS Cli
CONSTANTS Runs
VARIABLES file, good, n
vars == <<file, good, n>>
Texts == {UF, MWPM, <<109, 87, 112, 77>>, <<117, 70, 102>>, <<>>,
          <<85, 110, 73, 79, 110, 32, 102, 105, 78, 68>>, WORDUNION \o <<95>> \o WORDFIND}
Lines == [parts : {Parts, Parts \ {"trials"}, Parts \ {"noise"}}, decoder : Texts, known : BOOLEAN,
          literal : BOOLEAN]
Header == << <<100>>, <<116>> >>
Init == file = ABSENT /\ good = <<>> /\ n = 0
Next == /\ n < Runs /\ n' = n + 1
        /\ \E c \in Lines :
             IF Accepted(c)
             THEN LET row == <<DecoderOf(c.decoder), <<49>> >>
                  IN file' = After(file, Header, row) /\ good' = Append(good, row)
             ELSE UNCHANGED <<file, good>>
Spec == Init /\ [][Next]_vars
Table == IF good = <<>> THEN file = ABSENT ELSE Rows(file) = <<Header>> \o good
Names == \A k \in DOMAIN good : good[k][1] \in {UF, MWPM}
Stable == \A t \in Texts : DecoderOf(t) # <<>> => DecoderOf(DecoderOf(t)) = DecoderOf(t)
=============================================================================
