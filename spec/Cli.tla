-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line of simulations.py: what it asks for, and the row that  *)
(* the results file gains for it.  Texts are sequences of characters.      *)
(***************************************************************************)
EXTENDS Results
Lower(x) == IF x \in 65..90 THEN x + 32 ELSE x
LowerCase(t) == [k \in DOMAIN t |-> Lower(t[k])]
UF == <<85, 70>>
MWPM == <<77, 87, 80, 77>>
WORDUNION == <<117, 110, 105, 111, 110>>
WORDFIND == <<102, 105, 110, 100>>
\* unionfind, uf, union-find, union find
UFNames == {WORDUNION \o WORDFIND, <<117, 102>>, WORDUNION \o <<45>> \o WORDFIND, WORDUNION \o <<32>> \o WORDFIND}
\* mwpm, minimum weight perfect matching
MWPMNames == {<<109, 119, 112, 109>>,
  <<109, 105, 110, 105, 109, 117, 109, 32, 119, 101, 105, 103, 104, 116, 32, 112, 101, 114, 102, 101, 99, 116,
    32, 109, 97, 116, 99, 104, 105, 110, 103>>}
\* The decoder asked for, or <<>>.
DecoderOf(t) == IF LowerCase(t) \in UFNames THEN UF ELSE IF LowerCase(t) \in MWPMNames THEN MWPM ELSE <<>>
\* c: a command line, c.parts the names of the options given, c.decoder the text,
\* c.known (code and noise exist), c.literal (the arguments are literals)
Parts == {"code", "code_args", "noise", "noise_args", "decoder", "decoder_args", "trials"}
Accepted(c) == /\ c.parts = Parts /\ c.known /\ c.literal
               /\ DecoderOf(c.decoder) # <<>>
=============================================================================
