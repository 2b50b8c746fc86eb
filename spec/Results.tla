------------------------------ MODULE Results ------------------------------
(* The results file: a sequence of characters (numbers), which is a table of   *)
(* fields.  A field is bare, or quoted: then quotes in it are doubled, and     *)
(* separators and line breaks in it are plain text.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
COMMA == 44
QUOTE == 34
LF == 10
CR == 13
Special == {COMMA, QUOTE, LF, CR}
Encode(f) == IF ToSet(f) \cap Special = {} THEN f
             ELSE <<QUOTE>> \o FlattenSeq([k \in DOMAIN f |-> IF f[k] = QUOTE
                                             THEN <<QUOTE, QUOTE>> ELSE <<f[k]>>]) \o <<QUOTE>>
Join(fs) == FlattenSeq([k \in DOMAIN fs |-> IF k = 1 THEN fs[k] ELSE <<COMMA>> \o fs[k]])
Line(fs) == Join([k \in DOMAIN fs |-> Encode(fs[k])]) \o <<LF>>

(* Reading: one step per character.  mode is "start" (of a field), "bare",     *)
(* "quoted" or "closed" (just after a quote inside a quoted field).            *)
Blank == [rows |-> <<>>, row |-> <<>>, field |-> <<>>, mode |-> "start", ok |-> TRUE]
EndField(s) == [s EXCEPT !.row = Append(s.row, s.field), !.field = <<>>, !.mode = "start"]
EndRow(s) == LET t == EndField(s) IN [t EXCEPT !.rows = Append(t.rows, t.row), !.row = <<>>]
Put(s, x, mode) == [s EXCEPT !.field = Append(s.field, x), !.mode = mode]
Read(s, x) ==
  CASE s.mode = "quoted" -> IF x = QUOTE THEN [s EXCEPT !.mode = "closed"] ELSE Put(s, x, "quoted")
    [] x = COMMA -> EndField(s)
    [] x = LF -> EndRow(s)
    [] x = CR -> [s EXCEPT !.mode = IF s.mode = "start" THEN "bare" ELSE s.mode]
    [] s.mode = "start" /\ x = QUOTE -> [s EXCEPT !.mode = "quoted"]
    [] s.mode = "closed" -> IF x = QUOTE THEN Put(s, x, "quoted") ELSE [s EXCEPT !.ok = FALSE]
    [] x = QUOTE -> [s EXCEPT !.ok = FALSE]
    [] OTHER -> Put(s, x, "bare")
Parse(text) == FoldLeft(Read, Blank, text)
\* A whole number of lines.
WellFormed(s) == s.ok /\ s.mode = "start" /\ s.row = <<>> /\ s.field = <<>>
Rows(text) == Parse(text).rows

ABSENT == <<-1>>
\* What a run with these columns and this row makes of the file.
After(before, header, row) ==
  (IF before = ABSENT THEN Line(header) ELSE before) \o Line(row)
=============================================================================
