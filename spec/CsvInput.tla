------------------------------ MODULE CsvInput ------------------------------
(* CSV text to packages: a machine that consumes one character at a time.      *)
(* A text is a sequence of one-character strings; "NL" and "CR" stand for the  *)
(* line feed and the carriage return.                                          *)
(* machine state == [mode, field, fields, rows, bad]                           *)
(*   mode: "line" at the start of a line, "start" at the start of a further    *)
(*         field, "bare" in an unquoted field, "quoted", "quote" after a quote *)
(*         inside a quoted field                                               *)
EXTENDS Util

Start == [mode |-> "line", field |-> "", fields |-> <<>>, rows |-> <<>>, bad |-> FALSE]
EndField(s) == [s EXCEPT !.fields = Append(@, s.field), !.field = "", !.mode = "start"]
EndRow(s) == LET t == EndField(s) IN [t EXCEPT !.rows = Append(@, t.fields), !.fields = <<>>, !.mode = "line"]
Chars(c) == IF c = "NL" THEN "{a}" ELSE IF c = "CR" THEN "{d}" ELSE c   \* how records spell them
Take1(s, c, m) == [s EXCEPT !.field = @ \o Chars(c), !.mode = m]

Eat(s, c) ==
  IF s.bad THEN s
  ELSE CASE s.mode = "quoted" -> IF c = "\"" THEN [s EXCEPT !.mode = "quote"] ELSE Take1(s, c, "quoted")
         [] s.mode = "quote" -> IF c = "\"" THEN Take1(s, c, "quoted")
                                ELSE IF c = "," THEN EndField(s)
                                ELSE IF c = "NL" THEN EndRow(s)
                                ELSE [s EXCEPT !.bad = TRUE]
         [] s.mode = "line" /\ c = "NL" -> s                            \* empty lines are skipped
         [] c = "NL" -> EndRow(s)
         [] c = "," -> EndField(s)
         [] c = "\"" -> IF s.mode = "bare" THEN [s EXCEPT !.bad = TRUE] ELSE [s EXCEPT !.mode = "quoted"]
         [] OTHER -> Take1(s, c, "bare")
AtEnd(s) == IF s.bad THEN s
            ELSE IF s.mode = "quoted" THEN [s EXCEPT !.bad = TRUE]
            ELSE IF s.mode = "line" THEN s
            ELSE EndRow(s)

(* a carriage return before a line feed, or at the very end, is part of the line ending *)
Normal(text) == LET keep(i) == text[i] # "CR" \/ (i < Len(text) /\ text[i + 1] # "NL")
                    idx == FilterSeq([i \in DOMAIN text |-> i], keep)
                IN MapSeq(idx, LAMBDA i : text[i])
Parsed(text) == AtEnd(FoldL(Eat, Start, Normal(text)))

(* ---------------------------------------------------------- packages *)
RowOk(f) == Len(f) >= 4 /\ f[3] # "" /\ (f[1] # "" \/ f[4] # "")
PkgOf(f) == IF f[1] = "" THEN [name |-> f[3], version |-> "", eco |-> "", cmp |-> f[2], commit |-> f[4]]
            ELSE [name |-> f[3], version |-> f[4], eco |-> f[1], cmp |-> IF f[2] = "" THEN f[1] ELSE f[2], commit |-> ""]
SameWidth(rows) == \A i \in DOMAIN rows : Len(rows[i]) = Len(rows[1])
(* all rows or nothing *)
CsvOk(p) == ~p.bad /\ SameWidth(p.rows) /\ \A i \in DOMAIN p.rows : RowOk(p.rows[i])
CsvPkgs(p) == MapSeq(p.rows, PkgOf)
(* the row an error has to name: the first bad one, if what precedes it is fine *)
BadRow(p) == LET B == {i \in DOMAIN p.rows : ~RowOk(p.rows[i])} IN
  IF B = {} THEN 0 ELSE LET i == MinOf(B) IN IF \A k \in 1..i : Len(p.rows[k]) = Len(p.rows[1]) THEN i ELSE 0
=============================================================================
