------------------------------- MODULE MCCsv --------------------------------
(* Every list of up to MaxRows rows over a small alphabet of fields, written   *)
(* out with every quoting: the machine reads back exactly these rows.          *)
EXTENDS CsvInput, Json
CONSTANTS MaxRows
VARIABLES rows, quote
Ecos == {"", "npm"}
Cmps == {"", "Go"}
Names == {"", "a", "x,y", "q\"r"}
Vers == {"", "1.0"}
RowShapes == {<<e, c, n, v>> : e \in Ecos, c \in Cmps, n \in Names, v \in Vers}
             \cup {<<e, c, n>> : e \in Ecos, c \in {""}, n \in {"a"}} \cup {<<e, "", "a", "1.0", x>> : e \in Ecos, x \in {"", "z"}} \cup {<<"npm">>}
Init == rows = <<>> /\ quote \in {"needed", "always"}
Next == /\ Len(rows) < MaxRows /\ UNCHANGED quote
        /\ \E f \in RowShapes : rows' = Append(rows, f)
Spec == Init /\ [][Next]_<<rows, quote>>

CharsOf(s) == [i \in 1..Len(s) |-> Chr(s, i)]
Escaped(s) == FlattenSeq(MapSeq(CharsOf(s), LAMBDA c : IF c = "\"" THEN <<c, c>> ELSE <<c>>))
Quoted(s) == <<"\"">> \o Escaped(s) \o <<"\"">>
FieldText(s) == IF quote = "always" \/ Contains(s, ",") \/ Contains(s, "\"") THEN Quoted(s) ELSE CharsOf(s)
RowText(f) == LET g[i \in 1..Len(f)] == IF i = 1 THEN FieldText(f[1]) ELSE g[i-1] \o <<",">> \o FieldText(f[i]) IN g[Len(f)]
Text == FlattenSeq(MapSeq(rows, LAMBDA f : RowText(f) \o <<"NL">>))

ReadsBack == LET p == Parsed(Text) IN ~p.bad /\ p.rows = rows
AllOrNothing == LET p == Parsed(Text) IN
  /\ CsvOk(p) => Len(CsvPkgs(p)) = Len(rows)
  /\ (\E i \in DOMAIN rows : ~RowOk(rows[i])) => ~CsvOk(p)
  /\ BadRow(p) # 0 => ~RowOk(rows[BadRow(p)])
Emit == rows # <<>> => PrintT(<<"GEN", ToJson([text |-> Text])>>)
=============================================================================
