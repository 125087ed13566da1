------------------------------ MODULE MCConfig ------------------------------
(* Every config document made of up to MaxEntries entries.                     *)
EXTENDS ConfigFile, Json
CONSTANTS MaxEntries, Urls, Types, Product
VARIABLES doc
Ignores == {Null, Text("OSV-1"), Map(<<"id">>, <<Text("OSV-1")>>), List(<<>>), List(<<Text("OSV-1")>>), List(<<Text("OSV-2"), Text("OSV-1")>>),
            List(<<Text("OSV-1"), Text("OSV-1")>>), List(<<Null, Text("OSV-3")>>), List(<<List(<<Text("OSV-1")>>)>>), List(<<Text("OSV-9"), Map(<<"a">>, <<Null>>)>>)}
Db(u, t, n, d) ==
  LET ks == <<"url">> \o (IF t = "" THEN <<>> ELSE <<"type">>) \o (IF n = "" THEN <<>> ELSE <<"name">>) \o (IF d = "" THEN <<>> ELSE <<"working-directory">>)
      vs == <<Text(u)>> \o (IF t = "" THEN <<>> ELSE <<Text(t)>>) \o (IF n = "" THEN <<>> ELSE <<Text(n)>>) \o (IF d = "" THEN <<>> ELSE <<Text(d)>>)
  IN Map(ks, vs)
AllDbs == {Db(u, t, n, d) : u \in Urls, t \in Types, n \in {"", "My DB"}, d \in {"", "a"}}
OneUrl == CHOOSE u \in Urls : EndsWith(u, ".zip") /\ UrlOk(u)
Plain == Db(OneUrl, "", "", "")
Named == Db(OneUrl, "", "N", "")
Elsewhere == Db(OneUrl, "", "", "a")
Namesake == Db(OneUrl, "", "N", "a")
OddDbs == {Null, Text("x"), List(<<>>), Map(<<>>, <<>>), Map(<<"name">>, <<Text("n")>>), Map(<<"url", "type">>, <<Text(OneUrl), Null>>),
           Map(<<"url", "url">>, <<Text(OneUrl), Text(OneUrl)>>), Map(<<"url", "name">>, <<Text(OneUrl), List(<<>>)>>), Map(<<"url", "note">>, <<Text(OneUrl), Map(<<"x">>, <<Null>>)>>)}
Databases == IF Product THEN {List(<<d>>) : d \in AllDbs}
             ELSE {Null, Text("x"), Plain, List(<<>>)} \cup {List(<<d>>) : d \in OddDbs}
                  \cup {List(<<d, e>>) : d \in {Plain, Named, Elsewhere} \cup OddDbs, e \in {Plain, Named, Elsewhere, Namesake}}
Entries == {<<"ignore", x>> : x \in Ignores} \cup {<<"extra-databases", x>> : x \in Databases}
           \cup {<<"notes", x>> : x \in {Null, List(<<Text("OSV-1")>>)}} \cup {<<"Ignore", List(<<Text("OSV-1")>>)>>}
Init == doc \in {Null, Text("OSV-1"), List(<<Text("OSV-1")>>), Map(<<>>, <<>>)}
Next == /\ doc.kind = "map" /\ Len(doc.keys) < MaxEntries
        /\ \E e \in Entries : doc' = Map(Append(doc.keys, e[1]), Append(doc.items, e[2]))
Spec == Init /\ [][Next]_doc

Flip(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
Turned == [doc EXCEPT !.keys = Flip(doc.keys), !.items = Flip(doc.items)]
S == Said(doc)
OrderMeansNothing == doc.kind = "map" => Said(Turned) = S
AllOrNothing == ~S.ok => S.ignore = <<>> /\ S.dbs = <<>>
NothingMadeUp == S.ok /\ doc.kind = "map" => Len(S.ignore) <= Len(AtKey(doc, "ignore").items) /\ Len(S.dbs) <= Len(AtKey(doc, "extra-databases").items)
ReadsBack == S.ok => LET t == Said(Written(S, <<"OSV-1", "OSV-2">>)) IN t.ok /\ t.ignore = <<"OSV-1", "OSV-2">> /\ t.dbs = S.dbs
Emit == PrintT(<<"GEN", ToJson([doc |-> doc])>>)
=============================================================================
