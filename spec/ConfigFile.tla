----------------------------- MODULE ConfigFile -----------------------------
(* What a config file says.  A document is a tree of nodes                     *)
(*   [kind ("null", "text", "list", "map"), text, keys, items]                 *)
(* (keys and items of a map belong together); how a tree is written down       *)
(* (quotes, flow or block style, order, comments, line ends) means nothing.    *)
EXTENDS Util

Null == [kind |-> "null", text |-> "", keys |-> <<>>, items |-> <<>>]
Text(s) == [Null EXCEPT !.kind = "text", !.text = s]
List(q) == [Null EXCEPT !.kind = "list", !.items = q]
Map(ks, q) == [Null EXCEPT !.kind = "map", !.keys = ks, !.items = q]

IsText(x) == x.kind \in {"text", "null"}
AtKey(m, key) == LET S == {i \in DOMAIN m.keys : m.keys[i] = key} IN IF S = {} THEN Null ELSE m.items[MinOf(S)]
Repeats(m) == ~NoDups(m.keys)

Given(l) == IF l.kind = "list" THEN FilterSeq(l.items, LAMBDA x : x.kind # "null") ELSE <<>>
DbKeys == {"url", "name", "type", "working-directory"}
DbOk(d) == d.kind = "map" /\ ~Repeats(d) /\ \A key \in DbKeys : IsText(AtKey(d, key))
IgnoresOk(x) == x.kind = "null" \/ (x.kind = "list" /\ \A i \in DOMAIN x.items : IsText(x.items[i]))
DbsOk(x) == x.kind = "null" \/ (x.kind = "list" /\ \A i \in DOMAIN Given(x) : DbOk(Given(x)[i]))

(* an address that can be asked: a scheme or a path, and a host without blanks *)
Letter(c) == c \in {Chr(Lower, i) : i \in 1..26}
HostOf(u) == IF Contains(u, "://") THEN Before(After(u, "://"), "/") ELSE ""
UrlOk(u) ==
  /\ u # ""
  /\ \/ Chr(u, 1) = "/"
     \/ Contains(u, ":") /\ LET s == Before(u, ":") IN s # "" /\ \A i \in 1..Len(s) : Letter(Chr(s, i))
  /\ ~Contains(HostOf(u), " ") /\ ~Contains(u, "%zz")

DbSaid(d) == [url |-> AtKey(d, "url").text, type |-> AtKey(d, "type").text, wd |-> AtKey(d, "working-directory").text,
              name |-> AtKey(d, "name").text, ok |-> UrlOk(AtKey(d, "url").text)]
ConfigOk(doc) ==
  \/ doc.kind = "null"
  \/ doc.kind = "map" /\ ~Repeats(doc) /\ IgnoresOk(AtKey(doc, "ignore")) /\ DbsOk(AtKey(doc, "extra-databases"))
Said(doc) ==
  IF ~ConfigOk(doc) \/ doc.kind = "null" THEN [ok |-> ConfigOk(doc), ignore |-> <<>>, dbs |-> <<>>]
  ELSE [ok |-> TRUE, ignore |-> MapSeq(Given(AtKey(doc, "ignore")), LAMBDA x : x.text),
        dbs |-> MapSeq(Given(AtKey(doc, "extra-databases")), DbSaid)]

(* the document after its ignores were replaced *)
DbWritten(d) == Map(<<"url", "name", "type", "working-directory">>, <<Text(d.url), Text(d.name), Text(d.type), Text(d.wd)>>)
Written(said, ids) == Map(<<"ignore", "extra-databases">>, <<List(MapSeq(ids, Text)), List(MapSeq(said.dbs, DbWritten))>>)
=============================================================================
