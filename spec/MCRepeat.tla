------------------------------ MODULE MCRepeat ------------------------------
EXTENDS Repeat
P(n, v, c) == [name |-> n, version |-> v, commit |-> c]
MCEntries == <<P("b", "1.0", ""), P("a", "1.0", "c2"), P("a", "1.0", "c1"), P("a", "1.0", "c1"), P("a", "0.9", "")>>
MCIds(p) == CASE p.commit = "c1" -> <<"X-2", "X-1">> [] p.commit = "c2" -> <<"X-1">> [] p.version = "0.9" -> <<"X-3">> [] OTHER -> <<>>
MCUpdated == {"x/.osv-detector.yml", "a.yml"}
=============================================================================
