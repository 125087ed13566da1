------------------------------ MODULE CacheGen ------------------------------
(* Emits every history of ZipCache of full length that ends with a run.        *)
EXTENDS ZipCache, Json
Modes0 == [u \in Urls |-> server[u].mode]
Useful(h) == Cardinality({i \in DOMAIN h : h[i].op \in {"online", "offline"}}) >= 2
Emit == Len(hist) = Depth /\ hist[Depth].op \in {"online", "offline"} /\ Useful(hist) =>
  PrintT(<<"GEN", ToJson([modes |-> Modes0, hist |-> hist])>>)
=============================================================================
