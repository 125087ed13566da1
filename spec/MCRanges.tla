------------------------------ MODULE MCRanges ------------------------------
(* Design check: grows an event list one event at a time, in every order, over *)
(* a chain of versions, and shows at every point that the walk and the         *)
(* declarative reading decide the same for every version, whatever the order   *)
(* in which the events are listed.                                             *)
EXTENDS Matching
CONSTANTS MaxEvents, Chain

(* one spelling per class of every other class of the chain *)
Vs == [i \in 1..(Len(Chains[Chain]) \div 2) |-> CHOOSE v \in Chains[Chain][2 * i] : TRUE]
Events == {[k |-> "introduced", v |-> "0"]} \cup
          {[k |-> kk, v |-> Vs[i]] : kk \in {"introduced", "fixed", "last"}, i \in 2..4}

VARIABLE evs
Init == evs = <<>>
Next == Len(evs) < MaxEvents /\ \E e \in Events : evs' = Append(evs, e)
Spec == Init /\ [][Next]_evs

Probe == {Chains[Chain][i] : i \in DOMAIN Chains[Chain]}
ReadingsAgree == \A c \in Probe : LET v == CHOOSE x \in c : TRUE IN
   InRangeDecl(evs, v, Chain) = InRangeWalk(evs, v, Chain)
SpellingIrrelevant == \A c \in Probe : \A x, y \in c : InRangeDecl(evs, x, Chain) = InRangeDecl(evs, y, Chain)
(* reversing the list only matters when versions are tied *)
Rev(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
NoTies == \A i, j \in DOMAIN evs : i # j => EvRank(evs[i], Chain) # EvRank(evs[j], Chain)
OrderIrrelevant == NoTies => \A c \in Probe : LET v == CHOOSE x \in c : TRUE IN
   InRangeWalk(evs, v, Chain) = InRangeWalk(Rev(evs), v, Chain)
=============================================================================
