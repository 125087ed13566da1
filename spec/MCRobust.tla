------------------------------ MODULE MCRobust ------------------------------
(* all odd documents with up to MaxEdits odd places, one inside another never  *)
EXTENDS Robust, Json
CONSTANTS MaxEdits
VARIABLES kind, edits
ev == <<kind, edits>>
Inside(a, b) == a = "" \/ b = "" \/ StartsWith(a, b) \/ StartsWith(b, a)
EInit == kind \in DocKinds /\ edits = <<>> /\ Init
ENext == /\ Len(edits) < MaxEdits
         /\ \E s \in Slots(kind), v \in Values :
              /\ \A i \in DOMAIN edits : ~Inside(edits[i].slot, s) /\ StrLess(edits[i].slot, s)
              /\ edits' = Append(edits, [slot |-> s, value |-> v])
         /\ UNCHANGED <<kind, vars>>
ESpec == EInit /\ [][ENext]_<<ev, vars>>
(* the part about documents does not depend on how a run goes *)
OneWorld == inputs = <<[kind |-> "lock", class |-> "fine"]>> /\ ~listing
Disjoint == \A i, j \in DOMAIN edits : i # j => ~Inside(edits[i].slot, edits[j].slot)
Emit == edits = <<>> \/ PrintT(<<"GEN", ToJson([kind |-> kind, edits |-> edits])>>)
=============================================================================
