------------------------------- MODULE Repeat -------------------------------
(* Why the output is a function of the input (C16).  What the input does not   *)
(* determine is up to the environment: the order in which the entries of a     *)
(* lockfile are enumerated, the order in which concurrent answers and details  *)
(* arrive, and the order in which updated configs are gone through.            *)
EXTENDS Util

(* packages are put in order by name, version and, to leave nothing open, commit *)
Precedes(p, q) == \/ StrLess(p.name, q.name)
                  \/ p.name = q.name /\ StrLess(p.version, q.version)
                  \/ p.name = q.name /\ p.version = q.version /\ StrLess(p.commit, q.commit)
(* what is promised about the order of a list of packages *)
InOrder(q) == \A i \in 1..Len(q) - 1 : ~StrLess(q[i + 1].name, q[i].name) /\ (q[i].name = q[i + 1].name => ~StrLess(q[i + 1].version, q[i].version))

CONSTANTS Entries,   \* the entries of the lockfile: a sequence of packages
          IdsFor(_), \* what an API answers: commit or version of a package -> ids
          Updated    \* configs to be updated
VARIABLES left,      \* entries not enumerated yet
          listed,    \* packages in the order in which they are (going to be) printed
          asked,     \* positions not answered yet
          slots,     \* answers by position
          wanted,    \* ids whose details have not arrived yet
          details,   \* those that have
          configs,   \* configs not updated yet
          lines,     \* what is said about the others
          phase, out
vars == <<left, listed, asked, slots, wanted, details, configs, lines, phase, out>>

Init == /\ left = DOMAIN Entries /\ listed = <<>> /\ asked = {} /\ slots = <<>> /\ wanted = {} /\ details = {} /\ configs = Updated /\ lines = <<>>
        /\ phase = "read" /\ out = <<>>
Enumerate == /\ phase = "read" /\ \E i \in left : listed' = Append(listed, Entries[i]) /\ left' = left \ {i}
             /\ UNCHANGED <<asked, slots, wanted, details, configs, lines, phase, out>>
Arrange == /\ phase = "read" /\ left = {} /\ phase' = "ask"
           /\ listed' = SortBy(listed, Precedes) /\ asked' = DOMAIN listed /\ slots' = [i \in DOMAIN listed |-> <<>>]
           /\ UNCHANGED <<left, wanted, details, configs, lines, out>>
Answer == /\ phase = "ask" /\ \E i \in asked : slots' = [slots EXCEPT ![i] = IdsFor(listed[i])] /\ asked' = asked \ {i}
          /\ UNCHANGED <<left, listed, wanted, details, configs, lines, phase, out>>
Fetch == /\ phase = "ask" /\ asked = {} /\ phase' = "fetch" /\ wanted' = UNION {ToSet(slots[i]) : i \in DOMAIN slots}
         /\ UNCHANGED <<left, listed, asked, slots, details, configs, lines, out>>
Detail == /\ phase = "fetch" /\ \E id \in wanted : details' = details \cup {id} /\ wanted' = wanted \ {id}
          /\ UNCHANGED <<left, listed, asked, slots, configs, lines, phase, out>>
Update == /\ phase = "fetch" /\ wanted = {} /\ \E c \in configs : lines' = Append(lines, "Updated " \o c) /\ configs' = configs \ {c}
          /\ UNCHANGED <<left, listed, asked, slots, wanted, details, phase, out>>
Report == /\ phase = "fetch" /\ wanted = {} /\ configs = {} /\ phase' = "done"
         /\ out' = <<[i \in DOMAIN listed |-> <<listed[i], [k \in DOMAIN slots[i] |-> <<slots[i][k], slots[i][k] \in details>>]>>], SortBy(lines, StrLess)>>
         /\ UNCHANGED <<left, listed, asked, slots, wanted, details, configs, lines>>
Next == Enumerate \/ Arrange \/ Answer \/ Fetch \/ Detail \/ Update \/ Report
Spec == Init /\ [][Next]_vars

(* the one output this input can have *)
TheOutput == LET q == SortBy(Entries, Precedes)
             IN <<[i \in DOMAIN q |-> <<q[i], [k \in DOMAIN IdsFor(q[i]) |-> <<IdsFor(q[i])[k], TRUE>>]>>], SortBy(SetToSeq({"Updated " \o c : c \in Updated}), StrLess)>>
AlwaysTheSame == phase = "done" => out = TheOutput
AlwaysInOrder == phase # "read" => InOrder(listed)
(* nothing but the last key decides between packages that look the same otherwise *)
Total == \A i, j \in DOMAIN Entries : Entries[i] = Entries[j] \/ Precedes(Entries[i], Entries[j]) \/ Precedes(Entries[j], Entries[i])
=============================================================================
