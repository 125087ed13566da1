------------------------------- MODULE ApiDb --------------------------------
(* Checking packages against an API database: the packages are split into      *)
(* batches that are asked about concurrently, the answers arrive in any order  *)
(* and any of them may fail; then the details of every advisory that was named *)
(* are fetched concurrently, and again any of them may fail.                   *)
EXTENDS Util

(* what is asked about a package: name, ecosystem and version when all three   *)
(* are known, otherwise its commit                                             *)
NoQuery == [name |-> "", eco |-> "", version |-> "", commit |-> ""]
QueryFor(p) ==
  IF p.name # "" /\ p.eco # "" /\ p.version # ""
  THEN [NoQuery EXCEPT !.name = p.name, !.eco = p.eco, !.version = p.version]
  ELSE [NoQuery EXCEPT !.commit = p.commit]

(* the batches of n packages: consecutive, at most `size` each *)
NumBatches(n, size) == (n + size - 1) \div size
BatchOf(i, size) == ((i - 1) \div size) + 1
Members(b, n, size) == {i \in 1..n : BatchOf(i, size) = b}

(* What has to come out, given what the API answers per package (a sequence of *)
(* ids), the details per id, and which ids have details that cannot be had.    *)
Detailed(id, details, lost) == [id |-> id, summary |-> IF id \in lost THEN "" ELSE details[id]]
ExpectedResult(answers, details, lost) ==
  MapSeq(answers, LAMBDA ids : MapSeq(ids, LAMBDA id : Detailed(id, details, lost)))

-----------------------------------------------------------------------------
(* The state machine, for a small world                                        *)
CONSTANTS World, BatchSizes, MaxFaults, MaxLost
(* World == answers per package *)
N == Len(World)
Ids == UNION {ToSet(World[i]) : i \in 1..N}
DetailsOf == [id \in Ids |-> "about " \o id]

VARIABLES size,      \* batch size
          bfail,     \* batches that are going to fail
          dfail,     \* ids whose details cannot be fetched
          bdone,     \* batches answered so far, in order of arrival
          slots,     \* answers placed so far, per package
          phase,     \* "query", "fetch", "done"
          failed,    \* some batch failed
          ddone,     \* ids whose details arrived (or failed), in order of arrival
          have,      \* id -> details received
          out
vars == <<size, bfail, dfail, bdone, slots, phase, failed, ddone, have, out>>

Nothing == <<"nothing">>

Init ==
  /\ size \in BatchSizes
  /\ bfail \in {s \in SUBSET (1..NumBatches(N, size)) : Cardinality(s) <= MaxFaults}
  /\ dfail \in {s \in SUBSET Ids : Cardinality(s) <= MaxLost /\ (bfail # {} => s = {})}
  /\ bdone = <<>> /\ slots = [i \in 1..N |-> Nothing] /\ phase = "query" /\ failed = FALSE
  /\ ddone = <<>> /\ have = <<>> /\ out = <<>>

BatchArrives(b) ==
  /\ phase = "query" /\ b \in (1..NumBatches(N, size)) \ ToSet(bdone)
  /\ bdone' = Append(bdone, b)
  /\ IF b \in bfail THEN failed' = TRUE /\ UNCHANGED slots
     ELSE slots' = [i \in 1..N |-> IF BatchOf(i, size) = b THEN World[i] ELSE slots[i]] /\ UNCHANGED failed
  /\ UNCHANGED <<size, bfail, dfail, phase, ddone, have, out>>

Named == UNION {ToSet(slots[i]) : i \in 1..N}

StartFetching ==
  /\ phase = "query" /\ Len(bdone) = NumBatches(N, size)
  /\ phase' = IF failed THEN "done" ELSE "fetch"
  /\ UNCHANGED <<size, bfail, dfail, bdone, slots, failed, ddone, have, out>>

DetailArrives(id) ==
  /\ phase = "fetch" /\ id \in Named \ ToSet(ddone)
  /\ ddone' = Append(ddone, id)
  /\ have' = IF id \in dfail THEN have ELSE Append(have, [id |-> id, summary |-> DetailsOf[id]])
  /\ UNCHANGED <<size, bfail, dfail, bdone, slots, phase, failed, out>>

(* look the details up by id; an advisory without details is kept as its bare id *)
Lookup(id) == IF \E k \in DOMAIN have : have[k].id = id
              THEN have[CHOOSE k \in DOMAIN have : have[k].id = id]
              ELSE [id |-> id, summary |-> ""]
Finish ==
  /\ phase = "fetch" /\ ToSet(ddone) = Named
  /\ phase' = "done"
  /\ out' = [i \in 1..N |-> MapSeq(slots[i], Lookup)]
  /\ UNCHANGED <<size, bfail, dfail, bdone, slots, failed, ddone, have>>

Next == \/ \E b \in 1..NumBatches(N, size) : BatchArrives(b)
        \/ StartFetching
        \/ \E id \in Ids : DetailArrives(id)
        \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
TypeOK == phase \in {"query", "fetch", "done"} /\ failed \in BOOLEAN
(* every package is in exactly one batch, and no batch is too big *)
Partition == /\ \A i \in 1..N : \E b \in 1..NumBatches(N, size) : i \in Members(b, N, size)
             /\ \A b \in 1..NumBatches(N, size) : Cardinality(Members(b, N, size)) \in 1..size
(* C03 *)
ResultsBelong == phase = "done" /\ ~failed => out = ExpectedResult(World, DetailsOf, dfail)
(* C04 *)
AllOrNothing == /\ phase = "done" /\ bfail # {} => failed /\ out = <<>>
                /\ failed => bfail # {}
Terminates == <>(phase = "done")
=============================================================================
