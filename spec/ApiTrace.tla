------------------------------ MODULE ApiTrace ------------------------------
(* Judges recorded checks against API databases.  A record has the packages,   *)
(* the batch size, what the API is scripted to answer per package (`answers`), *)
(* the details per advisory (`details`: sequence of [id, summary]), the ids    *)
(* whose details are lost, whether a batch fails, the query requests received, *)
(* in order of arrival (`reqs`: sequences of queries), and what came out.      *)
EXTENDS Util, Json, IOUtils
A == INSTANCE ApiDb WITH World <- <<>>, BatchSizes <- {}, MaxFaults <- 0, MaxLost <- 0,
       size <- 0, bfail <- {}, dfail <- {}, bdone <- <<>>, slots <- <<>>, phase <- "", failed <- FALSE,
       ddone <- <<>>, have <- <<>>, out <- <<>>
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES n, k, left, ok
vars == <<n, k, left, ok>>
Rec == Trace[n]
Wanted(r) == MapSeq(r.pkgs, A!QueryFor)
(* left: queries not seen yet *)
TraceInit == n \in 1..Len(Trace) /\ k = 0 /\ ok = TRUE /\ left = Wanted(Trace[n])
Reject(why) == ok' = FALSE /\ PrintT(<<"REJECT", n, k', why, "END">>)

RemoveOne(q, x) == LET i == CHOOSE j \in DOMAIN q : q[j] = x IN SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
RECURSIVE Subtract(_, _)
Subtract(q, xs) == IF xs = <<>> THEN q ELSE Subtract(RemoveOne(q, xs[1]), Tail(xs))
RECURSIVE Contained(_, _)
Contained(xs, q) == IF xs = <<>> THEN TRUE
                    ELSE xs[1] \in ToSet(q) /\ Contained(Tail(xs), RemoveOne(q, xs[1]))

(* a query request: not more than a batch, and only what has not been asked yet *)
Query ==
  /\ ok /\ k < Len(Rec.reqs)
  /\ k' = k + 1 /\ UNCHANGED n
  /\ LET q == Rec.reqs[k + 1] IN
     IF Len(q) > Rec.batch THEN Reject(<<"a request with", Len(q), "queries, batch size", Rec.batch>>) /\ UNCHANGED left
     ELSE IF ~Contained(q, left) THEN Reject(<<"asked for something unexpected, or twice", q>>) /\ UNCHANGED left
     ELSE left' = Subtract(left, q) /\ UNCHANGED ok

DetailsFn(r) == [id \in {r.details[i].id : i \in DOMAIN r.details} |->
                   r.details[CHOOSE i \in DOMAIN r.details : r.details[i].id = id].summary]
Want == A!ExpectedResult(Rec.answers, DetailsFn(Rec), ToSet(Rec.lost))

Outcome ==
  /\ ok /\ k = Len(Rec.reqs)
  /\ k' = k + 1 /\ UNCHANGED <<n, left>>
  /\ IF Rec.crash # "" THEN Reject(<<"crashed", Rec.crash>>)
     ELSE IF Rec.loadErr # "" THEN Reject(<<"could not be used", Rec.loadErr>>)
     ELSE IF Rec.bfail THEN
        (IF Rec.err = "" THEN Reject(<<"a batch failed but the check did not fail">>)
         ELSE IF \E i \in DOMAIN Rec.results : Rec.results[i] # <<>> THEN Reject(<<"results despite a failed batch", Rec.results>>)
         ELSE UNCHANGED ok)
     ELSE IF Rec.err # "" THEN Reject(<<"failed although every batch was answered", Rec.err>>)
     ELSE IF left # <<>> THEN Reject(<<"never asked about", left[1], "and", Len(left) - 1, "others">>)
     ELSE IF Len(Rec.results) # Len(Rec.pkgs) THEN Reject(<<"results", Len(Rec.results), "packages", Len(Rec.pkgs)>>)
     ELSE IF Rec.results # Want
          THEN LET i == CHOOSE i \in DOMAIN Want : Rec.results[i] # Want[i]
               IN Reject(<<"package", i, Rec.pkgs[i], "got", Rec.results[i], "expected", Want[i]>>)
     ELSE UNCHANGED ok
Accept == ok /\ k = Len(Rec.reqs) + 1 /\ k' = k + 1 /\ UNCHANGED <<n, left, ok>> /\ PrintT(<<"ACCEPT", n>>)
TraceNext == Query \/ Outcome \/ Accept
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
