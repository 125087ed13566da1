----------------------------- MODULE MatchTrace -----------------------------
(* Replays recorded queries of the real file databases: step k of a record is  *)
(* "check package k", and must report exactly what Matching says.              *)
EXTENDS Matching, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, k, ok
vars == <<n, k, ok>>
TraceInit == n \in 1..Len(Trace) /\ k = 0 /\ ok = TRUE

Rec == Trace[n]
Reject(why) == ok' = FALSE /\ PrintT(<<"REJECT", n, k', why, "END">>)
Want(i) == IdsOf(Reported(Rec.advs, Rec.pkgs[i]))
Got(i) == Rec.results[i]

CheckPackage ==
  /\ ok /\ k < Len(Rec.pkgs)
  /\ k' = k + 1 /\ UNCHANGED n
  /\ IF Rec.crash # "" THEN Reject(<<"crashed", Rec.crash>>)
     ELSE IF Rec.err # "" THEN Reject(<<"failed", Rec.err>>)
     ELSE IF Len(Rec.results) # Len(Rec.pkgs) THEN Reject(<<"results", Len(Rec.results), "packages", Len(Rec.pkgs)>>)
     ELSE IF ~SameBag(Got(k'), Want(k')) THEN Reject(<<"package", Rec.pkgs[k'], "reported", Got(k'), "expected", Want(k')>>)
     ELSE UNCHANGED ok
Accept == ok /\ k = Len(Rec.pkgs) /\ k' = k + 1 /\ UNCHANGED <<n, ok>> /\ PrintT(<<"ACCEPT", n>>)
TraceNext == CheckPackage \/ Accept
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
