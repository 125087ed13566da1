----------------------------- MODULE LoadTrace ------------------------------
(* Judges recorded loads: number and ids of what was loaded, then the result   *)
(* of checking every package.                                                  *)
EXTENDS Loading, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, k, ok
vars == <<n, k, ok>>
TraceInit == n \in 1..Len(Trace) /\ k = 0 /\ ok = TRUE
Rec == Trace[n]
Reject(why) == ok' = FALSE /\ PrintT(<<"REJECT", n, k', why, "END">>)
Advs == LoadedAdvs(Rec.files, Rec.wd)
(* advisories about no package at all cannot be seen from outside *)
Visible == {Advs[i].id : i \in {j \in DOMAIN Advs : Len(Advs[j].affected) > 0}}

Load ==
  /\ ok /\ k = 0 /\ k' = 1 /\ UNCHANGED n
  /\ IF Rec.crash # "" THEN Reject(<<"crashed", Rec.crash>>)
     ELSE IF Rec.err # "" THEN Reject(<<"failed", Rec.err>>)
     ELSE IF Rec.count >= 0 /\ Rec.count # Len(Advs) THEN Reject(<<"loaded", Rec.count, "files, expected", Len(Advs), "wd", Rec.wd>>)
     ELSE IF Rec.listed /\ ToSet(Rec.loaded) # Visible
          THEN Reject(<<"missing", Visible \ ToSet(Rec.loaded), "unexpected", ToSet(Rec.loaded) \ Visible, "wd", Rec.wd>>)
     ELSE IF Len(Rec.results) # Len(Rec.pkgs) THEN Reject(<<"results", Len(Rec.results), "packages", Len(Rec.pkgs)>>)
     ELSE UNCHANGED ok
CheckPackage ==
  /\ ok /\ k > 0 /\ k <= Len(Rec.pkgs) /\ k' = k + 1 /\ UNCHANGED n
  /\ LET want == IdsOf(Reported(Advs, Rec.pkgs[k])) IN
     IF SameBag(Rec.results[k], want) THEN UNCHANGED ok
     ELSE Reject(<<"package", Rec.pkgs[k], "reported", Rec.results[k], "expected", want>>)
Accept == ok /\ k = Len(Rec.pkgs) + 1 /\ k' = k + 1 /\ UNCHANGED <<n, ok>> /\ PrintT(<<"ACCEPT", n>>)
TraceNext == Load \/ CheckPackage \/ Accept
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
