---------------------------- MODULE RobustTrace -----------------------------
(* records: [inputs, listing, must, obs]: the inputs by kind and class, and    *)
(* [crash, exit, json, said]: how the run ended, whether its output is one     *)
(* document and whether something was written to standard error                *)
EXTENDS Util, Json, IOUtils
R == INSTANCE Robust WITH MaxInputs <- 1, inputs <- <<>>, pos <- 0, listing <- FALSE, failed <- FALSE, found <- FALSE, exit <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, pos, done
tv == <<n, pos, done>>
Init == n \in 1..Len(Trace) /\ pos = 0 /\ done = FALSE
Runs == Trace[n].runs
Problem(x) ==
  LET o == x.obs
  IN IF o.crash # "" THEN <<"crashed", o.crash>>
     ELSE IF o.exit \notin R!Codes THEN <<"exit code", o.exit>>
     ELSE IF o.exit \notin R!Ends(x.inputs, x.listing) THEN <<"exit code", o.exit, "for", x.inputs>>
     ELSE IF o.exit = 127 /\ ~o.said THEN <<"failed without saying why">>
     ELSE IF ~o.json THEN <<"the output is not one document">>
     ELSE <<>>
Step == /\ ~done /\ pos < Len(Runs) /\ pos' = pos + 1 /\ UNCHANGED n
        /\ LET why == Problem(Runs[pos + 1])
           IN IF why # <<>> THEN done' = TRUE /\ PrintT(<<"REJECT", n, pos + 1, why, "END">>)
              ELSE done' = (pos + 1 = Len(Runs)) /\ IF pos + 1 = Len(Runs) THEN PrintT(<<"ACCEPT", n>>) ELSE TRUE
TraceSpec == Init /\ [][Step]_tv
=============================================================================
