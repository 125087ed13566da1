---------------------------- MODULE RepeatTrace -----------------------------
(* records: [runs]: the same run several times, each [exit, out, lists]: the   *)
(* exit code (or how it broke down), the standard output and the packages of   *)
(* every lockfile in the order in which they are listed.                       *)
EXTENDS Util, Json, IOUtils
R == INSTANCE Repeat WITH Entries <- <<>>, IdsFor <- LAMBDA p : <<>>, Updated <- {}, left <- {}, listed <- <<>>, asked <- {}, slots <- <<>>,
                          wanted <- {}, details <- {}, configs <- {}, lines <- <<>>, phase <- "done", out <- <<>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, pos, first, done
tv == <<n, pos, first, done>>
Runs == Trace[n].runs
Init == n \in 1..Len(Trace) /\ pos = 0 /\ first = <<>> /\ done = FALSE
Unordered(q) == {i \in 1..Len(q) - 1 : ~R!InOrder(SubSeq(q, i, i + 1))}
Problem(o) ==
  IF pos > 0 /\ o.exit # first.exit THEN <<"exit code", o.exit, "before", first.exit>>
  ELSE IF pos > 0 /\ o.out # first.out THEN <<"another output than before", o.hint>>
  ELSE IF \E i \in DOMAIN o.lists : Unordered(o.lists[i]) # {} THEN <<"not in order", UNION {{SubSeq(q, i, i + 1) : i \in Unordered(q)} : q \in ToSet(o.lists)}>>
  ELSE <<>>
Step == /\ ~done /\ pos < Len(Runs)
        /\ LET o == Runs[pos + 1]
               why == Problem(o)
           IN IF why # <<>> THEN done' = TRUE /\ PrintT(<<"REJECT", n, pos + 1, why, "END">>) /\ UNCHANGED <<pos, first>>
              ELSE /\ done' = (pos + 1 = Len(Runs)) /\ pos' = pos + 1 /\ first' = IF pos = 0 THEN o ELSE first
                   /\ IF pos + 1 = Len(Runs) THEN PrintT(<<"ACCEPT", n>>) ELSE TRUE
        /\ UNCHANGED n
TraceSpec == Init /\ [][Step]_tv
=============================================================================
