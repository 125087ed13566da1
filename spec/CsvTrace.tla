------------------------------ MODULE CsvTrace ------------------------------
(* records: [text, obs |-> [crash, err, row, pkgs]]; pkgs in the order given   *)
EXTENDS CsvInput, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, pos, st, done
tv == <<n, pos, st, done>>
T == Normal(Trace[n].text)
Init == n \in 1..Len(Trace) /\ pos = 0 /\ st = Start /\ done = FALSE
(* the machine takes one character per step *)
Step == ~done /\ pos < Len(T) /\ st' = Eat(st, T[pos + 1]) /\ pos' = pos + 1 /\ UNCHANGED <<n, done>>

Ordered(q) == \A i \in 1..Len(q) - 1 : ~StrLess(q[i + 1].name, q[i].name) /\ (q[i].name = q[i + 1].name => ~StrLess(q[i + 1].version, q[i].version))
Problem(p, o) ==
  IF o.crash # "" THEN <<"crashed", o.crash>>
  ELSE IF ~CsvOk(p) THEN (IF ~o.err THEN <<"no error, packages", o.pkgs, "rows", p.rows>>
                          ELSE IF BadRow(p) # 0 /\ ~p.bad /\ o.row # BadRow(p) THEN <<"error names row", o.row, "expected", BadRow(p)>>
                          ELSE <<>>)
  ELSE IF o.err THEN <<"error for rows", p.rows>>
  ELSE IF ~SameBag(o.pkgs, CsvPkgs(p)) THEN <<"packages", o.pkgs, "expected", CsvPkgs(p)>>
  ELSE IF ~Ordered(o.pkgs) THEN <<"not sorted", o.pkgs>>
  ELSE <<>>
Judge == ~done /\ pos = Len(T) /\ done' = TRUE /\ UNCHANGED <<n, pos, st>> /\
  LET why == Problem(AtEnd(st), Trace[n].obs)
  IN IF why = <<>> THEN PrintT(<<"ACCEPT", n>>) ELSE PrintT(<<"REJECT", n, 1, why, "END">>)
TraceSpec == Init /\ [][Step \/ Judge]_tv
=============================================================================
