------------------------------ MODULE LockTrace -----------------------------
(* Judges what was extracted from lockfiles.  records: [d, obs]: a document    *)
(* (see Lockfiles) and [crash, err, pkgs], what reading it gave.               *)
(* d.must: "read" (it has to be read), "either" (it can be refused, but not    *)
(* read in part), "refuse"                                                     *)
EXTENDS Lockfiles, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, pos, st, done
tv == <<n, pos, st, done>>
D == Trace[n].d
Init == n \in 1..Len(Trace) /\ pos = 0 /\ st = Nothing /\ done = FALSE
Step == ~done /\ pos < Len(D.items) /\ st' = Take1(D, st, D.items[pos + 1]) /\ pos' = pos + 1 /\ UNCHANGED <<n, done>>

Plain(p) == Pk(p.name, p.version, p.commit)
Problem(want, o) ==
  LET got == MapSeq(o.pkgs, Plain)
      eco == EcosystemOf(D.fmt)
  IN IF o.crash # "" THEN <<"crashed", o.crash>>
     ELSE IF D.must = "refuse" \/ Refused(D) THEN (IF o.err THEN <<>> ELSE <<"no error, packages", o.pkgs>>)
     ELSE IF o.err THEN (IF D.must = "either" THEN <<>> ELSE <<"error instead of", want>>)
     ELSE IF ToSet(want) \ ToSet(got) # {} THEN <<"missing", ToSet(want) \ ToSet(got), "unexpected", ToSet(got) \ ToSet(want)>>
     ELSE IF ToSet(got) \ ToSet(want) # {} THEN <<"unexpected", ToSet(got) \ ToSet(want)>>
     ELSE IF \E p \in ToSet(got) : Occ(got, p) > Occ(want, p) THEN <<"more often than locked", {p \in ToSet(got) : Occ(got, p) > Occ(want, p)}>>
     ELSE IF \E i \in DOMAIN o.pkgs : o.pkgs[i].eco # eco \/ o.pkgs[i].cmp # eco THEN <<"ecosystem", o.pkgs>>
     ELSE <<>>
Judge == ~done /\ pos = Len(D.items) /\ done' = TRUE /\ UNCHANGED <<n, pos, st>> /\
  LET why == Problem(AtEnd(D, st), Trace[n].obs)
  IN IF why = <<>> THEN PrintT(<<"ACCEPT", n>>) ELSE PrintT(<<"REJECT", n, 1, why, "END">>)
TraceSpec == Init /\ [][Step \/ Judge]_tv
=============================================================================
