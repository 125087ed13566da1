---------------------------- MODULE ManifestTrace ---------------------------
(* records: [d, obs |-> [crash, err, pkgs]] *)
EXTENDS Manifests, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, done
tv == <<n, done>>
D == Trace[n].d
Init == n \in 1..Len(Trace) /\ done = FALSE
Problem(o) ==
  LET got == MapSeq(o.pkgs, LAMBDA p : Pk(p.name, p.version, p.commit))
      eco == EcosystemOf(D.fmt)
      want == Declared(D)
  IN IF o.crash # "" THEN <<"crashed", o.crash>>
     ELSE IF D.must = "refuse" \/ ManifestRefused(D) THEN (IF o.err THEN <<>> ELSE <<"no error, packages", o.pkgs>>)
     ELSE IF o.err THEN (IF D.must = "either" THEN <<>> ELSE <<"error instead of", want>>)
     ELSE IF ToSet(got) # want THEN <<"missing", want \ ToSet(got), "unexpected", ToSet(got) \ want>>
     ELSE IF D.fmt # "requirements" /\ ~NoDups(got) THEN <<"listed more than once", {p \in want : Occ(got, p) > 1}>>
     ELSE IF \E i \in DOMAIN o.pkgs : o.pkgs[i].eco # eco \/ o.pkgs[i].cmp # eco THEN <<"ecosystem", o.pkgs>>
     ELSE <<>>
Judge == ~done /\ done' = TRUE /\ UNCHANGED n /\
  LET why == Problem(Trace[n].obs)
  IN IF why = <<>> THEN PrintT(<<"ACCEPT", n>>) ELSE PrintT(<<"REJECT", n, 1, why, "END">>)
TraceSpec == Init /\ [][Judge]_tv
=============================================================================
