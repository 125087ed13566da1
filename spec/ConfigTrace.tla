---------------------------- MODULE ConfigTrace -----------------------------
(* Runs of the detector (see DetectorTrace) with configs given as documents.   *)
EXTENDS DetectorTrace, ConfigFile
Config(c) == LET s == IF c.readable THEN Said(c.doc) ELSE [ok |-> FALSE, ignore |-> <<>>, dbs |-> <<>>]
             IN [path |-> c.path, ok |-> s.ok, ignore |-> s.ignore, dbs |-> s.dbs]
ConfigInit == /\ n \in 1..Len(Trace) /\ k = 1 /\ ok = TRUE
              /\ w = Trace[n].runs[1] /\ configs = MapSeq(Trace[n].configs, Config) /\ cached = ToSet(Trace[n].cached)
              /\ RunInit
ConfigSpec == ConfigInit /\ [][TraceNext]_tvars
=============================================================================
