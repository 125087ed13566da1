---------------------------- MODULE DetectorGen -----------------------------
(* Emits every world of a family, for the harness to build and run.            *)
EXTENDS MCDetector, Json
Emit == (run = 1 /\ phase = "discover") => PrintT(<<"GEN", ToJson([w |-> w, configs |-> configs, cached |-> SetToSeq(cached)])>>)
=============================================================================
