----------------------------- MODULE RangesGen ------------------------------
(* Emits every reachable event list of MCRanges as a scenario for the real code. *)
EXTENDS MCRanges, Json
Emit == PrintT(<<"GEN", ToJson(evs)>>)
=============================================================================
