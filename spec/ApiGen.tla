------------------------------- MODULE ApiGen -------------------------------
(* Emits every complete behaviour of ApiDb (who answered when, and what failed) *)
(* as a schedule to be forced on the real client.                              *)
EXTENDS ApiDb, Json
Emit == phase = "done" =>
  PrintT(<<"GEN", ToJson([size |-> size, order |-> bdone, bfail |-> bfail, dorder |-> ddone, dfail |-> dfail])>>)
=============================================================================
