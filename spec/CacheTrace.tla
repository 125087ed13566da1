----------------------------- MODULE CacheTrace -----------------------------
(* Judges recorded histories of loads: walks the history with the operators of *)
(* ZipCache, keeping the server and the stored copies as state, and compares   *)
(* what every load used with what the specification says.                      *)
(*                                                                             *)
(* Record: modes (per url index), steps: [op, u, wd, fault, mode], and obs per *)
(* step: [crash, err, ids, cond].  Contents are recognised by advisory ids:    *)
(* content c of url u consists of the advisories `all` of `contents[u][c]`,    *)
(* each with the folder it is in.                                              *)
EXTENDS Util, Json, IOUtils
Z == INSTANCE ZipCache WITH Urls <- {}, Modes <- {}, Faults <- {}, Depth <- 0, WithDamage <- FALSE,
       server <- <<>>, copies <- <<>>, now <- 0, last <- <<>>, hist <- <<>>, lastgood <- <<>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, k, server, copies, damaged, ok
vars == <<n, k, server, copies, damaged, ok>>
Rec == Trace[n]
TraceInit ==
  /\ n \in 1..Len(Trace) /\ k = 0 /\ ok = TRUE /\ damaged = FALSE
  /\ server = [u \in DOMAIN Trace[n].modes |-> [content |-> 1, mode |-> Trace[n].modes[u], modified |-> 1]]
  /\ copies = [u \in DOMAIN Trace[n].modes |-> Z!NoCopy]
Reject(why) == ok' = FALSE /\ PrintT(<<"REJECT", n, k', why, "END">>)

(* the ids of a content that are below a working directory *)
Below(wd, path) == wd = "" \/ StartsWith(path, TrimSuffix(wd, "/") \o "/")
IdsIn(u, c, wd) == {Rec.contents[u][c][i].id : i \in {j \in DOMAIN Rec.contents[u][c] : Below(wd, Rec.contents[u][c][j].path)}}

Now == k + 2
Judge(s, o, res, at) ==
  IF o.crash # "" THEN Reject(<<"crashed", o.crash>>)
  ELSE IF ~res.ok /\ o.err = "" THEN Reject(<<s.op, "expected to fail", s, "but used", o.ids>>)
  ELSE IF res.ok /\ o.err # "" THEN Reject(<<s.op, "expected to work", s, "but failed", o.err>>)
  ELSE IF res.ok /\ ToSet(o.ids) # IdsIn(s.u, res.content, s.wd)
       THEN Reject(<<s.op, s, "used", o.ids, "expected", IdsIn(s.u, res.content, s.wd)>>)
  ELSE IF s.op = "offline" /\ o.nreq > 0 THEN Reject(<<"offline load made", o.nreq, "requests">>)
  ELSE IF damaged /\ s.op = "online" /\ copies[s.u].content = 0 /\ o.cond THEN Reject(<<"validators of a damaged copy were sent">>)
  ELSE IF Rec.told /\ res.ok /\ o.at # at THEN Reject(<<s.op, s, "is said to be from", o.at, "expected", at>>)
  ELSE IF Rec.told /\ res.ok /\ o.count # Cardinality(IdsIn(s.u, res.content, s.wd)) THEN Reject(<<s.op, s, "is said to have", o.count>>)
  ELSE UNCHANGED ok

Step ==
  /\ ok /\ k < Len(Rec.steps)
  /\ k' = k + 1 /\ UNCHANGED n
  /\ LET s == Rec.steps[k + 1]
         o == Rec.obs[k + 1]
     IN CASE s.op = "change" ->
               /\ server' = [server EXCEPT ![s.u].content = @ + 1, ![s.u].modified = Now]
               /\ UNCHANGED <<copies, damaged, ok>>
          [] s.op = "mode" -> server' = [server EXCEPT ![s.u].mode = s.mode] /\ UNCHANGED <<copies, damaged, ok>>
          [] s.op = "damage" -> copies' = [u \in DOMAIN copies |-> Z!NoCopy] /\ damaged' = TRUE /\ UNCHANGED <<server, ok>>
          [] s.op = "online" ->
               LET r == Z!Online(server[s.u], copies[s.u], s.fault, Now) IN
               /\ copies' = [copies EXCEPT ![s.u] = r.copy]
               /\ Judge(s, o, r.res, Z!DateInUse(server[s.u], copies[s.u], Now)) /\ UNCHANGED <<server, damaged>>
          [] s.op = "offline" -> Judge(s, o, Z!Offline(copies[s.u]), copies[s.u].at) /\ UNCHANGED <<server, copies, damaged>>
Accept == ok /\ k = Len(Rec.steps) /\ k' = k + 1 /\ UNCHANGED <<n, server, copies, damaged, ok>> /\ PrintT(<<"ACCEPT", n>>)
TraceNext == Step \/ Accept
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
