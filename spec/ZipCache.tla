------------------------------ MODULE ZipCache ------------------------------
(* Archive databases and the copies of them kept between runs.                 *)
(*                                                                             *)
(* Per URL the server has a content (a number that grows with every change),   *)
(* and a way of saying "unchanged": by tag (with or without a date), by date,  *)
(* never (perhaps with a tag that stays the same), or it sends nothing to      *)
(* recognise an answer by ("bare").  A run loads one URL, online or offline,   *)
(* and may meet a failing server.  Between runs the stored copies can be       *)
(* damaged, for example by a crash while one was being written.                *)
EXTENDS Util

CONSTANTS Urls, Modes, Faults, Depth, WithDamage

(* outcome of a load: the content it used, or failure *)
Failed == [ok |-> FALSE, content |-> 0]
Using(c) == [ok |-> TRUE, content |-> c]

(* `copy` is what is stored for a URL: a complete download or nothing usable *)
NoCopy == [content |-> 0, tag |-> 0, at |-> 0]

(* one online load. srv: [content, mode, modified], now: time of the run *)
SaysUnchanged(srv, copy) ==
  /\ copy.content # 0
  /\ \/ srv.mode \in {"tag", "tagonly"} /\ copy.tag = srv.content
     \/ srv.mode = "date" /\ copy.tag = 0 /\ copy.at # 0 /\ srv.modified <= copy.at
     \/ srv.mode = "both" /\ (IF copy.tag # 0 THEN copy.tag = srv.content ELSE copy.at # 0 /\ srv.modified <= copy.at)
Stored(srv, now) == [content |-> srv.content,
                     tag |-> IF srv.mode \in {"tag", "both", "tagonly"} THEN srv.content ELSE IF srv.mode = "same" THEN -1 ELSE 0,
                     at |-> IF srv.mode = "tagonly" THEN 0 ELSE now]
(* result of an online load: what is used, and what is stored afterwards *)
Online(srv, copy, fault, now) ==
  IF fault \in {"neterr", "status", "notzip", "cutzip"} THEN [res |-> Failed, copy |-> copy]
  ELSE IF SaysUnchanged(srv, copy) THEN [res |-> Using(copy.content), copy |-> copy]
  ELSE IF fault \in {"trunc", "tail"} THEN [res |-> Failed, copy |-> copy]
  ELSE [res |-> Using(srv.content),
        copy |-> IF srv.mode = "bare" THEN copy ELSE Stored(srv, now)]
(* C22: when the content a successful load uses was sent, 0 if the server did not say *)
DateInUse(srv, copy, now) == IF SaysUnchanged(srv, copy) THEN copy.at ELSE IF srv.mode \in {"bare", "tagonly"} THEN 0 ELSE now
Offline(copy) == IF copy.content = 0 THEN Failed ELSE Using(copy.content)

-----------------------------------------------------------------------------
VARIABLES server, copies, now, last, hist, lastgood
vars == <<server, copies, now, last, hist, lastgood>>

Init ==
  /\ server \in [Urls -> {[content |-> 1, mode |-> m, modified |-> 1] : m \in Modes}]
  /\ copies = [u \in Urls |-> NoCopy]
  /\ now = 2 /\ last = [op |-> "start", u |-> CHOOSE u \in Urls : TRUE, res |-> Failed] /\ hist = <<>>
  /\ lastgood = [u \in Urls |-> 0]   \* history variable: content of the last recognisable successful download

Tick == now' = now + 1
Record(op, u, fault) == hist' = Append(hist, [op |-> op, u |-> u, fault |-> fault])

Change(u) == /\ server' = [server EXCEPT ![u].content = @ + 1, ![u].modified = now]
             /\ last' = [op |-> "change", u |-> u, res |-> Failed]
             /\ Tick /\ Record("change", u, "") /\ UNCHANGED <<copies, lastgood>>
RunOnline(u, f) ==
  LET o == Online(server[u], copies[u], f, now) IN
  /\ copies' = [copies EXCEPT ![u] = o.copy]
  /\ last' = [op |-> "online", u |-> u, res |-> o.res]
  /\ lastgood' = IF o.res.ok /\ server[u].mode # "bare" THEN [lastgood EXCEPT ![u] = o.res.content] ELSE lastgood
  /\ Tick /\ Record("online", u, f) /\ UNCHANGED server
RunOffline(u) ==
  /\ last' = [op |-> "offline", u |-> u, res |-> Offline(copies[u])]
  /\ Tick /\ Record("offline", u, "") /\ UNCHANGED <<server, copies, lastgood>>
(* whatever is left of every stored copy is not usable *)
Damage ==
  /\ WithDamage /\ \E u \in Urls : copies[u] # NoCopy
  /\ copies' = [u \in Urls |-> NoCopy] /\ lastgood' = [u \in Urls |-> 0]
  /\ last' = [op |-> "damage", u |-> CHOOSE u \in Urls : TRUE, res |-> Failed]
  /\ Tick /\ Record("damage", CHOOSE u \in Urls : TRUE, "") /\ UNCHANGED server

Next == Len(hist) < Depth /\
  \/ \E u \in Urls : Change(u) \/ RunOffline(u)
  \/ \E u \in Urls, f \in Faults \cup {"none"} : RunOnline(u, f)
  \/ Damage
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* a successful online load uses what the server has now *)
NeverStale == last.op = "online" /\ last.res.ok => last.res.content = server[last.u].content
(* without a failing server an online load succeeds *)
OnlineWorks == last.op = "online" /\ hist[Len(hist)].op = "online" /\ hist[Len(hist)].fault = "none" => last.res.ok
(* an offline load uses the last recognisable successful download, or fails *)
OfflineIsLast == last.op = "offline" =>
  IF lastgood[last.u] = 0 THEN ~last.res.ok ELSE last.res = Using(lastgood[last.u])
(* damage never leads to an offline result *)
DamageNotTrusted == Len(hist) >= 2 /\ hist[Len(hist) - 1].op = "damage" /\ last.op = "offline" /\ hist[Len(hist)].op = "offline" => ~last.res.ok
=============================================================================
