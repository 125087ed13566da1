------------------------------ MODULE Detector ------------------------------
(* A run of the detector as a state machine:                                   *)
(*                                                                             *)
(*   start -> discover -> config -> read* -> load* -> check* -> update -> done *)
(*                                                                             *)
(* w, the world of the run (constant while it lasts):                          *)
(*   args, cwd, prefer        command line, working directory, environment     *)
(*   flags                    [offline, parseAs, config, noConfig, update,     *)
(*                             noIgnores, noDatabases, list, useDbs, useApi    *)
(*                             ("", "true", "false"), batch, ignores,          *)
(*                             info (only say which databases were used)]      *)
(*   fs                       see Discovery                                    *)
(*   rows                     what the arguments mean as CSV rows [ok, pkgs]   *)
(*   dbs                      every database there is: [id, type, url, up,     *)
(*                             advs, answers (seq of [q, ids]), bad (queries)] *)
(* configs: sequence of [path, ok, ignore, dbs (seq of [url, type, wd, name,   *)
(*          ok])]                                                              *)
(* cached: URLs of archives with a stored copy                                 *)
EXTENDS Matching, Discovery

VARIABLES w, configs, cached,       \* persist between runs
          phase, todo, files, loaded, reports, failed, loadFailed, asked, found, code
runvars == <<phase, todo, files, loaded, reports, failed, loadFailed, asked, found, code>>
vars == <<w, configs, cached, phase, todo, files, loaded, reports, failed, loadFailed, asked, found, code>>

-----------------------------------------------------------------------------
(* Databases *)
ApiId == "api#https://api.osv.dev/v1"
EcoUrl(e) == "https://osv-vulnerabilities.storage.googleapis.com/" \o e \o "/all.zip"
EcoId(e) == "zip#" \o EcoUrl(e)

InferType(d) == IF d.type # "" THEN d.type
                ELSE IF StartsWith(d.url, "file:/") THEN "dir"
                ELSE IF EndsWith(d.url, ".zip") THEN "zip"
                ELSE "api"
ValidDb(d) == d.ok /\ InferType(d) \in {"dir", "zip", "api"}
IdOf(d) == InferType(d) \o "#" \o d.url \o (IF d.wd # "" THEN "#" \o d.wd ELSE "")

KnownDb(id) == \E i \in DOMAIN w.dbs : w.dbs[i].id = id
DbOf(id) == w.dbs[CHOOSE i \in DOMAIN w.dbs : w.dbs[i].id = id]
TypeOfId(id) == Before(id, "#")
UrlOfId(id) == Before(After(id, "#"), "#")

CanLoad(id) ==
  CASE TypeOfId(id) = "api" -> ~w.flags.offline /\ w.flags.batch >= 1
    [] TypeOfId(id) = "zip" -> IF w.flags.offline THEN UrlOfId(id) \in cached ELSE KnownDb(id) /\ DbOf(id).up
    [] OTHER -> KnownDb(id) /\ DbOf(id).up

(* what is asked of an API about a package *)
NoQuery == [name |-> "", eco |-> "", version |-> "", commit |-> ""]
QueryFor(p) ==
  IF p.name # "" /\ p.eco # "" /\ p.version # ""
  THEN [NoQuery EXCEPT !.name = p.name, !.eco = p.eco, !.version = p.version]
  ELSE [NoQuery EXCEPT !.commit = p.commit]
ApiFails(id, pkgs) == Len(pkgs) > 0 /\
  (~KnownDb(id) \/ ~DbOf(id).up \/ \E i \in DOMAIN pkgs : QueryFor(pkgs[i]) \in ToSet(DbOf(id).bad))
CheckFails(id, pkgs) == TypeOfId(id) = "api" /\ ApiFails(id, pkgs)

Bare(id) == [id |-> id, withdrawn |-> FALSE, aliases |-> <<>>, affected |-> <<>>]
DetailsIn(db, id) == LET S == {i \in DOMAIN db.advs : db.advs[i].id = id}
                     IN IF S = {} THEN Bare(id) ELSE db.advs[CHOOSE i \in S : TRUE]
ApiAnswer(db, pkg) ==
  LET S == {i \in DOMAIN db.answers : db.answers[i].q = QueryFor(pkg)}
  IN IF S = {} THEN <<>> ELSE MapSeq(db.answers[CHOOSE i \in S : TRUE].ids, LAMBDA id : DetailsIn(db, id))
AnswerOf(id, pkg) == IF ~KnownDb(id) THEN <<>>
                     ELSE IF TypeOfId(id) = "api" THEN ApiAnswer(DbOf(id), pkg)
                     ELSE Reported(DbOf(id).advs, pkg)

(* results of several databases, one after another: an advisory is left out    *)
(* when it is linked to one listed before                                      *)
MergeStep(acc, a) == IF \E k \in DOMAIN acc : Linked(acc[k], a) THEN acc ELSE Append(acc, a)
Merge(ids, pkg) == FoldL(MergeStep, <<>>, FlattenSeq(MapSeq(ids, LAMBDA id : AnswerOf(id, pkg))))

-----------------------------------------------------------------------------
(* Configs *)
ConfigAt(path) == {i \in DOMAIN configs : configs[i].path = Abs(path, w.cwd)}
HasConfig(path) == ConfigAt(path) # {}
TheConfig(path) == configs[CHOOSE i \in ConfigAt(path) : TRUE]
NoConfig == [path |-> "", ok |-> TRUE, ignore |-> <<>>, dbs |-> <<>>]
UsesConfigs == ~w.flags.list /\ ~w.flags.noConfig
GlobalConfig == UsesConfigs /\ w.flags.config # ""
(* the config in a folder: .yml before .yaml *)
LocalConfig(dir) ==
  IF HasConfig(dir \o "/.osv-detector.yml") THEN TheConfig(dir \o "/.osv-detector.yml")
  ELSE IF HasConfig(dir \o "/.osv-detector.yaml") THEN TheConfig(dir \o "/.osv-detector.yaml")
  ELSE NoConfig
ConfigFor(t) == IF ~UsesConfigs THEN NoConfig
                ELSE IF GlobalConfig THEN TheConfig(w.flags.config)
                ELSE LocalConfig(DirOf(t.path))
HasInvalidDb(c) == \E i \in DOMAIN c.dbs : ~ValidDb(c.dbs[i])

UseDbs == IF w.flags.useDbs # "" THEN w.flags.useDbs = "true" ELSE ~w.prefer
UseApi == IF w.flags.useApi # "" THEN w.flags.useApi = "true" ELSE w.prefer

EcosOf(pkgs) == SortNames({pkgs[i].eco : i \in DOMAIN pkgs} \ {""})
(* C12: the databases selected for a lockfile, in order *)
Selected(c, pkgs) == UniqueSeq(
  (IF w.flags.noDatabases THEN <<>> ELSE MapSeq(FilterSeq(c.dbs, ValidDb), IdOf))
  \o (IF UseApi THEN <<ApiId>> ELSE <<>>)
  \o (IF UseDbs THEN MapSeq(EcosOf(pkgs), EcoId) ELSE <<>>))

(* C09: the ids ignored for a lockfile *)
IgnoredFor(c) == ToSet(w.flags.ignores) \cup (IF w.flags.noIgnores THEN {} ELSE ToSet(c.ignore))

-----------------------------------------------------------------------------
(* The run *)
RunInit ==
  /\ phase = "discover" /\ todo = <<>> /\ files = <<>> /\ loaded = <<>> /\ reports = <<>>
  /\ failed = FALSE /\ loadFailed = FALSE /\ asked = <<>> /\ found = <<>> /\ code = 0

Finish(c) == phase' = "done" /\ code' = c

Discover ==
  /\ phase = "discover"
  /\ LET unknown == w.flags.parseAs \notin ({"", CsvFile, CsvRow} \cup Parsers)
         ts == DiscoverAll(w.args, w.flags.parseAs, w.fs, w.cwd)
         bad == SomeUnreadable(w.args, w.flags.parseAs, w.fs, w.cwd)
     IN IF w.flags.info # "" THEN Finish(0) /\ UNCHANGED <<failed, todo>>
        ELSE IF unknown THEN Finish(127) /\ failed' = TRUE /\ UNCHANGED todo
        ELSE IF ts = <<>> THEN Finish(IF w.args # <<>> /\ ~bad THEN 128 ELSE 127) /\ failed' = TRUE /\ UNCHANGED todo
        ELSE phase' = "config" /\ todo' = ts /\ failed' = bad /\ UNCHANGED code
  /\ UNCHANGED <<w, configs, cached, files, loaded, reports, loadFailed, asked, found>>

ReadGlobalConfig ==
  /\ phase = "config"
  /\ IF GlobalConfig /\ (~HasConfig(w.flags.config) \/ ~TheConfig(w.flags.config).ok)
     THEN Finish(127) /\ failed' = TRUE
     ELSE phase' = "read" /\ failed' = (failed \/ (GlobalConfig /\ HasInvalidDb(TheConfig(w.flags.config)))) /\ UNCHANGED code
  /\ UNCHANGED <<w, configs, cached, todo, files, loaded, reports, loadFailed, asked, found>>

(* one lockfile and its config; a failure of either is kept for later *)
ReadOne ==
  /\ phase = "read" /\ todo # <<>>
  /\ LET t == todo[1]
         c == ConfigFor(t)
         rd == ReadLock(t, w.fs, w.cwd, w.rows)
     IN /\ files' = Append(files, IF ~c.ok THEN [t |-> t, ok |-> FALSE, pkgs |-> <<>>, config |-> NoConfig]
                                  ELSE [t |-> t, ok |-> rd.ok, pkgs |-> rd.pkgs, config |-> c])
        /\ failed' = (failed \/ ~c.ok \/ ~rd.ok \/ (~GlobalConfig /\ HasInvalidDb(c)))
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<w, configs, cached, phase, loaded, reports, loadFailed, asked, found, code>>

SelectedFor(f) == Selected(f.config, f.pkgs)
Wanted == UniqueSeq(FlattenSeq(MapSeq(files, LAMBDA f : IF f.ok THEN SelectedFor(f) ELSE <<>>)))

StartLoading ==
  /\ phase = "read" /\ todo = <<>>
  /\ phase' = "load" /\ todo' = IF w.flags.list THEN <<>> ELSE Wanted
  /\ UNCHANGED <<w, configs, cached, files, loaded, reports, failed, loadFailed, asked, found, code>>

(* asked: [kind, url] of everything requested from the network *)
LoadOne ==
  /\ phase = "load" /\ todo # <<>>
  /\ LET id == todo[1]
         remote == TypeOfId(id) = "zip" /\ ~w.flags.offline
     IN /\ loaded' = IF CanLoad(id) THEN Append(loaded, id) ELSE loaded
        /\ loadFailed' = (loadFailed \/ ~CanLoad(id))
        /\ failed' = (failed \/ ~CanLoad(id))
        /\ cached' = IF remote /\ CanLoad(id) THEN cached \cup {UrlOfId(id)} ELSE cached
        /\ asked' = IF remote THEN Append(asked, [kind |-> "get", url |-> UrlOfId(id), qs |-> {}, must |-> {}]) ELSE asked
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<w, configs, phase, files, reports, found, code>>

StartChecking ==
  /\ phase = "load" /\ todo = <<>>
  /\ phase' = "check" /\ todo' = files
  /\ UNCHANGED <<w, configs, cached, files, loaded, reports, failed, loadFailed, asked, found, code>>

(* the databases a lockfile is checked against: selected for it and loaded *)
UsedFor(f) == FilterSeq(loaded, LAMBDA id : id \in ToSet(SelectedFor(f)))

Report(f) ==
  LET use == FilterSeq(UsedFor(f), LAMBDA id : ~CheckFails(id, f.pkgs))
      ign == IgnoredFor(f.config)
      One(p) == LET m == IdsOf(Merge(use, p))
                IN [pkg |-> p, vulns |-> FilterSeq(m, LAMBDA id : id \notin ign), ignored |-> FilterSeq(m, LAMBDA id : id \in ign)]
  IN [path |-> f.t.path, as |-> ParsedAs(f.t), packages |-> MapSeq(f.pkgs, One)]
Listing(f) == [path |-> f.t.path, as |-> ParsedAs(f.t),
               packages |-> MapSeq(f.pkgs, LAMBDA p : [pkg |-> p, vulns |-> <<>>, ignored |-> <<>>])]
IdsFound(rep) == UNION {ToSet(rep.packages[i].vulns) \cup ToSet(rep.packages[i].ignored) : i \in DOMAIN rep.packages}
HasVulns(rep) == \E i \in DOMAIN rep.packages : rep.packages[i].vulns # <<>>

CheckOne ==
  /\ phase = "check" /\ todo # <<>>
  /\ LET f == todo[1] IN
     IF ~f.ok THEN failed' = TRUE /\ loadFailed' = TRUE /\ UNCHANGED <<reports, asked, found>>
     ELSE IF w.flags.list THEN reports' = Append(reports, Listing(f)) /\ UNCHANGED <<failed, loadFailed, asked, found>>
     ELSE LET rep == Report(f)
              apis == FilterSeq(UsedFor(f), LAMBDA id : TypeOfId(id) = "api")
          IN /\ reports' = Append(reports, rep)
             /\ failed' = (failed \/ \E i \in DOMAIN apis : ApiFails(apis[i], f.pkgs))
             /\ asked' = asked \o (IF f.pkgs = <<>> THEN <<>> ELSE
                  MapSeq(apis, LAMBDA id : LET qs == {QueryFor(f.pkgs[i]) : i \in DOMAIN f.pkgs} IN
                    (* once a request has failed the others are of no use *)
                    [kind |-> "query", url |-> UrlOfId(id), qs |-> qs, must |-> IF ApiFails(id, f.pkgs) THEN {} ELSE qs]))
             /\ found' = IF f.config.path = "" THEN found ELSE Append(found, [config |-> f.config.path, ids |-> IdsFound(rep)])
             /\ UNCHANGED loadFailed
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<w, configs, cached, phase, files, loaded, code>>

(* C11 *)
FoundFor(path) == UNION {found[i].ids : i \in {j \in DOMAIN found : found[j].config = path}}
IsUsed(path) == \E i \in DOMAIN found : found[i].config = path
Update ==
  /\ phase = "check" /\ todo = <<>>
  /\ phase' = "exit"
  /\ configs' = IF w.flags.update /\ ~failed
                THEN [i \in DOMAIN configs |-> IF IsUsed(configs[i].path) THEN [configs[i] EXCEPT !.ignore = SortNames(FoundFor(configs[i].path))]
                                               ELSE configs[i]]
                ELSE configs
  /\ UNCHANGED <<w, cached, todo, files, loaded, reports, failed, loadFailed, asked, found, code>>

(* C08 *)
Exit ==
  /\ phase = "exit"
  /\ Finish(IF loadFailed THEN 127
            ELSE IF \E i \in DOMAIN reports : HasVulns(reports[i]) THEN 1
            ELSE IF failed THEN 127
            ELSE 0)
  /\ UNCHANGED <<w, configs, cached, todo, files, loaded, reports, failed, loadFailed, asked, found>>

(* What a text report says (C14) *)
NameIn(c, id) == LET S == {i \in DOMAIN c.dbs : ValidDb(c.dbs[i]) /\ IdOf(c.dbs[i]) = id}
                 IN IF S = {} \/ w.flags.noDatabases THEN "" ELSE LET n == c.dbs[MinOf(S)].name IN IF n = "" THEN id ELSE n
DefaultName(id) == IF id = ApiId THEN "osv.dev v1 API"
                   ELSE LET S == {e \in UNION {ToSet(EcosOf(files[i].pkgs)) : i \in DOMAIN files} : EcoId(e) = id} IN IF S = {} THEN id ELSE CHOOSE e \in S : TRUE
(* a database goes by the name it has where it is first mentioned *)
DbName(id) ==
  LET i == MinOf({k \in DOMAIN files : files[k].ok /\ id \in ToSet(SelectedFor(files[k]))})
      n == NameIn(files[i].config, id)
  IN IF n # "" THEN n ELSE DefaultName(id)
(* C22: how a loaded database is described *)
DateOf(id) == IF KnownDb(id) /\ "date" \in DOMAIN DbOf(id) THEN DbOf(id).date ELSE ""
Described(id) ==
  [name |-> DbName(id), ok |-> TRUE, kind |-> TypeOfId(id),
   n |-> IF TypeOfId(id) = "api" THEN w.flags.batch ELSE Len(DbOf(id).advs),
   at |-> IF TypeOfId(id) = "zip" THEN DateOf(id) ELSE ""]
LoadLine(id) == IF id \in ToSet(loaded) THEN Described(id) ELSE [name |-> DbName(id), ok |-> FALSE, kind |-> "", n |-> 0, at |-> ""]
LoadLines == IF w.flags.list \/ files = <<>> THEN <<>> ELSE MapSeq(Wanted, LoadLine)
SumOf(f, n) == LET g[i \in 0..n] == IF i = 0 THEN 0 ELSE g[i-1] + f[i] IN g[n]
Label(p) == p.name \o "@" \o p.version
ListLine(p) == "  " \o (IF p.eco = "" THEN "<unknown>" ELSE p.eco) \o ": " \o p.name \o (IF p.version = "" THEN "" ELSE "@" \o p.version)
               \o (IF p.commit = "" THEN "" ELSE " (" \o p.commit \o ")")
OkFiles == FilterSeq(files, LAMBDA f : f.ok)
Section(i) ==
  LET f == OkFiles[i]
      ps == reports[i].packages
      total == SumOf([k \in DOMAIN ps |-> Len(ps[k].vulns)], Len(ps))
      ign == SumOf([k \in DOMAIN ps |-> Len(ps[k].ignored)], Len(ps))
      hit == FilterSeq(ps, LAMBDA p : p.vulns # <<>>)
      nothing == [path |-> f.t.path, count |-> Len(ps), config |-> "", ignores |-> -1, dbs |-> <<>>, affected |-> <<>>, total |-> -1, where |-> "", word |-> "", ignored |-> 0, listed |-> <<>>]
  IN IF w.flags.list THEN [nothing EXCEPT !.listed = MapSeq(ps, LAMBDA p : ListLine(p.pkg))]
     ELSE [nothing EXCEPT !.config = IF f.config.path = "" THEN "" ELSE f.config.path,
             !.ignores = IF f.config.path = "" \/ w.flags.noIgnores THEN -1 ELSE Len(f.config.ignore),
             !.dbs = MapSeq(UsedFor(f), DbName),
             !.affected = MapSeq(hit, LAMBDA p : [label |-> Label(p.pkg), ids |-> p.vulns]),
             !.total = total, !.where = IF total = 0 THEN "" ELSE f.t.path, !.word = IF ign > 0 THEN "new" ELSE "known", !.ignored = ign]
Updated == IF w.flags.update /\ ~failed THEN {[path |-> configs[i].path, n |-> Len(configs[i].ignore)] : i \in {k \in DOMAIN configs : IsUsed(configs[k].path)}} ELSE {}

RunNext == Discover \/ ReadGlobalConfig \/ ReadOne \/ StartLoading \/ LoadOne \/ StartChecking \/ CheckOne \/ Update \/ Exit
=============================================================================
