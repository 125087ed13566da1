--------------------------- MODULE DetectorTrace ----------------------------
(* Judges recorded histories of runs: takes every run of a record through the  *)
(* Detector state machine, then compares what was observed.  `judge` says      *)
(* which aspects of the observations a record is about.                        *)
(* obs == [crash, exit, json, reports, nreq, gets, queries, stderr, configs,   *)
(*         others]                                                             *)
EXTENDS Detector, Describe, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, k, ok
tvars == <<vars, n, k, ok>>
Rec == Trace[n]
Obs == Rec.obs[k]

TraceInit == /\ n \in 1..Len(Trace) /\ k = 1 /\ ok = TRUE
             /\ w = Trace[n].runs[1] /\ configs = Trace[n].configs /\ cached = ToSet(Trace[n].cached)
             /\ RunInit

Judged(x) == x \in ToSet(Rec.judge)
Reject(why) == ok' = FALSE /\ PrintT(<<"REJECT", n, k, why, "END">>)

(* ------------------------------------------------------------ aspects *)
SameShape == Len(Obs.reports) = Len(reports)
DiffReport == CHOOSE i \in DOMAIN reports : Obs.reports[i] # reports[i]
PkgDiff(R(_, _)) == \* the first package of the first report that differs by R
  LET bad == {x \in UNION {{<<i, j>> : j \in DOMAIN reports[i].packages} : i \in DOMAIN reports} :
                ~R(Obs.reports[x[1]].packages[x[2]], reports[x[1]].packages[x[2]])}
  IN bad
SamePackages == \A i \in DOMAIN reports :
   /\ Obs.reports[i].path = reports[i].path /\ Obs.reports[i].as = reports[i].as
   /\ Len(Obs.reports[i].packages) = Len(reports[i].packages)
   /\ \A j \in DOMAIN reports[i].packages : Obs.reports[i].packages[j].pkg = reports[i].packages[j].pkg
SameSets(a, b) == ToSet(a.vulns) = ToSet(b.vulns) /\ ToSet(a.ignored) = ToSet(b.ignored)
SameLists(a, b) == a = b
SameUnion(a, b) == ToSet(a.vulns) \cup ToSet(a.ignored) = ToSet(b.vulns) \cup ToSet(b.ignored)
Explain(S) == LET x == CHOOSE x \in S : TRUE
              IN <<"in", reports[x[1]].path, "got", Obs.reports[x[1]].packages[x[2]], "expected", reports[x[1]].packages[x[2]]>>

(* what a text report says about the findings *)
Finding(a) == [label |-> a.label, ids |-> ToSet(a.ids)]
SameFindings(g, e) ==
  /\ g.path = e.path /\ g.count = e.count /\ g.total = e.total /\ g.ignored = e.ignored
  /\ SameBag(MapSeq(g.affected, Finding), MapSeq(e.affected, Finding))
FindingsProblem ==
  LET v == Obs.view IN
  IF Len(v.sections) # Len(reports) THEN <<"lockfiles in the text report", Len(v.sections), "expected", Len(reports)>>
  ELSE IF \E i \in DOMAIN reports : ~SameFindings(v.sections[i], Section(i))
       THEN LET i == CHOOSE i \in DOMAIN reports : ~SameFindings(v.sections[i], Section(i)) IN <<"text report says", v.sections[i], "expected", Section(i)>>
  ELSE <<>>

ReportsProblem(R(_, _)) ==
  IF Obs.text THEN FindingsProblem
  ELSE IF ~Obs.json THEN <<"no report">>
  ELSE IF ~SameShape THEN <<"number of reports", Len(Obs.reports), "expected", Len(reports)>>
  ELSE IF ~SamePackages THEN <<"reports differ", Obs.reports, "expected", reports>>
  ELSE LET S == PkgDiff(R) IN IF S = {} THEN <<>> ELSE Explain(S)

ExitProblem == IF Obs.exit = code THEN <<>> ELSE <<"exit", Obs.exit, "expected", code>>

OfflineProblem == IF w.flags.offline /\ Obs.nreq > 0 THEN <<"requests made offline", Obs.nreq>> ELSE <<>>

(* the network requests that were made, as sets *)
WantGets == {asked[i].url : i \in {j \in DOMAIN asked : asked[j].kind = "get"}}
GetsFor(u) == Cardinality({i \in DOMAIN asked : asked[i].kind = "get" /\ asked[i].url = u})
WantQueries(u) == UNION {asked[i].qs : i \in {j \in DOMAIN asked : asked[j].kind = "query" /\ asked[j].url = u}}
MustQueries(u) == UNION {asked[i].must : i \in {j \in DOMAIN asked : asked[j].kind = "query" /\ asked[j].url = u}}
WantApis == {asked[i].url : i \in {j \in DOMAIN asked : asked[j].kind = "query"}}
GotApis == {Obs.queries[i].url : i \in DOMAIN Obs.queries}
GotQueries(u) == UNION {ToSet(Obs.queries[i].qs) : i \in {j \in DOMAIN Obs.queries : Obs.queries[j].url = u}}
SelectionProblem ==
  IF ToSet(Obs.gets) # WantGets THEN <<"archives requested", ToSet(Obs.gets), "expected", WantGets>>
  ELSE IF \E u \in WantGets : Occ(Obs.gets, u) > GetsFor(u) THEN <<"archives requested more than once", Obs.gets>>
  ELSE IF GotApis # WantApis THEN <<"apis asked", GotApis, "expected", WantApis>>
  ELSE IF \E u \in WantApis : ~(GotQueries(u) \subseteq WantQueries(u) /\ MustQueries(u) \subseteq GotQueries(u)) THEN <<"asked of an api", GotApis, "other packages than expected">>
  ELSE <<>>

(* configs on disk: those that could be read before are as the specification says *)
ConfigProblem ==
  IF ~Obs.others THEN <<"other files changed">>
  ELSE IF \E i \in DOMAIN configs : configs[i].ok /\ Obs.configs[i].ignore # configs[i].ignore
       THEN LET i == CHOOSE i \in DOMAIN configs : configs[i].ok /\ Obs.configs[i].ignore # configs[i].ignore
            IN <<"ignores of", configs[i].path, "are", Obs.configs[i].ignore, "expected", configs[i].ignore>>
  ELSE IF \E i \in DOMAIN configs : configs[i].ok /\ Obs.configs[i].dbs # MapSeq(configs[i].dbs, LAMBDA d : [url |-> d.url, type |-> d.type, wd |-> d.wd, name |-> d.name])
       THEN <<"databases of a config changed">>
  ELSE <<>>

FailureProblem == IF failed /\ (Obs.exit = 0 \/ Obs.stderr = FALSE) THEN <<"something failed but exit is", Obs.exit, "errors shown", Obs.stderr>> ELSE <<>>

(* C14: sections of a text report; the order of packages with one label is free *)
SameSection(g, e) ==
  /\ g.path = e.path /\ g.count = e.count /\ g.dbs = e.dbs /\ g.ignores = e.ignores
  /\ (IF g.config = "" THEN e.config = "" ELSE Abs(g.config, w.cwd) = e.config)
  /\ SameBag(g.affected, e.affected) /\ g.total = e.total /\ g.where = e.where /\ g.word = e.word /\ g.ignored = e.ignored
  /\ SameBag(g.listed, e.listed)
TextProblem ==
  LET v == Obs.view IN
  IF v.stray > 0 THEN <<"errors on standard output", v.stray>>
  ELSE IF Obs.errors # failed THEN <<"errors shown", Obs.errors, "expected", failed>>
  ELSE IF Len(v.sections) # Len(reports) THEN <<"lockfiles in the text report", Len(v.sections), "expected", Len(reports)>>
  ELSE IF \E i \in DOMAIN reports : ~SameSection(v.sections[i], Section(i))
       THEN LET i == CHOOSE i \in DOMAIN reports : ~SameSection(v.sections[i], Section(i)) IN <<"text report says", v.sections[i], "expected", Section(i)>>
  ELSE IF {[path |-> Abs(v.updated[i].path, w.cwd), n |-> v.updated[i].n] : i \in DOMAIN v.updated} # Updated THEN <<"updates reported", v.updated, "expected", Updated>>
  ELSE <<>>
JsonProblem ==
  LET p == ReportsProblem(SameLists) IN
  IF p # <<>> THEN p
  ELSE IF Obs.heads # [i \in DOMAIN reports |-> [path |-> reports[i].path, count |-> Len(reports[i].packages)]] THEN <<"progress on standard error", Obs.heads>>
  ELSE IF failed /\ ~Obs.errors THEN <<"no errors shown">>
  ELSE <<>>
OutputProblem == IF Obs.text THEN TextProblem ELSE JsonProblem

(* C22: the list of loaded databases and what every lockfile is said to be     *)
(* checked with.  Where errors go elsewhere, nothing but names is left of the  *)
(* databases that failed.                                                      *)
SameLine(g, e) == EndsWith(g.head, e.name) /\ g.ok = e.ok /\ g.kind = e.kind /\ g.n = e.n /\ g.at = e.at
LinesProblem ==
  LET good == FilterSeq(LoadLines, LAMBDA l : l.ok)
      bad == FilterSeq(LoadLines, LAMBDA l : ~l.ok)
      want == IF Obs.text THEN good ELSE LoadLines
      got == Obs.told.lines
  IN IF Len(got) # Len(want) THEN <<"databases listed", got, "expected", want>>
     ELSE IF \E i \in DOMAIN want : ~SameLine(got[i], want[i])
          THEN LET i == CHOOSE i \in DOMAIN want : ~SameLine(got[i], want[i]) IN <<"a database is listed as", got[i], "expected", want[i]>>
     ELSE IF Obs.told.fails # Len(bad) THEN <<"databases that failed to load", Obs.told.fails, "expected", bad>>
     ELSE IF \E i \in DOMAIN bad : ~Contains(Obs.told.block, bad[i].name) THEN <<"not listed", bad>>
     ELSE <<>>
SameUse(g, e) == g.name = e.name /\ g.kind = e.kind /\ g.n = e.n /\ g.at = e.at
UsesOf(i) == IF w.flags.list THEN <<>> ELSE MapSeq(UsedFor(OkFiles[i]), Described)
SameHead(g, i) ==
  LET e == Section(i) IN
  /\ g.path = e.path /\ g.count = e.count /\ g.ignores = e.ignores
  /\ (IF g.config = "" THEN e.config = "" ELSE Abs(g.config, w.cwd) = e.config)
  /\ Len(g.uses) = Len(UsesOf(i)) /\ \A j \in DOMAIN g.uses : SameUse(g.uses[j], UsesOf(i)[j])
ToldProblem ==
  LET lp == LinesProblem
      v == Obs.told.sections
  IN IF lp # <<>> THEN lp
     ELSE IF Len(v) # Len(reports) THEN <<"lockfiles", Len(v), "expected", Len(reports)>>
     ELSE IF \E i \in DOMAIN v : ~SameHead(v[i], i)
          THEN LET i == CHOOSE i \in DOMAIN v : ~SameHead(v[i], i) IN <<"said of a lockfile", v[i], "expected", Section(i), UsesOf(i)>>
     ELSE <<>>

(* C23: every advisory with the data of the database it was taken from *)
Limit == 80
NoText == [summary |-> "", details |-> "", chars |-> <<>>, published |-> "0001-01-01T00:00:00Z", modified |-> "0001-01-01T00:00:00Z", gone |-> ""]
TextOf(a) == IF "text" \in DOMAIN a THEN a.text ELSE NoText
UsableFor(f) == FilterSeq(UsedFor(f), LAMBDA id : ~CheckFails(id, f.pkgs))
TakenFor(i, j) == Merge(UsableFor(OkFiles[i]), OkFiles[i].pkgs[j])
ReportedOf(i, j) == FilterSeq(TakenFor(i, j), LAMBDA a : a.id \notin IgnoredFor(OkFiles[i].config))
IgnoredOf(i, j) == FilterSeq(TakenFor(i, j), LAMBDA a : a.id \in IgnoredFor(OkFiles[i].config))
SameRange(g, e) == g.type = e.type /\ SameBag(g.events, e.events)
SameEntry(g, e) == /\ g.name = e.name /\ g.eco = e.eco /\ g.versions = e.versions
                   /\ Len(g.ranges) = Len(e.ranges) /\ \A i \in DOMAIN g.ranges : SameRange(g.ranges[i], e.ranges[i])
SameData(g, a) ==
  LET t == TextOf(a) IN
  /\ g.id = a.id /\ g.aliases = a.aliases /\ g.summary = t.summary /\ g.details = t.details
  /\ g.published = t.published /\ g.modified = t.modified /\ g.gone = t.gone
  /\ Len(g.affected) = Len(a.affected) /\ \A i \in DOMAIN g.affected : SameEntry(g.affected[i], a.affected[i])
SameDatas(gs, as) == Len(gs) = Len(as) /\ \A i \in DOMAIN gs : SameData(gs[i], as[i])
Line(a) == [id |-> a.id, desc |-> Description(a.id, TextOf(a).summary, TextOf(a).chars, Limit)]
DataProblem ==
  IF w.flags.list \/ Obs.exit = 128 THEN <<>>
  ELSE IF Obs.text
  THEN LET want(i) == FilterSeq([j \in DOMAIN OkFiles[i].pkgs |-> [label |-> Label(OkFiles[i].pkgs[j]), lines |-> MapSeq(ReportedOf(i, j), Line)]], LAMBDA x : x.lines # <<>>)
           got(i) == MapSeq(Obs.view.sections[i].affected, LAMBDA x : [label |-> x.label, lines |-> x.lines])
       IN IF Len(Obs.view.sections) # Len(reports) THEN <<"lockfiles", Len(Obs.view.sections)>>
          ELSE IF \E i \in DOMAIN reports : ~SameBag(got(i), want(i))
               THEN LET i == CHOOSE i \in DOMAIN reports : ~SameBag(got(i), want(i)) IN <<"described as", ToSet(got(i)) \ ToSet(want(i)), "expected", ToSet(want(i)) \ ToSet(got(i))>>
          ELSE <<>>
  ELSE IF ~Obs.json \/ ~SameShape \/ ~SamePackages THEN <<"reports differ">>
  ELSE LET bad == {x \in UNION {{<<i, j>> : j \in DOMAIN reports[i].packages} : i \in DOMAIN reports} :
                     LET d == Obs.data[x[1]][x[2]] IN ~SameDatas(d.vulns, ReportedOf(x[1], x[2])) \/ ~SameDatas(d.ignored, IgnoredOf(x[1], x[2]))}
       IN IF bad = {} THEN <<>>
          ELSE LET x == CHOOSE x \in bad : TRUE IN <<"reported", Obs.data[x[1]][x[2]], "expected", ReportedOf(x[1], x[2]), IgnoredOf(x[1], x[2])>>

First(ps) == LET S == {i \in DOMAIN ps : ps[i] # <<>>} IN IF S = {} THEN <<>> ELSE ps[MinOf(S)]
Problem ==
  IF Obs.crash # "" THEN <<"crashed", Obs.crash>>
  ELSE First(<<
    IF Judged("exit") THEN ExitProblem ELSE <<>>,
    IF Judged("offline") THEN OfflineProblem ELSE <<>>,
    IF Judged("selection") THEN SelectionProblem ELSE <<>>,
    IF Judged("failure") THEN FailureProblem ELSE <<>>,
    IF Judged("reports") THEN ReportsProblem(SameSets) ELSE <<>>,
    IF Judged("union") THEN ReportsProblem(SameUnion) ELSE <<>>,
    IF Judged("merge") THEN ReportsProblem(SameLists) ELSE <<>>,
    IF Judged("output") THEN OutputProblem ELSE <<>>,
    IF Judged("told") THEN ToldProblem ELSE <<>>,
    IF Judged("data") THEN DataProblem ELSE <<>>,
    IF Judged("update") THEN ConfigProblem ELSE <<>> >>)

Judge ==
  /\ ok /\ phase = "done" /\ k <= Len(Rec.obs)
  /\ UNCHANGED n
  /\ IF Problem # <<>> THEN Reject(Problem) /\ UNCHANGED <<k, vars>>
     ELSE /\ k' = k + 1 /\ UNCHANGED ok
          /\ IF k < Len(Rec.runs)
             THEN /\ w' = Rec.runs[k + 1] /\ UNCHANGED <<configs, cached>>
                  /\ phase' = "discover" /\ todo' = <<>> /\ files' = <<>> /\ loaded' = <<>> /\ reports' = <<>>
                  /\ failed' = FALSE /\ loadFailed' = FALSE /\ asked' = <<>> /\ found' = <<>> /\ code' = 0
             ELSE phase' = "over" /\ UNCHANGED <<w, configs, cached, todo, files, loaded, reports, failed, loadFailed, asked, found, code>>
Accept == ok /\ phase = "over" /\ phase' = "accepted" /\ PrintT(<<"ACCEPT", n>>)
          /\ UNCHANGED <<w, configs, cached, todo, files, loaded, reports, failed, loadFailed, asked, found, code, n, k, ok>>
TraceNext == (ok /\ phase # "done" /\ RunNext /\ UNCHANGED <<n, k, ok>>) \/ Judge \/ Accept
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
