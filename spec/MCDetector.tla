----------------------------- MODULE MCDetector -----------------------------
(* Families of small worlds, every one of which is taken through Detector.     *)
(* The properties are stated here without reference to how Detector reaches    *)
(* its results; GenWorlds also hands the worlds to the harness, which builds   *)
(* them as real files and servers and runs the real detector on them.          *)
EXTENDS Detector
CONSTANTS Family, Runs            \* Runs: how many runs follow one another
VARIABLES run, before, first, sel \* before: configs when the run began; first: what was found by the first run; sel: index of the world
mvars == <<vars, run, before, first, sel>>

-----------------------------------------------------------------------------
(* Pieces *)
AllVersions == <<[type |-> "ECOSYSTEM", events |-> <<[k |-> "introduced", v |-> "0"]>>]>>
Adv(id, name, eco, aliases) == [id |-> id, withdrawn |-> FALSE, aliases |-> aliases,
  affected |-> <<[name |-> name, eco |-> eco, versions |-> <<>>, ranges |-> AllVersions]>>]
Pkg(name, eco) == [name |-> name, version |-> "1.0.0", eco |-> eco, cmp |-> eco, commit |-> ""]
Alpha == Pkg("alpha", "npm")
Beta == Pkg("beta", "PyPI")
Gamma == Pkg("gamma", "npm")

Dir(p) == [path |-> RootDir \o p, dir |-> TRUE, reads |-> <<>>]
Lock(p, ok, pkgs) == [path |-> RootDir \o p, dir |-> FALSE, reads |-> <<[as |-> CsvFile, ok |-> ok, pkgs |-> IF ok THEN pkgs ELSE <<>>]>>]
FS(ok1, ok2) == <<Dir("/cwd"), Dir("/cwd/sub"), Lock("/cwd/a.csv", ok1, <<Alpha>>), Lock("/cwd/sub/b.csv", ok2, <<Alpha, Beta>>),
                  Lock("/cwd/sub/c.csv", TRUE, <<>>)>>

ExtraUrl == "file:////" \o RootDir \o "/extra"
Db(id, up, advs, answers) == [id |-> id, type |-> TypeOfId(id), url |-> UrlOfId(id), up |-> up, advs |-> advs, answers |-> answers, bad |-> <<>>]
Dbs(npm, pypi, api, extra) == <<
  Db(EcoId("npm"), npm, <<Adv("V1", "alpha", "npm", <<"V2">>), Adv("V6", "gamma", "npm", <<>>)>>, <<>>),
  Db(EcoId("PyPI"), pypi, <<Adv("V3", "beta", "PyPI", <<>>)>>, <<>>),
  Db(ApiId, api, <<Adv("V2", "alpha", "npm", <<>>), Adv("V3", "beta", "PyPI", <<"V4">>), Adv("V5", "alpha", "npm", <<"X">>)>>,
     <<[q |-> QueryFor(Alpha), ids |-> <<"V2", "V5">>], [q |-> QueryFor(Beta), ids |-> <<"V3">>]>>),
  Db("dir#" \o ExtraUrl, extra, <<Adv("V4", "beta", "PyPI", <<>>), Adv("V7", "alpha", "npm", <<"X">>)>>, <<>>) >>
Flags == [offline |-> FALSE, parseAs |-> "", config |-> "", noConfig |-> FALSE, update |-> FALSE, noIgnores |-> FALSE, noDatabases |-> FALSE,
          list |-> FALSE, useDbs |-> "", useApi |-> "", batch |-> 1000, ignores |-> <<>>, info |-> ""]
Args(missing) == <<"csv-file:a.csv", "csv-file:sub/b.csv">> \o (IF missing THEN <<"csv-file:gone.csv">> ELSE <<>>)
World(args, flags, fs, dbs) == [args |-> args, cwd |-> "cwd", prefer |-> FALSE, flags |-> flags, fs |-> fs,
                                rows |-> [ok |-> FALSE, pkgs |-> <<>>], dbs |-> dbs]
Extra == [url |-> ExtraUrl, type |-> "", wd |-> "", name |-> "", ok |-> TRUE]
Broken == [url |-> "not-a-url", type |-> "", wd |-> "", name |-> "", ok |-> FALSE]
Cfg(p, ok, ign, dbs) == [path |-> RootDir \o p, ok |-> ok, ignore |-> ign, dbs |-> dbs]
Local(ok, ign, dbs) == Cfg("/cwd/.osv-detector.yml", ok, ign, dbs)
LocalSub(ok, ign, dbs) == Cfg("/cwd/sub/.osv-detector.yaml", ok, ign, dbs)

B == BOOLEAN
AllUp == Dbs(TRUE, TRUE, TRUE, TRUE)
(* a world of a family: [w, configs, cached] *)
It(ww, cc, ca) == [w |-> ww, configs |-> cc, cached |-> ca]

(* every combination of what fails, and of findings that are ignored or not *)
ExitFamily(x) ==
  {It(World(Args(m), [Flags EXCEPT !.useApi = api, !.list = lst], FS(ok1, ok2), Dbs(npm, TRUE, apiup, xup)), <<Local(cok, ign, <<Extra>>)>>, {}) :
     m \in B, api \in {"", "true"}, lst \in B, ok1 \in B, ok2 \in B, npm \in B, apiup \in B, xup \in B, cok \in B,
     ign \in {<<>>, <<"V1", "V7">>}}
(* every combination of the sources of ignores *)
IgnoreFamily(x) ==
  {It(World(Args(FALSE), [Flags EXCEPT !.ignores = cli, !.noIgnores = ni, !.noConfig = nc, !.config = g], FS(TRUE, TRUE), AllUp),
      <<Local(TRUE, i1, <<>>), LocalSub(TRUE, i2, <<>>), Cfg("/cwd/conf.yml", TRUE, <<"V3">>, <<>>)>>, {}) :
     cli \in {<<>>, <<"V1">>, <<"V3", "V3">>}, ni \in B, nc \in B, g \in {"", "conf.yml"}, i1 \in {<<>>, <<"V1">>, <<"V3", "V9">>}, i2 \in {<<>>, <<"V1">>, <<"V3">>}}
(* every combination of the flags that select databases *)
SelectFamily(x) ==
  {It([World(Args(FALSE), [Flags EXCEPT !.useDbs = d, !.useApi = a, !.noDatabases = nd, !.noConfig = nc, !.config = g, !.list = l, !.batch = b], FS(TRUE, TRUE), AllUp)
       EXCEPT !.prefer = pf], <<LocalSub(TRUE, <<>>, <<Extra>>), Cfg("/cwd/conf.yml", TRUE, <<>>, <<Broken, Extra, Extra>>)>>, {}) :
     d \in {"", "true", "false"}, a \in {"", "true", "false"}, nd \in B, nc \in B, g \in {"", "conf.yml"}, l \in B, b \in {1, 1000}, pf \in B}
(* updates, over worlds with and without failures, with shared and separate configs *)
UpdateFamily(x) ==
  {It(World(Args(m), [Flags EXCEPT !.update = TRUE, !.useApi = api, !.noIgnores = ni, !.noDatabases = nd, !.config = g], FS(ok1, TRUE), Dbs(npm, TRUE, TRUE, TRUE)), cs, {}) :
     m \in B, api \in {"", "true"}, ni \in B, nd \in B, g \in {"", "conf.yml"}, ok1 \in B, npm \in B,
     cs \in {<<>>, <<Local(TRUE, <<"V9", "V1">>, <<Extra>>)>>,
             <<Local(TRUE, <<>>, <<>>), LocalSub(TRUE, <<"V3">>, <<Extra>>), Cfg("/cwd/conf.yml", TRUE, <<"V9">>, <<Extra>>)>>}}
(* offline, with every set of stored copies *)
OfflineFamily(x) ==
  {It(World(Args(FALSE), [Flags EXCEPT !.offline = TRUE, !.useApi = api, !.useDbs = d, !.update = u], FS(TRUE, ok2), Dbs(npm, TRUE, TRUE, xup)),
      <<Local(TRUE, <<"V1">>, <<Extra>>)>>, ca) :
     api \in {"", "true"}, d \in {"", "false"}, u \in B, ok2 \in B, npm \in B, xup \in B, ca \in SUBSET {EcoUrl("npm"), EcoUrl("PyPI")}}
(* one package, three advisories about it: every alias structure and every distribution over two databases *)
ZipUrl == "https://db.example/all.zip"
ZipExtra == [url |-> ZipUrl, type |-> "", wd |-> "", name |-> "", ok |-> TRUE]
AliasesOf(a) == IF a = "" THEN <<>> ELSE <<a>>
MergeFamily(x) ==
  {It(World(<<"csv-file:a.csv">>, [Flags EXCEPT !.useDbs = "false", !.ignores = ig], FS(TRUE, TRUE),
            LET advs == <<Adv("A", "alpha", "npm", AliasesOf(a)), Adv("B", "alpha", "npm", AliasesOf(b)), Adv("C", "alpha", "npm", AliasesOf(c))>>
                place == <<pa, pb, pc>>
                in1 == FilterSeq(<<1, 2, 3>>, LAMBDA i : place[i] # 2)
                in2 == FilterSeq(<<3, 2, 1>>, LAMBDA i : place[i] # 1)
            IN <<Db("dir#" \o ExtraUrl, TRUE, MapSeq(in1, LAMBDA i : advs[i]), <<>>), Db("zip#" \o ZipUrl, TRUE, MapSeq(in2, LAMBDA i : advs[i]), <<>>)>>),
      <<Local(TRUE, <<>>, <<Extra, ZipExtra>>)>>, {}) :
     a \in {"", "B", "C", "X"}, b \in {"", "A", "C", "X"}, c \in {"", "A", "B", "X"}, pa \in {1, 2, 3}, pb \in {1, 2, 3}, pc \in {1, 2, 3},
     ig \in {<<>>, <<"A">>}}
Worlds(x) == CASE Family = "exit" -> ExitFamily(0) [] Family = "ignore" -> IgnoreFamily(0) [] Family = "select" -> SelectFamily(0)
            [] Family = "update" -> UpdateFamily(0) [] Family = "offline" -> OfflineFamily(0)
            [] Family = "merge" -> MergeFamily(0)

-----------------------------------------------------------------------------
MCInit == /\ sel \in Worlds(0)
          /\ w = sel.w /\ configs = sel.configs /\ cached = sel.cached
          /\ before = configs /\ first = <<>> /\ run = 1
          /\ RunInit
(* the next run: the same, without updating *)
Again == /\ phase = "done" /\ run < Runs
         /\ run' = run + 1 /\ before' = configs /\ first' = [code |-> code, reports |-> reports, failed |-> failed]
         /\ w' = [w EXCEPT !.flags.update = (w.flags.update /\ run > 1)]
         /\ phase' = "discover" /\ todo' = <<>> /\ files' = <<>> /\ loaded' = <<>> /\ reports' = <<>>
         /\ failed' = FALSE /\ loadFailed' = FALSE /\ asked' = <<>> /\ found' = <<>> /\ code' = 0
         /\ UNCHANGED <<configs, cached, sel>>
MCNext == (RunNext /\ UNCHANGED <<run, before, first, sel>>) \/ Again
MCSpec == MCInit /\ [][MCNext]_mvars
Done == phase = "done"

-----------------------------------------------------------------------------
(* C08 *)
Unignored == \E i \in DOMAIN reports : HasVulns(reports[i])
ExitCodes == Done =>
  /\ code \in {0, 1, 127, 128}
  /\ code = 0 => ~failed /\ ~Unignored
  /\ code = 1 => Unignored /\ ~loadFailed
  /\ loadFailed => code = 127
  /\ code = 128 => reports = <<>> /\ w.args # <<>>
  /\ ~failed /\ Unignored => code = 1
  /\ ~failed /\ ~Unignored => code = 0
(* C07 *)
NothingAskedOffline == w.flags.offline => asked = <<>>
OfflineUsesStored == Done /\ w.flags.offline => \A i \in DOMAIN loaded : TypeOfId(loaded[i]) # "api" /\ (TypeOfId(loaded[i]) = "zip" => UrlOfId(loaded[i]) \in cached)
(* C09 *)
FileOf(i) == LET okf == FilterSeq(files, LAMBDA f : f.ok) IN okf[i]
Partition == Done /\ ~w.flags.list => \A i \in DOMAIN reports : \A j \in DOMAIN reports[i].packages :
  LET p == reports[i].packages[j] ign == IgnoredFor(FileOf(i).config) IN
  /\ ToSet(p.vulns) \cap ign = {} /\ ToSet(p.ignored) \subseteq ign
  /\ Len(p.vulns) + Len(p.ignored) = Len(Merge(FilterSeq(UsedFor(FileOf(i)), LAMBDA id : ~CheckFails(id, FileOf(i).pkgs)), p.pkg))
(* C10 *)
OnePerGroup == Done /\ ~w.flags.list => \A i \in DOMAIN reports : LET f == FileOf(i) IN \A j \in DOMAIN f.pkgs :
  LET use == FilterSeq(UsedFor(f), LAMBDA id : ~CheckFails(id, f.pkgs))
      all == FlattenSeq(MapSeq(use, LAMBDA id : AnswerOf(id, f.pkgs[j])))
      m == Merge(use, f.pkgs[j])
  IN /\ \A x, y \in DOMAIN m : x # y => ~Linked(m[x], m[y])
     /\ \A x \in DOMAIN all : \E y \in DOMAIN m : m[y] = all[x] \/ Linked(m[y], all[x])
(* C11 *)
UpdatesOnlyWhenComplete == Done => (configs # before => w.flags.update /\ ~failed)
UpdateIsExact == Done /\ w.flags.update /\ ~failed => \A i \in DOMAIN configs :
  LET users == {k \in DOMAIN files : files[k].config.path = configs[i].path} IN
  IF users = {} THEN configs[i] = before[i]
  ELSE /\ ToSet(configs[i].ignore) = UNION {IdsFound(reports[k]) : k \in users}
       /\ NoDups(configs[i].ignore) /\ configs[i].dbs = before[i].dbs
UpdateSettles == Done /\ run = 2 /\ Runs >= 2 /\ sel.w.flags.update /\ ~first.failed /\ ~w.flags.noIgnores =>
  /\ \A i \in DOMAIN reports : FileOf(i).config.path # "" => ~HasVulns(reports[i])
  /\ configs = before
  /\ (\A i \in DOMAIN files : files[i].config.path # "") => code = 0
(* C12 *)
ExactlySelected == Done /\ ~w.flags.list => \A i \in DOMAIN files : files[i].ok =>
  LET c == files[i].config s == ToSet(SelectedFor(files[i])) IN
  /\ (ApiId \in s) <=> (UseApi \/ (~w.flags.noDatabases /\ \E k \in DOMAIN c.dbs : ValidDb(c.dbs[k]) /\ IdOf(c.dbs[k]) = ApiId))
  /\ \A e \in {"npm", "PyPI"} : (EcoId(e) \in s) <=> (UseDbs /\ \E k \in DOMAIN files[i].pkgs : files[i].pkgs[k].eco = e)
  /\ ("dir#" \o ExtraUrl \in s) <=> (~w.flags.noDatabases /\ \E k \in DOMAIN c.dbs : c.dbs[k] = Extra)
LoadedOnce == NoDups(loaded) /\ (w.flags.list => loaded = <<>> /\ asked = <<>>)
(* C15: a report does not depend on what fails elsewhere *)
Isolated == Done /\ ~w.flags.list => \A i \in DOMAIN reports : LET f == FileOf(i) IN \A j \in DOMAIN f.pkgs :
  LET p == reports[i].packages[j]
      works(id) == CanLoad(id) /\ ~CheckFails(id, f.pkgs)
      sources == {id \in ToSet(SelectedFor(f)) : works(id)}
      known == UNION {ToSet(AnswerOf(id, f.pkgs[j])) : id \in sources}
  IN /\ \A a \in known : \E b \in known : b.id \in ToSet(p.vulns) \cup ToSet(p.ignored) /\ (a = b \/ Linked(a, b))
     /\ ToSet(p.vulns) \cup ToSet(p.ignored) \subseteq {a.id : a \in known}
EveryHealthyReported == Done /\ code # 128 /\ files # <<>> => Len(reports) = Cardinality({i \in DOMAIN files : files[i].ok})
FailuresNoticed == Done /\ ((\E i \in DOMAIN files : ~files[i].ok) \/ SomeUnreadable(w.args, w.flags.parseAs, w.fs, w.cwd)) => failed /\ code # 0
=============================================================================
