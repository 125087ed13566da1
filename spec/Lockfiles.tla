------------------------------ MODULE Lockfiles -----------------------------
(* What a lockfile locks (C18, C19).                                          *)
(*                                                                             *)
(* A document is [fmt, head, items]: the format, what is said once per file,   *)
(* and its entries (structured formats) or lines (line based formats) in the   *)
(* order they are written.  Reading is a machine that takes one item after     *)
(* another; what it has gathered at the end is what has to be extracted.       *)
EXTENDS Util

Pk(n, v, c) == [name |-> n, version |-> v, commit |-> c]

EcosystemOf(fmt) ==
  CASE fmt \in {"npm1", "npm2", "bun", "pnpm", "yarn"} -> "npm"
    [] fmt = "composer" -> "Packagist"
    [] fmt \in {"pipenv", "poetry", "pdm", "pylock", "uv", "requirements"} -> "PyPI"
    [] fmt = "nuget" -> "NuGet"
    [] fmt = "renv" -> "CRAN"
    [] fmt = "cargo" -> "crates.io"
    [] fmt = "pubspec" -> "Pub"
    [] fmt = "gem" -> "RubyGems"
    [] fmt = "mix" -> "Hex"
    [] fmt \in {"gradle", "maven"} -> "Maven"
    [] fmt = "gomod" -> "Go"

(* ------------------------------------------------- where code comes from *)
WordChars == {Chr(Upper, i) : i \in 1..26} \cup {Chr(Lower, i) : i \in 1..26} \cup {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "_"}
IsWord(s) == s # "" /\ \A i \in 1..Len(s) : Chr(s, i) \in WordChars
AfterLast(s, p) == LET i == LastIndex(s, p) IN IF i = 0 THEN "" ELSE Drop(s, i + Len(p) - 1)
BeforeLast(s, p) == LET i == LastIndex(s, p) IN IF i = 0 THEN s ELSE Take(s, i - 1)

GitSchemes == {"git://", "git+ssh://", "git+https://", "ssh://"}
Shorthands == {"github:", "gitlab:", "bitbucket:"}
GitHosts == {"github.com", "gitlab.com", "bitbucket.org"}
(* a source can be prefixed by the name of the package: name@source *)
FromSource(s, scheme) == StartsWith(s, scheme) \/ Index(s, "@" \o scheme) > 1
TarballPrefix == "https://codeload.github.com/"
(* https://codeload.github.com/<owner>/<repo>/tar.gz/<commit> *)
TarballCommit(s) ==
  LET q == Split(After(s, TarballPrefix), "/")
  IN IF Contains(s, TarballPrefix) /\ Len(q) = 4 /\ q[3] = "tar.gz" /\ IsWord(q[4]) THEN q[4] ELSE ""
(* https://<host>/...?ref=<commit> or https://<host>/...#<commit> *)
HostOf(s) == IF StartsWith(s, "https://") THEN Before(Drop(s, 8), "/") ELSE ""
RefOf(s) == LET q == Split(After(Before(s, "#"), "?"), "&")
                S == {i \in DOMAIN q : StartsWith(q[i], "ref=")}
            IN IF S = {} THEN "" ELSE Drop(q[MinOf(S)], 4)

CommitOf(s) ==
  LET frag == AfterLast(s, "#")
      src == BeforeLast(s, "#")
      tar == TarballCommit(s)
  IN IF IsWord(frag) /\ \E g \in GitSchemes : FromSource(src, g) THEN frag
     ELSE IF IsWord(frag) /\ FromSource(src, "https://") /\ EndsWith(src, ".git") THEN frag
     ELSE IF tar # "" THEN tar
     ELSE IF StartsWith(frag, "commit=") \/ StartsWith(frag, "commit:") THEN Drop(frag, 7)
     ELSE IF IsWord(frag) /\ \E g \in Shorthands : StartsWith(src, g) THEN frag
     ELSE IF HostOf(s) \in GitHosts THEN (IF RefOf(s) # "" THEN RefOf(s) ELSE After(s, "#"))
     ELSE ""

(* -------------------------------------------------- structured formats *)
(* name@version, where the name can start with an @ *)
AtOf(s) == LET i == Index(Drop(s, 1), "@") IN IF i = 0 THEN 0 ELSE i + 1
NameAt(s) == IF AtOf(s) = 0 THEN s ELSE Take(s, AtOf(s) - 1)
VersionAt(s) == IF AtOf(s) = 0 THEN "" ELSE Drop(s, AtOf(s))

(* package-lock.json, version 1: a tree of [name, version, deps] *)
NpmEntry(e) ==
  LET raw == e.version
      real == TrimPrefix(raw, "npm:")
      at == LastIndex(real, "@")
  IN IF StartsWith(raw, "file:") THEN Pk(e.name, "", "")
     ELSE IF StartsWith(raw, "npm:") THEN (IF at > 1 THEN Pk(Take(real, at - 1), Drop(real, at), "") ELSE Pk(real, "", ""))
     ELSE IF CommitOf(raw) # "" THEN Pk(e.name, "", CommitOf(raw))
     ELSE Pk(e.name, raw, "")
RECURSIVE NpmTree(_)
NpmTree(e) == <<NpmEntry(e)>> \o FlattenSeq([i \in DOMAIN e.deps |-> NpmTree(e.deps[i])])

(* version 2 and 3: [path, name, version, resolved]; "" is the project itself *)
InstalledName(path) ==
  LET q == Split(path, "/")
      k == Len(q)
  IN IF k > 1 /\ StartsWith(q[k - 1], "@") THEN q[k - 1] \o "/" \o q[k] ELSE q[k]
NpmInstalled(e) == IF e.path = "" THEN <<>>
                   ELSE <<Pk(IF e.name # "" THEN e.name ELSE InstalledName(e.path), e.version, CommitOf(e.resolved))>>

(* bun.lock: the first element of the tuple, "" if there is none *)
BunEntry(e) ==
  LET v == VersionAt(e.ident)
      c == After(v, "#")
  IN IF e.ident = "" THEN <<>>
     ELSE <<Pk(NameAt(e.ident), IF c # "" \/ StartsWith(v, "file:") THEN "" ELSE v, c)>>

(* pnpm-lock.yaml: the key tells name and version unless there are fields for them *)
PnpmKey9(key) == [name |-> NameAt(key), version |-> VersionAt(key)]
NoKey == [name |-> "", version |-> ""]
(* [registry]/name/version[_peers] or [registry]/name@version[(peers)] *)
PnpmKeyPath(key) ==
  LET q == Split(After(Before(key, "("), "/"), "/")
      k == IF StartsWith(q[1], "@") THEN 2 ELSE 1
      name == IF k = 2 THEN q[1] \o "/" \o q[2] ELSE q[1]
      nv == IF Len(q) > k THEN [name |-> name, version |-> q[k + 1]]
            ELSE [name |-> NameAt(name), version |-> VersionAt(name)]
  IN IF nv.version = "" \/ ~IsDigit(Chr(nv.version, 1)) THEN NoKey ELSE [nv EXCEPT !.version = Before(@, "_")]
PnpmKey(key, lv) == IF StartsWith(key, "file:") THEN NoKey ELSE IF lv = "9.0" THEN PnpmKey9(key) ELSE PnpmKeyPath(key)
PnpmEntry(e, lv) ==
  LET k == PnpmKey(e.key, lv)
      n == IF e.name # "" THEN e.name ELSE k.name
      v == IF e.version # "" THEN e.version ELSE k.version
      t == IF StartsWith(e.tarball, TarballPrefix) THEN TarballCommit(e.tarball) ELSE ""
  IN IF n = "" \/ v = "" THEN <<>> ELSE <<Pk(n, v, IF t # "" THEN t ELSE e.commit)>>

(* packages of other repositories than CRAN are not R packages we know *)
RenvEntry(e) == IF e.repository \in {"", "CRAN"} THEN <<Pk(e.package, e.version, "")>> ELSE <<>>

Entry(d, e) ==
  CASE d.fmt = "npm1" -> NpmTree(e)
    [] d.fmt = "npm2" -> NpmInstalled(e)
    [] d.fmt = "bun" -> BunEntry(e)
    [] d.fmt = "pnpm" -> PnpmEntry(e, d.head.version)
    [] d.fmt = "composer" -> <<Pk(e.name, e.version, IF Contains(e.reference, ".") THEN "" ELSE e.reference)>>
    [] d.fmt = "pipenv" -> IF e.version = "" THEN <<>> ELSE <<Pk(e.name, TrimPrefix(e.version, "=="), "")>>
    [] d.fmt = "nuget" -> <<Pk(e.name, e.resolved, "")>>
    [] d.fmt = "renv" -> RenvEntry(e)
    [] d.fmt = "cargo" -> <<Pk(e.name, e.version, "")>>
    [] d.fmt \in {"poetry", "pdm", "pubspec"} -> <<Pk(e.name, e.version, e.commit)>>
    [] d.fmt = "pylock" -> IF e.version = "" /\ e.directory = "." THEN <<>> ELSE <<Pk(e.name, e.version, e.commit)>>
    [] d.fmt = "uv" -> IF e.virtual = "." THEN <<>> ELSE <<Pk(e.name, e.version, After(e.git, "#"))>>

(* -------------------------------------------------- line based formats *)
(* yarn.lock: an entry is a line that is not indented and the indented lines   *)
(* below it; fields are indented by two spaces                                 *)
Unquote(s) == TrimSuffix(TrimPrefix(s, "\""), "\"")
RECURSIVE Descriptor(_)
Descriptor(s) ==  \* the name a descriptor is about: name@range, or alias@npm:name@range
  LET range == VersionAt(s)
  IN IF StartsWith(range, "npm:") /\ Contains(range, "@") THEN Descriptor(TrimPrefix(range, "npm:")) ELSE NameAt(s)
YarnName(line) == Descriptor(Before(TrimPrefix(TrimSuffix(TrimSuffix(line, ":"), "\""), "\""), ","))
IsField(line) == StartsWith(line, "  ") /\ Len(line) > 2 /\ Chr(line, 3) # " "
FieldKey(line) == TrimSuffix(Unquote(TrimSuffix(Before(Drop(line, 2), " "), ":")), ":")
FieldValue(line) == Unquote(After(Drop(line, 2), " "))
YarnIsRoot(line) == line = "__metadata:" \/ EndsWith(line, "@workspace:.\":")
YarnPkg(g) == Pk(YarnName(g.header), g.version, CommitOf(g.resolved))
NoGroup == [header |-> "", version |-> "", resolved |-> ""]
YarnFlush(st) == IF st.group.header = "" \/ YarnIsRoot(st.group.header) THEN st.pkgs ELSE Append(st.pkgs, YarnPkg(st.group))
YarnLine(st, l) ==
  IF l = "" \/ StartsWith(l, "#") THEN st
  ELSE IF ~StartsWith(l, " ") THEN [st EXCEPT !.pkgs = YarnFlush(st), !.group = [NoGroup EXCEPT !.header = l]]
  ELSE IF IsField(l) /\ FieldKey(l) = "version" /\ st.group.version = "" THEN [st EXCEPT !.group.version = FieldValue(l)]
  ELSE IF IsField(l) /\ FieldKey(l) \in {"resolved", "resolution"} /\ st.group.resolved = "" THEN [st EXCEPT !.group.resolved = FieldValue(l)]
  ELSE st

(* Gemfile.lock: sections; those of sources list gems, indented by four spaces *)
Sources == {"GEM", "GIT", "PATH", "PLUGIN SOURCE"}
Indented(l) == StartsWith(l, " ")
IsSpec(l) == StartsWith(l, "    ") /\ Len(l) > 4 /\ Chr(l, 5) # " "
GemName(l) == Before(Drop(l, 4), " (")
GemVersion(l) == Before(TrimSuffix(After(l, " ("), ")"), "-")      \* without the platform
GemLine(st, l) ==
  IF l = "" THEN st
  ELSE IF ~Indented(l) THEN [st EXCEPT !.section = l, !.revision = ""]
  ELSE IF st.section \notin Sources THEN st
  ELSE IF StartsWith(l, "  revision: ") THEN [st EXCEPT !.revision = Drop(l, 12)]
  ELSE IF IsSpec(l) THEN [st EXCEPT !.pkgs = Append(@, Pk(GemName(l), GemVersion(l), st.revision))]
  ELSE st

(* mix.lock:   "name": {:hex, :name, "version", "checksum", ...},
               "name": {:git, "url", "commit", ...},                           *)
RECURSIVE Trim(_)
Trim(s) == IF StartsWith(s, " ") THEN Trim(Drop(s, 1)) ELSE IF EndsWith(s, " ") THEN Trim(Take(s, Len(s) - 1)) ELSE s
IsMixEntry(l) == StartsWith(l, " ") /\ StartsWith(Trim(l), "\"") /\ Contains(l, "\": {") /\ EndsWith(l, ",")
MixLine(st, l) ==
  IF ~IsMixEntry(l) THEN st
  ELSE LET name == Before(Drop(Trim(l), 1), "\"")
           f == Split(After(l, "\": {"), ",")
           str(i) == Unquote(Trim(f[i]))
       IN [st EXCEPT !.pkgs = Append(@, IF f[1] = ":git" THEN Pk(name, "", str(3)) ELSE Pk(name, str(3), str(4)))]

(* gradle.lockfile: group:artifact:version=configurations *)
GradleLine(st, l) ==
  LET t == Trim(l)
      q == Split(t, ":")
  IN IF t = "" \/ StartsWith(t, "#") \/ StartsWith(t, "empty=") \/ Len(q) < 3 THEN st
     ELSE [st EXCEPT !.pkgs = Append(@, Pk(q[1] \o ":" \o q[2], Before(After(After(t, ":"), ":"), "="), ""))]

(* ----------------------------------------------------------- the machine *)
LineFormats == {"yarn", "gem", "mix", "gradle"}
Nothing == [pkgs |-> <<>>, group |-> NoGroup, section |-> "", revision |-> ""]
Take1(d, st, item) ==
  CASE d.fmt = "yarn" -> YarnLine(st, item)
    [] d.fmt = "gem" -> GemLine(st, item)
    [] d.fmt = "mix" -> MixLine(st, item)
    [] d.fmt = "gradle" -> GradleLine(st, item)
    [] OTHER -> [st EXCEPT !.pkgs = @ \o Entry(d, item)]
AtEnd(d, st) == IF d.fmt = "yarn" THEN YarnFlush(st) ELSE st.pkgs
(* a document that must not be accepted at all *)
Refused(d) == d.fmt = "nuget" /\ d.head.version # 1

Locked(d) == AtEnd(d, FoldL(LAMBDA st, it : Take1(d, st, it), Nothing, d.items))
=============================================================================
