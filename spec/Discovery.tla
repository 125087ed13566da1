----------------------------- MODULE Discovery ------------------------------
(* From the arguments of a run to the lockfiles to read.                       *)
(*                                                                             *)
(* The file system is a sequence of [path, dir, reads]: absolute clean paths,  *)
(* and for files what reading them with a parser gives (a sequence of          *)
(* [as, ok, pkgs]; a parser that is not listed fails on the file).             *)
EXTENDS Util

Parsers == {"bun.lock", "Cargo.lock", "composer.lock", "Gemfile.lock", "go.mod", "mix.lock", "package-lock.json",
  "packages.lock.json", "pdm.lock", "pnpm-lock.yaml", "poetry.lock", "pylock.toml", "Pipfile.lock", "pom.xml",
  "pubspec.lock", "renv.lock", "requirements.txt", "yarn.lock", "uv.lock", "gradle.lockfile", "buildscript-gradle.lockfile"}
CsvFile == "csv-file"
CsvRow == "csv-row"

(* ------------------------------------------------------------- paths *)
RootDir == "${ROOT}"
CleanParts(parts) ==
  LET Step(acc, p) ==
        IF p = "" \/ p = "." THEN acc
        ELSE IF p = ".." /\ acc # <<>> /\ acc[Len(acc)] # ".." THEN SubSeq(acc, 1, Len(acc) - 1)
        ELSE Append(acc, p)
  IN FoldL(Step, <<>>, parts)
Clean(p) == LET c == CleanParts(Split(p, "/")) IN IF c = <<>> THEN "." ELSE JoinSeq(c, "/")
IsAbs(p) == StartsWith(p, RootDir)
Abs(p, cwd) == IF IsAbs(p) THEN Clean(p) ELSE Clean(RootDir \o "/" \o cwd \o "/" \o p)
Base(p) == LET i == LastIndex(p, "/") IN Drop(p, i)
DirOf(p) == LET i == LastIndex(p, "/") IN IF i = 0 THEN "." ELSE Take(p, i - 1)
Join(d, f) == Clean(d \o "/" \o f)

(* ------------------------------------------------------- file system *)
At(fs, abs) == {i \in DOMAIN fs : fs[i].path = abs}
Exists(fs, abs) == At(fs, abs) # {}
Node(fs, abs) == fs[CHOOSE i \in At(fs, abs) : TRUE]
FilesIn(fs, abs) == {Base(fs[i].path) : i \in {j \in DOMAIN fs : ~fs[j].dir /\ DirOf(fs[j].path) = abs}}
SortNames(S) == SortBy(SetToSeq(S), StrLess)

(* --------------------------------------------------------- arguments *)
Prefix(arg) == IF Contains(arg, ":") THEN Before(arg, ":") ELSE ""
PathOf(arg) == IF Contains(arg, ":") THEN After(arg, ":") ELSE arg
ParserFor(arg, global) == IF Prefix(arg) # "" THEN Prefix(arg) ELSE global
KnownFor(name, as) == as = CsvFile \/ (IF as = "" THEN name ELSE as) \in Parsers

(* the lockfiles one argument stands for: sequence of [as, path] *)
ExpandArg(arg, global, fs, cwd) ==
  LET as == ParserFor(arg, global)
      p == PathOf(arg)
      abs == Abs(p, cwd)
  IN IF ~Exists(fs, abs) THEN <<>>
     ELSE IF ~Node(fs, abs).dir THEN <<[as |-> as, path |-> Clean(p)]>>
     ELSE MapSeq(SortNames({f \in FilesIn(fs, abs) : KnownFor(f, as)}), LAMBDA f : [as |-> as, path |-> Join(p, f)])
Unreadable(arg, fs, cwd) == ~Exists(fs, Abs(PathOf(arg), cwd))

DiscoverAll(args, global, fs, cwd) ==
  IF global = CsvRow THEN <<[as |-> CsvRow, path |-> "-"]>>
  ELSE FlattenSeq(MapSeq(args, LAMBDA a : ExpandArg(a, global, fs, cwd)))
SomeUnreadable(args, global, fs, cwd) == global # CsvRow /\ \E i \in DOMAIN args : Unreadable(args[i], fs, cwd)

(* the parser a lockfile is read with, "" if there is none *)
ParsedAs(t) == IF t.as # "" THEN t.as ELSE Base(t.path)
HasParser(t) == IF t.as # "" THEN t.as \in Parsers \cup {CsvFile, CsvRow} ELSE Base(t.path) \in Parsers

Failure == [ok |-> FALSE, pkgs |-> <<>>]
(* the order among packages with the same name and version is not part of the *)
(* contract; records are normalised to this one                                *)
PkgLess(a, b) ==
  IF a.name # b.name THEN StrLess(a.name, b.name)
  ELSE IF a.version # b.version THEN StrLess(a.version, b.version)
  ELSE IF a.commit # b.commit THEN StrLess(a.commit, b.commit)
  ELSE IF a.eco # b.eco THEN StrLess(a.eco, b.eco)
  ELSE StrLess(a.cmp, b.cmp)
ReadLock(t, fs, cwd, rows) ==
  IF t.as = CsvRow THEN [rows EXCEPT !.pkgs = SortBy(@, PkgLess)]
  ELSE IF ~HasParser(t) THEN Failure
  ELSE LET nd == Node(fs, Abs(t.path, cwd))
           can == {i \in DOMAIN nd.reads : nd.reads[i].as = ParsedAs(t)}
       IN IF nd.dir \/ can = {} THEN Failure
          ELSE LET rd == nd.reads[CHOOSE i \in can : TRUE]
               IN IF rd.ok THEN [ok |-> TRUE, pkgs |-> SortBy(rd.pkgs, PkgLess)] ELSE Failure
=============================================================================
