------------------------------ MODULE Manifests -----------------------------
(* What manifests declare (C20).                                              *)
(*   go.mod            [requires, replaces]                                    *)
(*   requirements.txt  [files |-> seq of [path, lines]], the first one is read *)
(*   pom.xml           [props, own, managed]                                   *)
EXTENDS Lockfiles

(* ---------------------------------------------------------------- go.mod *)
(* requires: [path, version]; replaces: [old, oldv, new, newv]; what a         *)
(* requirement is replaced by depends on the requirement only                  *)
Replacement(m, reps) ==
  LET mine == {i \in DOMAIN reps : reps[i].old = m.path}
      exact == {i \in mine : reps[i].oldv # "" /\ reps[i].oldv = m.version}
      any == {i \in mine : reps[i].oldv = ""}
      To(i) == [path |-> reps[i].new, version |-> reps[i].newv]
  IN IF exact # {} THEN To(CHOOSE i \in exact : TRUE) ELSE IF any # {} THEN To(CHOOSE i \in any : TRUE) ELSE m
GoDeclared(d) == {LET m == Replacement(d.requires[i], d.replaces) IN Pk(m.path, TrimPrefix(m.version, "v"), "") : i \in DOMAIN d.requires}

(* ------------------------------------------------------ requirements.txt *)
IsBlank(c) == c \in {" ", "\t"}
RECURSIVE TrimBlank(_)
TrimBlank(s) == IF s # "" /\ IsBlank(Chr(s, 1)) THEN TrimBlank(Drop(s, 1))
                ELSE IF s # "" /\ IsBlank(Chr(s, Len(s))) THEN TrimBlank(Take(s, Len(s) - 1)) ELSE s
(* the text of a line without its comment: from a # at the start or after a blank *)
RECURSIVE CommentAt(_, _)
CommentAt(s, i) == IF i > Len(s) THEN 0 ELSE IF Chr(s, i) = "#" /\ (i = 1 \/ IsBlank(Chr(s, i - 1))) THEN i ELSE CommentAt(s, i + 1)
NoComment(s) == LET i == CommentAt(s, 1) IN TrimBlank(IF i = 0 THEN s ELSE Take(s, i - 1))
RECURSIVE Backslashes(_)
Backslashes(s) == IF EndsWith(s, "\\") THEN 1 + Backslashes(Take(s, Len(s) - 1)) ELSE 0
IsComment(s) == StartsWith(TrimBlank(s), "#")
Continued(s) == Backslashes(s) % 2 = 1 /\ ~IsComment(s)
(* logical lines: a line that is continued goes on with the next one *)
RECURSIVE Logical(_)
Logical(ls) ==
  IF ls = <<>> THEN <<>>
  ELSE IF Continued(ls[1]) THEN
    (IF Len(ls) = 1 THEN <<Take(ls[1], Len(ls[1]) - 1)>>
     ELSE LET rest == Logical(Tail(ls))
              l == Take(ls[1], Len(ls[1]) - 1)
          IN <<l \o (IF IsComment(ls[2]) THEN " " ELSE "") \o rest[1]>> \o Tail(rest))
  ELSE <<ls[1]>> \o Logical(Tail(ls))

(* extras in brackets do not matter *)
RECURSIVE NoExtras(_)
NoExtras(s) == LET a == Index(s, "[") IN
  IF a = 0 THEN s
  ELSE LET b == Index(Drop(s, a), "]") IN IF b = 0 THEN s ELSE Take(s, a - 1) \o NoExtras(Drop(s, a + b))
Ends == {" ", "\t", "@", "(", "<", ">", "=", "!", "~"}
RECURSIVE NameLen(_, _)
NameLen(s, i) == IF i > Len(s) \/ Chr(s, i) \in Ends THEN i - 1 ELSE NameLen(s, i + 1)
(* PEP 503 *)
Seps == {"-", "_", "."}
RECURSIVE NormalFrom(_, _)
NormalFrom(s, i) ==
  IF i > Len(s) THEN ""
  ELSE IF Chr(s, i) \in Seps THEN (IF i > 1 /\ Chr(s, i - 1) \in Seps THEN "" ELSE "-") \o NormalFrom(s, i + 1)
  ELSE LowerChar(Chr(s, i)) \o NormalFrom(s, i + 1)
Normal(s) == NormalFrom(s, 1)
RECURSIVE SkipOpen(_)
SkipOpen(s) == IF s # "" /\ (IsBlank(Chr(s, 1)) \/ Chr(s, 1) = "(") THEN SkipOpen(Drop(s, 1)) ELSE s
RECURSIVE UntilEnd(_, _)
UntilEnd(s, i) == IF i > Len(s) \/ IsBlank(Chr(s, i)) \/ Chr(s, i) = ")" THEN Take(s, i - 1) ELSE UntilEnd(s, i + 1)
(* the version a specifier such as >= 1.0 tells, "" if it tells none *)
Told(sp) ==
  LET t == SkipOpen(sp)
      k == IF StartsWith(t, "===") THEN 3 ELSE IF \E o \in {"==", ">=", "~="} : StartsWith(t, o) THEN 2 ELSE 0
  IN IF k = 0 THEN "" ELSE UntilEnd(TrimBlank(Drop(t, k)), 1)
Requirement(line) ==
  LET t == NoExtras(Before(line, ";"))
      k == NameLen(t, 1)
      told == SelectSeq(MapSeq(Split(Drop(t, k), ","), Told), LAMBDA v : v # "")
  IN Pk(Normal(Take(t, k)), IF told = <<>> THEN "0.0.0" ELSE told[1], "")
IsInclude(l) == StartsWith(l, "-r ")
IsRequirement(l) == l # "" /\ ~\E p \in {"-", "https://", "http://", ".", "/"} : StartsWith(l, p)

(* where a file is, seen from the file that includes it *)
CleanPath(p) ==
  LET Step(acc, q) == IF q = "" \/ q = "." THEN acc
                      ELSE IF q = ".." /\ acc # <<>> /\ acc[Len(acc)] # ".." THEN SubSeq(acc, 1, Len(acc) - 1)
                      ELSE Append(acc, q)
  IN JoinSeq(FoldL(Step, <<>>, Split(p, "/")), "/")
FolderOf(p) == LET i == LastIndex(p, "/") IN Take(p, i)
LinesOf(f) == MapSeq(Logical(f.lines), NoComment)
FileAt(fs, p) == {i \in DOMAIN fs : fs[i].path = p}
IncludedBy(f) == {CleanPath(FolderOf(f.path) \o Drop(l, 3)) : l \in {x \in ToSet(LinesOf(f)) : IsInclude(x)}}
RECURSIVE Reach(_, _)
Reach(fs, S) ==
  LET more == S \cup UNION {UNION {IncludedBy(fs[i]) : i \in FileAt(fs, p)} : p \in S}
  IN IF more = S THEN S ELSE Reach(fs, more)
Reached(d) == Reach(d.files, {d.files[1].path})
ReqRefused(d) == \E p \in Reached(d) : FileAt(d.files, p) = {}
ReqDeclared(d) == UNION {{Requirement(l) : l \in {x \in ToSet(LinesOf(d.files[i])) : IsRequirement(x)}} : i \in {k \in DOMAIN d.files : d.files[k].path \in Reached(d)}}

(* --------------------------------------------------------------- pom.xml *)
(* props: [name, value]; own and managed: [group, artifact, version]           *)
PropOf(d, name) == {i \in DOMAIN d.props : d.props[i].name = name}
Unresolvable == "<none>"
(* properties are substituted until there are none left; a value that goes on  *)
(* for ever has no meaning                                                     *)
RECURSIVE Substituted(_, _, _)
Substituted(d, s, fuel) ==
  LET a == Index(s, "${")
      name == Before(Drop(s, a + 1), "}")
      S == PropOf(d, name)
  IN IF a = 0 \/ ~Contains(Drop(s, a + 1), "}") THEN s
     ELSE IF S = {} \/ fuel = 0 THEN Unresolvable
     ELSE Substituted(d, Take(s, a - 1) \o TrimBlank(d.props[CHOOSE i \in S : TRUE].value) \o After(Drop(s, a + 1), "}"), fuel - 1)
Lowest(s) ==
  LET t == IF s # "" /\ Chr(s, 1) \in {"[", "("} THEN Drop(s, 1) ELSE s
      v == TrimBlank(Before(Before(Before(t, ","), ")"), "]"))
  IN IF v = "" THEN "0" ELSE v
MavenVersion(d, raw) == LET v == Substituted(d, TrimBlank(raw), 60) IN IF v = Unresolvable THEN "0" ELSE Lowest(v)
NameOfDep(e) == TrimBlank(e.group) \o ":" \o TrimBlank(e.artifact)
VersionFor(d, name) ==
  LET own == {i \in DOMAIN d.own : NameOfDep(d.own[i]) = name /\ TrimBlank(d.own[i].version) # ""}
      managed == {i \in DOMAIN d.managed : NameOfDep(d.managed[i]) = name}
  IN IF own # {} THEN MavenVersion(d, d.own[CHOOSE i \in own : TRUE].version)
     ELSE IF managed # {} THEN MavenVersion(d, d.managed[CHOOSE i \in managed : TRUE].version)
     ELSE "0"
MavenDeclared(d) == {Pk(n, VersionFor(d, n), "") : n \in {NameOfDep(d.own[i]) : i \in DOMAIN d.own} \cup {NameOfDep(d.managed[i]) : i \in DOMAIN d.managed}}

Declared(d) == CASE d.fmt = "gomod" -> GoDeclared(d) [] d.fmt = "requirements" -> ReqDeclared(d) [] d.fmt = "maven" -> MavenDeclared(d)
ManifestRefused(d) == d.fmt = "requirements" /\ ReqRefused(d)
=============================================================================
