------------------------------ MODULE Matching ------------------------------
(* When does an advisory of a file based database apply to a package?          *)
(*                                                                             *)
(* advisory == [id, withdrawn, aliases, affected]                              *)
(* affected entry == [name, eco, versions, ranges]                             *)
(* range == [type, events], event == [k |-> "introduced"|"fixed"|"last", v]    *)
(* package == [name, version, eco, cmp, commit]                                *)
EXTENDS Versions

IsSep(c) == c \in {"-", "_", "."}

(* PEP 503: runs of - _ . become a single dash, and letters become lower case *)
NormPyPI(s) ==
  LET f[i \in 0..Len(s)] ==
        IF i = 0 THEN ""
        ELSE IF IsSep(Chr(s, i)) THEN (IF i > 1 /\ IsSep(Chr(s, i - 1)) THEN f[i-1] ELSE f[i-1] \o "-")
        ELSE f[i-1] \o LowerChar(Chr(s, i))
  IN f[Len(s)]

NormName(eco, name) == IF EcoOf(eco) = "PyPI" THEN NormPyPI(name) ELSE name

SuffixOf(e) == After(e, ":")
SameEco(a, b) ==
  /\ EcoOf(a) = EcoOf(b)
  /\ (SuffixOf(a) # "" /\ SuffixOf(b) # "" => SuffixOf(a) = SuffixOf(b))

(* ------------------------------------------------------------ ranges *)
(* Declarative reading: of the events that say something about v (those at or *)
(* below it, a last_affected only below it) the one of the highest version,   *)
(* and of several of that version the one listed last, decides.               *)
EvRank(e, cmp) == IF e.k = "introduced" /\ e.v = "0" THEN 0 ELSE Rank(cmp, e.v)

InRangeDecl(events, v, cmp) ==
  LET r == Rank(cmp, v)
      about == {i \in DOMAIN events : LET x == EvRank(events[i], cmp) IN x < r \/ (x = r /\ events[i].k # "last")}
  IN about # {} /\
     LET top == MaxOf({EvRank(events[i], cmp) : i \in about})
     IN events[MaxOf({i \in about : EvRank(events[i], cmp) = top})].k = "introduced"

(* Operational reading: sort the events (those of one version stay as they    *)
(* are listed), walk them, toggle.  MCRanges shows that both readings agree.  *)
WalkStep(r, cmp, on, e) ==
  IF on THEN (IF e.k = "fixed" THEN r < EvRank(e, cmp) ELSE IF e.k = "last" THEN r <= EvRank(e, cmp) ELSE on)
  ELSE (IF e.k = "introduced" THEN EvRank(e, cmp) <= r ELSE on)
InRangeWalk(events, v, cmp) ==
  LET r == Rank(cmp, v)
      Less(a, b) == EvRank(a, cmp) < EvRank(b, cmp)
      Step(on, e) == WalkStep(r, cmp, on, e)
  IN FoldL(Step, FALSE, SortBy(events, Less))

InRange(range, v, cmp) ==
  /\ range.type \in {"SEMVER", "ECOSYSTEM"}
  /\ Len(range.events) > 0
  /\ HasRank(cmp, v)
  /\ InRangeDecl(range.events, v, cmp)

EntryApplies(en, pkg) ==
  /\ SameEco(en.eco, pkg.eco)
  /\ NormName(en.eco, en.name) = NormName(pkg.eco, pkg.name)
  /\ Len(en.ranges) > 0 \/ Len(en.versions) > 0
  /\ \/ pkg.version = ""
     \/ pkg.version \in ToSet(en.versions)
     \/ \E k \in DOMAIN en.ranges : InRange(en.ranges[k], pkg.version, pkg.cmp)

Applies(adv, pkg) == ~adv.withdrawn /\ \E k \in DOMAIN adv.affected : EntryApplies(adv.affected[k], pkg)

(* two advisories are about the same vulnerability: same id, or linked by an alias *)
Linked(a, b) ==
  \/ a.id = b.id
  \/ a.id \in ToSet(b.aliases)
  \/ b.id \in ToSet(a.aliases)
  \/ ToSet(a.aliases) \cap ToSet(b.aliases) # {}

(* what one database reports for a package: every advisory that applies, in    *)
(* load order, leaving out the ones linked to an advisory already reported     *)
Reported(advs, pkg) ==
  LET Step(acc, a) == IF Applies(a, pkg) /\ ~\E k \in DOMAIN acc : Linked(acc[k], a) THEN Append(acc, a) ELSE acc
  IN FoldL(Step, <<>>, advs)
IdsOf(advs) == MapSeq(advs, LAMBDA a : a.id)
=============================================================================
