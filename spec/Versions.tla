------------------------------ MODULE Versions ------------------------------
(* The version orders the detector promises to follow, per comparison          *)
(* ecosystem: chains of classes, oldest first; versions in one class are       *)
(* different spellings of versions that compare equal.  Chains contain the     *)
(* places where ecosystems disagree with each other and with plain text order, *)
(* and begin with versions older than 0.                                       *)
EXTENDS Util

SemverChain == << {"0.0.0-alpha"}, {"0.0.0-rc.1"}, {"0.0.1-rc1"}, {"0.0.1"}, {"0.9.10"}, {"0.10.0"},
  {"1.0.0-alpha"}, {"1.0.0-alpha.1"}, {"1.0.0-alpha.beta"}, {"1.0.0-beta.2"}, {"1.0.0-beta.11"}, {"1.0.0-rc.1"},
  {"1.0.0", "1.0.0+build5", "1.0.0+1", "1.0.0+2"}, {"1.2.0"}, {"1.10.0"}, {"2.0.0-0"}, {"2.0.0"}, {"9.9.9"}, {"10.0.0"} >>
PyPIChain == << {"0.dev1"}, {"0a1"}, {"0.9.10"}, {"0.10.0"}, {"1.0.dev1"}, {"1.0a1"}, {"1.0a2"}, {"1.0b1"}, {"1.0rc1"}, {"1.0", "1.0.0", "1.0.0.0"},
  {"1.0.post1"}, {"1.2"}, {"1.10"}, {"2.0.0"}, {"10.0"}, {"1!0.1"} >>
RubyChain == << {"0.a"}, {"0.9.10"}, {"0.10.0"}, {"1.0.a"}, {"1.0.b1"}, {"1.0.rc1"}, {"1.0", "1.0.0"}, {"1.2"}, {"1.10"}, {"2.0.0.pre1"}, {"2.0.0"}, {"10.0"} >>
MavenChain == << {"0-alpha-1"}, {"0.9.10"}, {"0.10.0"}, {"1.0-alpha-1"}, {"1.0-beta-1"}, {"1.0-rc1"}, {"1.0-SNAPSHOT"}, {"1.0", "1.0.0", "1.0-ga"}, {"1.0-sp1"}, {"1.0.1"}, {"1.2"}, {"1.10"}, {"2.0"}, {"10.0"} >>
NuGetChain == << {"0.0.0-alpha"}, {"0.9.10"}, {"0.10.0"}, {"1.0.0-alpha"}, {"1.0.0-beta"}, {"1.0.0"}, {"1.0.0.1"}, {"1.2.0"}, {"1.10.0"}, {"2.0.0"}, {"10.0.0"} >>
PackagistChain == << {"0.0.0-alpha1"}, {"0.9.10"}, {"0.10.0"}, {"1.0.0-dev"}, {"1.0.0-alpha1"}, {"1.0.0-beta2"}, {"1.0.0-RC1"}, {"1.0.0", "v1.0.0"}, {"1.2.0"}, {"1.10.0"}, {"2.0.0"}, {"10.0.0"} >>
PubChain == << {"0.0.0-a"}, {"0.9.10"}, {"0.10.0"}, {"1.0.0-alpha"}, {"1.0.0-beta"}, {"1.0.0"}, {"1.0.0+1"}, {"1.0.0+2"}, {"1.2.0"}, {"1.10.0"}, {"2.0.0"}, {"10.0.0"} >>
DebianChain == << {"0~a-1"}, {"0.9.10-1"}, {"0.10.0-1"}, {"1.0~beta1-1"}, {"1.0-1"}, {"1.0-1+deb11u1"}, {"1.0-2"}, {"1.0.1-1"}, {"1.2-1"}, {"1.10-1"}, {"2.0-1"}, {"1:0.1-1"} >>
AlpineChain == << {"0_alpha1"}, {"0.9.10"}, {"0.10.0"}, {"1.0_alpha1"}, {"1.0_rc1"}, {"1.0"}, {"1.0-r1"}, {"1.0-r2"}, {"1.0_p1"}, {"1.2"}, {"1.10"}, {"2.0"}, {"10.0"} >>
CRANChain == << {"0.9.10"}, {"0.10.0"}, {"1.0"}, {"1.0-1", "1.0.1"}, {"1.0-2"}, {"1.2"}, {"1.10"}, {"2.0.0"}, {"10.0"} >>
RedHatChain == << {"0~rc1-1"}, {"0.9.10-1"}, {"0.10.0-1"}, {"1.0~rc1-1.el8"}, {"1.0-1.el8"}, {"1.0-1.el9"}, {"1.0-2.el8"}, {"1.2-1.el8"}, {"1.10-1.el8"}, {"2.0-1"}, {"1:0.1-1"} >>

Semverish == {"npm", "Go", "crates.io", "Hex"}
Chains == [ e \in Semverish |-> SemverChain ] @@
  ("PyPI" :> PyPIChain @@ "RubyGems" :> RubyChain @@ "Maven" :> MavenChain @@ "NuGet" :> NuGetChain @@
   "Packagist" :> PackagistChain @@ "Pub" :> PubChain @@ "Debian" :> DebianChain @@ "Alpine" :> AlpineChain @@
   "CRAN" :> CRANChain @@ "Red Hat" :> RedHatChain)

EcoOf(e) == IF e \in DOMAIN Chains THEN e ELSE Before(e, ":")
RankTable == [e \in DOMAIN Chains |-> [v \in UNION ToSet(Chains[e]) |-> CHOOSE i \in DOMAIN Chains[e] : v \in Chains[e][i]]]
HasRank(cmp, v) == EcoOf(cmp) \in DOMAIN Chains /\ v \in DOMAIN RankTable[EcoOf(cmp)]
Rank(cmp, v) == RankTable[EcoOf(cmp)][v]
=============================================================================
