------------------------------- MODULE MCLocks ------------------------------
(* Documents of one format, composed of blocks (an entry, a section).          *)
EXTENDS Lockfiles, Json
CONSTANTS Fmt, MaxBlocks

Hash == "0123456789012345678901234567890123456789"
N1(n, v, ds) == [name |-> n, version |-> v, deps |-> ds]
N2(p, n, v, s) == [path |-> p, name |-> n, version |-> v, resolved |-> s]
B1(id) == [ident |-> id]
Pn(k, n, v, t, c) == [key |-> k, name |-> n, version |-> v, tarball |-> t, commit |-> c]
Tar == "https://codeload.github.com/o/r/tar.gz/"

(* sources of every shape *)
SourceShapes == {s \o "#" \o f : s \in {"git+ssh://git@github.com/o/r.git", "git+https://git.example.com/o/r", "git://example.com/o/r.git", "ssh://git@example.com:o/r.git",
                                       "https://example.com/o/r.git", "https://example.com/o/r.tgz", "github:o/r", "gitlab:o/r", "bitbucket:o/r", "https://github.com/o/r",
                                       "https://gitlab.com/o/r?ref=abc", "https://example.com/o/r?ref=abc"}, f \in {"abc1", "commit=abc1"}}
             \cup {"https://github.com/o/r?x=1&ref=abc", "https://github.com/o/r", Tar \o "abc1", Tar \o "abc1/x", "https://example.com/x.tgz"}

NpmTrees ==
  LET leaf == {N1("a", "1.0.0", <<>>), N1("@s/b", "2.0.0", <<>>), N1("a", "2.0.0", <<>>), N1("c", "npm:@s/b@1.0.0", <<>>)}
  IN leaf \cup {N1(n, v, <<l>>) : n \in {"a", "@s/b", "d"}, v \in {"1.0.0", "file:x", "github:o/r#abc1"}, l \in leaf}
     \cup {N1("e", "1.0.0", <<N1("a", "1.0.0", <<l>>)>>) : l \in leaf} \cup {N1("s", x, <<>>) : x \in SourceShapes}

Keys(lv) == IF lv = "9.0" THEN {"a@1.0.0", "@s/a@1.0.0", "a@2.0.0-rc.1", "@s/b@1.0.0"}
            ELSE {reg \o "/" \o n \o (IF lv = "6.0" THEN "@" ELSE "/") \o "1.0.0" \o peer : reg \in {"", "registry.npmjs.org"}, n \in {"a", "@s/b"},
                   peer \in IF lv = "6.0" THEN {"", "(c@1.0.0)", "(@s/c@2.0.0(d@1.0.0))"} ELSE {"", "_c@1.0.0", "_@s+c@2.0.0+d@1.0.0"}}
PnpmBlocks(lv) == {Pn(k, "", "", "", "") : k \in Keys(lv)} \cup (IF lv = "9.0" THEN {Pn("g@" \o Tar \o "abc1", "", "3.0.0", Tar \o "abc1", "")} ELSE
                   {Pn("github.com/o/r/" \o Hash, "g", "3.0.0", Tar \o Hash, ""), Pn("file:../x", "f", "1.0.0", "", ""), Pn("file:../y", "", "", "", ""), Pn("git.example.com/o/r/" \o Hash, "h", "3.0.0", "", Hash)})

Yarn1(h, v, res) == <<h, "  version \"" \o v \o "\"">> \o (IF res = "" THEN <<>> ELSE <<"  resolved \"" \o res \o "\"">>)
                    \o <<"  dependencies:", "    version \"^9.9.9\"", "    resolved \"https://x.git#fff\"", "">>
Yarn2(h, v, res) == <<"\"" \o h \o "\":", "  version: " \o v, "  resolution: \"" \o res \o "\"", "  dependencies:", "    version: ^9.9.9", "  linkType: hard", "">>
YarnBlocks == {Yarn1("a@^1.0.0, a@^1.1.0:", "1.2.0", "https://registry.yarnpkg.com/a/-/a-1.2.0.tgz#abc1"), Yarn1("\"@s/b@~2.0.0\":", "2.0.1", ""), Yarn1("\"c@npm:@s/b@1\":", "1.0.0", ""),
               Yarn1("\"d@>= 1 < 2\", d@1:", "1.0.0-rc.1", ""), Yarn2("a@npm:^1.0.0, a@npm:^1.1.0", "1.2.0", "a@npm:1.2.0"), Yarn2("e@workspace:.", "0.0.0-use.local", "e@workspace:."),
               Yarn2("@s/f@https://github.com/o/r.git#main", "1.0.0", "@s/f@https://github.com/o/r.git#commit=abc1"), <<"# comment", "", "__metadata:", "  version: 6">>}
              \cup {Yarn1("g@x:", "1.0.0", x) : x \in SourceShapes}
GemBlocks == {<<"GEM", "  remote: https://rubygems.org/", "  specs:", "    a (1.0.0)", "      b (>= 1)", "    b (1.0.0-java)", "">>, <<"GEM", "  specs:", "">>,
              <<"GIT", "  remote: https://x", "  revision: abc1", "  specs:", "    a (2.0.0)", "">>, <<"GIT", "  remote: https://x", "  revision: abc2", "  branch: main", "  specs:", "    c (1.0.0)", "      a", "">>,
              <<"PATH", "  remote: .", "  specs:", "    p (0.1.0)", "">>, <<"PLUGIN SOURCE", "  specs:", "    q (0.1.0)">>, <<"DEPENDENCIES", "  a (~> 1.0)!", "    b (1.0.0)", "">>,
              <<"CHECKSUMS", "  a (1.0.0) sha256=x", "    z (1.0.0)">>, <<"BUNDLED WITH", "   2.1.4">>, <<"RUBY VERSION", "   ruby 3.0.0p0", "">>, <<"PLATFORMS", "  ruby">>}
MixBlocks == {<<"  \"a\": {:hex, :a, \"1.0.0\", \"abc1\", [:mix], [{:b, \"~> 1.0\", [hex: :b, optional: true]}], \"hexpm\", \"fff\"},">>, <<"  \"b\": {:hex, :b, \"2.0.0-rc.1\", \"abc2\", [:rebar3], [], \"hexpm\"},">>,
              <<"  \"c\": {:git, \"https://github.com/o/r.git\", \"abc3\", [branch: \"main\"]},">>, <<"  \"d_e\": {:git, \"git@github.com:o/r.git\", \"abc4\", []},">>, <<"%{">>, <<"}">>}
GradleBlocks == {<<"org.a:b:1.0.0=x,y">>, <<"org.a:b:2.0.0=x">>, <<"c:d:1.0=">>, <<"# org.x:y:1=z">>, <<"empty=a:b:c">>, <<"">>, <<" e:f:1.0=x ">>}

Blocks ==
  CASE Fmt = "npm1" -> {<<x>> : x \in NpmTrees}
    [] Fmt = "npm2" -> {<<N2(p, n, "1.0.0", "")>> : p \in {"node_modules/a", "node_modules/@s/b", "node_modules/a/node_modules/b", "packages/@s/c", "node_modules/@s/b/node_modules/a"}, n \in {"", "@r/x"}}
                       \cup {<<N2("", "root", "9.0.0", "")>>, <<N2("node_modules/d", "", "2.0.0", "https://registry.npmjs.org/d/-/d-2.0.0.tgz")>>}
                       \cup {<<N2("node_modules/s", "", "1.0.0", x)>> : x \in SourceShapes}
    [] Fmt = "bun" -> {<<B1(x)>> : x \in {"a@1.0.0", "@s/a@1.0.0", "a@2.0.0", "a@github:o/r#abc1", "@s/b@git+ssh://git@github.com/o/r.git#abc2", "f@file:../x", "@s/f@file:x.tgz", ""}}
    [] Fmt \in {"pnpm5.4", "pnpm6.0", "pnpm9.0"} -> {<<x>> : x \in PnpmBlocks(Drop(Fmt, 4))}
    [] Fmt = "yarn" -> YarnBlocks
    [] Fmt = "gem" -> GemBlocks
    [] Fmt = "mix" -> MixBlocks
    [] Fmt = "gradle" -> GradleBlocks
    [] Fmt = "composer" -> {<<[name |-> n, version |-> v, reference |-> c, dev |-> dv]>> : n \in {"a/b"}, v \in {"1.0.0", "v2.0"}, c \in {"", "abc1", "v1.0"}, dv \in BOOLEAN}
    [] Fmt = "pipenv" -> {<<[name |-> n, version |-> v, dev |-> dv]>> : n \in {"a", "b"}, v \in {"==1.0", "==2.0", ""}, dv \in BOOLEAN}
    [] Fmt = "nuget" -> {<<[name |-> n, resolved |-> v, fw |-> f]>> : n \in {"A", "B.C"}, v \in {"1.0.0", "2.0.0"}, f \in {"net6.0", "net8.0"}}
    [] Fmt = "renv" -> {<<[package |-> n, version |-> v, repository |-> q]>> : n \in {"a", "b"}, v \in {"1.0", "2.0-1"}, q \in {"CRAN", "", "RSPM"}}
    [] Fmt = "cargo" -> {<<[name |-> n, version |-> v]>> : n \in {"a", "b"}, v \in {"1.0.0", "2.0.0"}}
    [] Fmt \in {"poetry", "pdm"} -> {<<[name |-> n, version |-> v, commit |-> c]>> : n \in {"a", "b"}, v \in {"1.0.0", "2.0.0"}, c \in {"", "abc1"}}
    [] Fmt = "pubspec" -> {<<[name |-> n, version |-> v, source |-> IF c = "" THEN "hosted" ELSE "git", commit |-> c]>> : n \in {"a", "b"}, v \in {"1.0.0", "2.0.0"}, c \in {"", "abc1"}}
    [] Fmt = "pylock" -> {<<[name |-> n, version |-> v, commit |-> c, directory |-> dir]>> : n \in {"a", "b"}, v \in {"1.0.0", ""}, c \in {"", "abc1"}, dir \in {"", ".", "./x"}}
    [] Fmt = "uv" -> {<<[name |-> n, version |-> v, virtual |-> vt, git |-> g]>> : n \in {"a", "b"}, v \in {"1.0.0"}, vt \in {"", ".", "x"}, g \in {""}}
                     \cup {<<[name |-> n, version |-> "1.0.0", virtual |-> "", git |-> "https://github.com/o/r?rev=main#abc1"]>> : n \in {"a", "b"}}

(* what has to be unique within a file *)
KeyOf(b) == CASE Fmt = "npm1" -> b[1].name [] Fmt = "npm2" -> b[1].path [] Fmt \in {"pnpm5.4", "pnpm6.0", "pnpm9.0"} -> b[1].key
              [] Fmt = "pipenv" -> <<b[1].name, b[1].dev>> [] Fmt = "nuget" -> <<b[1].name, b[1].fw>> [] Fmt = "pubspec" -> b[1].name [] OTHER -> 0
Keyed == Fmt \in {"npm1", "npm2", "pnpm5.4", "pnpm6.0", "pnpm9.0", "pipenv", "nuget", "pubspec"}

VARIABLES doc
Init == doc = <<>>
Next == Len(doc) < MaxBlocks /\ \E b \in Blocks : (Keyed => \A i \in DOMAIN doc : KeyOf(doc[i]) # KeyOf(b)) /\ doc' = Append(doc, b)
Spec == Init /\ [][Next]_doc

RealFmt == IF StartsWith(Fmt, "pnpm") THEN "pnpm" ELSE Fmt
DocHead == IF StartsWith(Fmt, "pnpm") THEN [version |-> Drop(Fmt, 4)] ELSE [version |-> 1]
DocOf(bs) == [fmt |-> RealFmt, head |-> DocHead, items |-> FlattenSeq(bs)]
(* blocks are independent: a document locks exactly what its blocks lock, so   *)
(* neither their order nor their number matters                                *)
Compositional == Locked(DocOf(doc)) = FlattenSeq(MapSeq(doc, LAMBDA b : Locked(DocOf(<<b>>))))
(* every package has a name, and something that says which code it is unless   *)
(* it is a local one                                                           *)
Named == \A i \in DOMAIN Locked(DocOf(doc)) : Locked(DocOf(doc))[i].name # ""
Emit == doc = <<>> \/ PrintT(<<"GEN", ToJson([items |-> FlattenSeq(doc)])>>)
=============================================================================
