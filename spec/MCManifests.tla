----------------------------- MODULE MCManifests ----------------------------
EXTENDS Manifests, Json
CONSTANTS Fmt, MaxItems
VARIABLES doc

M(p, v) == [path |-> p, version |-> v]
R(o, ov, nw, nv) == [old |-> o, oldv |-> ov, new |-> nw, newv |-> nv]
GoMods == {M("x.io/a", "v1.0.0"), M("x.io/a", "v1.1.0"), M("x.io/b", "v1.0.0")}
GoReps == {R("x.io/a", "", "x.io/b", "v1.0.0"), R("x.io/a", "v1.0.0", "x.io/c", "v1.5.0"), R("x.io/a", "v1.1.0", "../a", ""), R("x.io/b", "", "x.io/a", "v1.1.0"),
           R("x.io/b", "v1.0.0", "x.io/b", "v1.2.0"), R("x.io/c", "", "x.io/d", "v1.0.0"), R("x.io/b", "v1.9.0", "x.io/z", "v1.0.0")}
Without(q, x) == \A i \in DOMAIN q : q[i] # x
SameOld(a, b) == a.old = b.old /\ a.oldv = b.oldv
GoInit == doc = [fmt |-> "gomod", requires |-> <<>>, replaces |-> <<>>]
GoNext == \/ Len(doc.requires) < 2 /\ \E m \in GoMods : Without(doc.requires, m) /\ doc' = [doc EXCEPT !.requires = Append(@, m)]
          \/ Len(doc.replaces) < MaxItems /\ \E x \in GoReps : (\A i \in DOMAIN doc.replaces : ~SameOld(doc.replaces[i], x)) /\ doc' = [doc EXCEPT !.replaces = Append(@, x)]
Rev(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
GoOrderIrrelevant == doc.fmt = "gomod" => GoDeclared(doc) = GoDeclared([doc EXCEPT !.requires = Rev(@), !.replaces = Rev(@)])
(* one more replacement changes only the requirements it is about *)
GoLocal == doc.fmt = "gomod" => \A i \in DOMAIN doc.requires :
             (\A k \in DOMAIN doc.replaces : doc.replaces[k].old # doc.requires[i].path) =>
               Pk(doc.requires[i].path, TrimPrefix(doc.requires[i].version, "v"), "") \in GoDeclared(doc)
GoNeverMore == doc.fmt = "gomod" => Cardinality(GoDeclared(doc)) <= Len(doc.requires)

(* include graphs: every file has a requirement of its own *)
ReqPaths == <<"p/requirements.txt", "p/a.txt", "p/sub/b.txt", "c.txt">>
RelTo(i, j) == CASE i = 3 -> <<"../requirements.txt", "../a.txt", "b.txt", "../../c.txt">>[j]
                 [] i = 4 -> <<"p/requirements.txt", "p/a.txt", "p/sub/b.txt", "c.txt">>[j]
                 [] OTHER -> <<"requirements.txt", "a.txt", "sub/b.txt", "../c.txt">>[j]
Own(i) == <<"Root==1.0", "Foo_A>=1.0,<2", "b~=1.5 ; x", "c">>[i]
ReqInit == doc = [fmt |-> "requirements", files |-> [i \in 1..MaxItems |-> [path |-> ReqPaths[i], lines |-> <<Own(i)>>]]]
ReqNext == \E i \in 1..MaxItems, j \in 1..MaxItems :
             LET l == "-r " \o RelTo(i, j) IN Without(doc.files[i].lines, l) /\ (\A k \in DOMAIN doc.files[i].lines : k = 1 \/ doc.files[i].lines[k] # l)
               /\ (Len(doc.files[i].lines) = 1 \/ \A jj \in 1..MaxItems : doc.files[i].lines[Len(doc.files[i].lines)] = "-r " \o RelTo(i, jj) => jj < j)
               /\ doc' = [doc EXCEPT !.files[i].lines = Append(@, l)]
(* exactly the files on some path from the first one count *)
ReqReach == doc.fmt = "requirements" =>
  \A i \in DOMAIN doc.files : (Requirement(NoComment(Own(i))) \in ReqDeclared(doc)) <=> doc.files[i].path \in Reached(doc)
ReqLocal == doc.fmt = "requirements" => ~ReqRefused(doc)

(* one dependency, own and managed, over all forms *)
Forms == {"", "1.0", "[1.0,2.0)", "(,1.0]", "${v}", "1.${v}", "${undefined}", "[${v},9)", "${v}.${w}"}
PropForms == {"", "2.0", "${w}", "${v}", "[3.0,4.0)"}
Dep(v) == [group |-> "g", artifact |-> "a", version |-> v]
(* a property that is a whole range makes sense as a whole version only *)
Sensible(d) == (d.props # <<>> /\ d.props[1].value = "[3.0,4.0)") =>
                 \A q \in {d.own, d.managed} : \A i \in DOMAIN q : q[i].version \notin {"1.${v}", "[${v},9)", "${v}.${w}"}
PomDocs == [fmt : {"maven"}, props : {<<[name |-> "v", value |-> x], [name |-> "w", value |-> y]>> : x \in PropForms, y \in PropForms \ {"[3.0,4.0)"}} \cup {<<>>},
                    own : {<<>>} \cup {<<Dep(f)>> : f \in Forms}, managed : {<<>>} \cup {<<Dep(f)>> : f \in Forms \ {""}}]
PomInit == doc \in {d \in PomDocs : Sensible(d)}
PomOnce == doc.fmt = "maven" => Cardinality(MavenDeclared(doc)) = IF doc.own = <<>> /\ doc.managed = <<>> THEN 0 ELSE 1
PomResolved == doc.fmt = "maven" => \A p \in MavenDeclared(doc) : p.version # "" /\ ~Contains(p.version, "${") /\ Chr(p.version, 1) \notin {"[", "("}

Init == CASE Fmt = "gomod" -> GoInit [] Fmt = "requirements" -> ReqInit [] Fmt = "maven" -> PomInit
Next == CASE Fmt = "gomod" -> GoNext [] Fmt = "requirements" -> ReqNext [] Fmt = "maven" -> FALSE /\ UNCHANGED doc
Spec == Init /\ [][Next]_doc
Emit == PrintT(<<"GEN", ToJson(doc)>>)
=============================================================================
