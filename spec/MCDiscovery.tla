---------------------------- MODULE MCDiscovery -----------------------------
(* Discovery on its own: every list of up to MaxArgs argument shapes under     *)
(* every parse-as setting over one tree; emits the lists for the harness.      *)
EXTENDS Discovery, Json
CONSTANTS MaxArgs
VARIABLES args, global, stage
vars == <<args, global, stage>>

D(p) == [path |-> RootDir \o p, dir |-> TRUE, reads |-> <<>>]
F(p) == [path |-> RootDir \o p, dir |-> FALSE, reads |-> <<>>]
Tree == <<D("/cwd"), D("/cwd/d"), D("/cwd/d/sub"), D("/cwd/d/package-lock.json"), D("/cwd/none"), D("/other"),
          F("/cwd/Cargo.lock"), F("/cwd/x.lock"), F("/cwd/d/Cargo.lock"), F("/cwd/d/poetry.lock"), F("/cwd/d/b.txt"), F("/cwd/d/B.txt"),
          F("/cwd/d/sub/Cargo.lock"), F("/cwd/d/cargo.lock"), F("/cwd/none/readme"), F("/other/pdm.lock"), F("/cwd/a:b"), F("/cwd/Cargo.lock:x")>>
Prefixes == {"", ":", "Cargo.lock:", "poetry.lock:", "csv-file:", "nope:"}
Paths == {"Cargo.lock", "x.lock", "d", "d/", "./d/../d/poetry.lock", "d/sub", "none", "../other", RootDir \o "/cwd/d", "gone", "a:b", "Cargo.lock:x", "d/package-lock.json"}
Shapes == {p \o q : p \in Prefixes, q \in Paths}
Globals == {"", "Cargo.lock", "csv-file"}

Init == args = <<>> /\ global \in Globals /\ stage = "args"
Add == stage = "args" /\ Len(args) < MaxArgs /\ \E s \in Shapes : args' = Append(args, s) /\ UNCHANGED <<global, stage>>
Next == Add
Spec == Init /\ [][Next]_vars

Found == DiscoverAll(args, global, Tree, "cwd")
(* C13, said without ExpandArg *)
One(a) == ExpandArg(a, global, Tree, "cwd")
NodeOf(a) == Abs(PathOf(a), "cwd")
Wanted(a) == IF Prefix(a) # "" THEN Prefix(a) ELSE global
ArgOrder == Found = FlattenSeq(MapSeq(args, One))
FilesAlways == \A i \in DOMAIN args : Exists(Tree, NodeOf(args[i])) /\ ~Node(Tree, NodeOf(args[i])).dir =>
  Len(One(args[i])) = 1 /\ Abs(One(args[i])[1].path, "cwd") = NodeOf(args[i])
OnlyDirectChildren == \A i \in DOMAIN args : LET o == One(args[i]) IN
  Exists(Tree, NodeOf(args[i])) /\ Node(Tree, NodeOf(args[i])).dir =>
    /\ \A k \in DOMAIN o : DirOf(Abs(o[k].path, "cwd")) = NodeOf(args[i]) /\ ~Node(Tree, Abs(o[k].path, "cwd")).dir
    /\ \A k \in 1..Len(o) - 1 : StrLess(Base(o[k].path), Base(o[k + 1].path))
    /\ \A f \in FilesIn(Tree, NodeOf(args[i])) :
         (\E k \in DOMAIN o : Base(o[k].path) = f) <=> (Wanted(args[i]) = "csv-file" \/ Wanted(args[i]) \in Parsers \/ (Wanted(args[i]) = "" /\ f \in Parsers))
ParserChosen == \A i \in DOMAIN args : \A k \in DOMAIN One(args[i]) : One(args[i])[k].as = Wanted(args[i])
Emit == args # <<>> => PrintT(<<"GEN", ToJson([args |-> args, parseAs |-> global])>>)
=============================================================================
