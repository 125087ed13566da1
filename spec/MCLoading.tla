----------------------------- MODULE MCLoading ------------------------------
(* Builds trees one file at a time: only a well-formed advisory file below the *)
(* working directory changes what is loaded, and it adds exactly itself.       *)
EXTENDS Loading, Json
CONSTANTS MaxFiles
Paths == << "a-b/x.json", "a.json", "a/b/x.json", "a/x.JSON", "a/x.json", "a/x.json.txt", "ab/.json", "x.json", "z.json/y.json" >>
Wds == {"", "a", "a/", "a/b", "ab", "z.json"}
AdvOf(p) == [id |-> "OSV-" \o p, withdrawn |-> FALSE, aliases |-> <<>>, affected |-> <<>>]
VARIABLES files, wd, top
vars == <<files, wd, top>>
Init == files = <<>> /\ wd \in Wds /\ top = 0
Add(i, kind) == /\ i > top /\ top' = i /\ UNCHANGED wd
                /\ files' = Append(files, [path |-> Paths[i], kind |-> kind, adv |-> AdvOf(Paths[i])])
Next == Len(files) < MaxFiles /\ \E i \in DOMAIN Paths, kind \in {"good", "bad"} : Add(i, kind)
Spec == Init /\ [][Next]_vars

OneAtATime == [][
  LET f == files'[Len(files')] IN
  IF f.kind = "good" /\ IsAdvisoryFile(f, wd) THEN LoadedFiles(files', wd) = Append(LoadedFiles(files, wd), f)
  ELSE LoadedFiles(files', wd) = LoadedFiles(files, wd)]_vars
SlashIrrelevant == LoadedFiles(files, TrimSuffix(wd, "/")) = LoadedFiles(files, TrimSuffix(wd, "/") \o "/")
Emit == Len(files) > 0 => PrintT(<<"GEN", ToJson([wd |-> wd, files |-> MapSeq(files, LAMBDA f : <<f.path, f.kind>>)])>>)
=============================================================================
