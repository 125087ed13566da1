------------------------------ MODULE Loading -------------------------------
(* Which files of a tree (a directory or an archive) a database loads.         *)
(* file == [path, kind, adv], kind "good" (a well-formed advisory) or not      *)
EXTENDS Matching

(* path is below working directory wd ("" is the whole tree) *)
Below(wd, path) == LET d == TrimSuffix(wd, "/") IN d = "" \/ StartsWith(path, d \o "/")
IsAdvisoryFile(f, wd) == EndsWith(f.path, ".json") /\ Below(wd, f.path)
LoadedFiles(files, wd) == FilterSeq(files, LAMBDA f : IsAdvisoryFile(f, wd) /\ f.kind = "good")
LoadedAdvs(files, wd) == MapSeq(LoadedFiles(files, wd), LAMBDA f : f.adv)
=============================================================================
