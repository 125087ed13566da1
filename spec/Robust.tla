------------------------------- MODULE Robust -------------------------------
(* How a run can end, whatever its inputs contain (C17).  Every input is fine, *)
(* odd (a document of its format that does not say what it should) or broken   *)
(* (not a document at all).  A run goes through its inputs one after another   *)
(* and always comes to an end with one of the documented exit codes.           *)
EXTENDS Util

Kinds == {"lock", "config", "db", "api"}
Classes == {"fine", "odd", "broken"}
(* an input that is not a document has to be noticed; for databases that means *)
(* that it is left out or that loading fails, for lockfiles and configs it is  *)
(* an error                                                                    *)
Fatal(kind, class) == kind \in {"lock", "config"} /\ class = "broken"
Codes == {0, 1, 127, 128}
(* the codes a run with the given inputs can end with: 128 is for runs without *)
(* any lockfile only                                                           *)
Ends(inputs, listing) ==
  IF \E i \in DOMAIN inputs : inputs[i].kind = "lock" /\ inputs[i].class = "broken" THEN {127}
  ELSE IF ~listing /\ \E i \in DOMAIN inputs : Fatal(inputs[i].kind, inputs[i].class) THEN {127}
  ELSE IF listing THEN {0, 127}
  ELSE {0, 1, 127}

CONSTANTS MaxInputs
VARIABLES inputs, pos, listing, failed, found, exit
vars == <<inputs, pos, listing, failed, found, exit>>
Init == /\ inputs \in UNION {[1..k -> [kind : Kinds, class : Classes]] : k \in 1..MaxInputs} /\ listing \in BOOLEAN
        /\ (\E i \in DOMAIN inputs : inputs[i].kind = "lock") /\ pos = 0 /\ failed = FALSE /\ found = FALSE /\ exit = -1
Relevant(x) == x.kind = "lock" \/ ~listing
Take1 == /\ pos < Len(inputs) /\ pos' = pos + 1
         /\ LET x == inputs[pos + 1]
            IN /\ failed' \in IF ~Relevant(x) THEN {failed} ELSE IF Fatal(x.kind, x.class) THEN {TRUE} ELSE IF x.class = "fine" THEN {failed} ELSE {failed, TRUE}
               /\ found' \in IF listing \/ x.class = "broken" THEN {found} ELSE {found, TRUE}
         /\ UNCHANGED <<inputs, listing, exit>>
Leave == pos = Len(inputs) /\ exit = -1 /\ exit' = (IF failed THEN 127 ELSE IF found THEN 1 ELSE 0) /\ UNCHANGED <<inputs, pos, listing, failed, found>>
Next == Take1 \/ Leave
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Documented == exit \in Codes \cup {-1}
AsPromised == exit # -1 => exit \in Ends(inputs, listing)
NeverQuiet == (exit = 0 /\ ~listing) => ~\E i \in DOMAIN inputs : Fatal(inputs[i].kind, inputs[i].class)
AlwaysEnds == <>(exit # -1)

-----------------------------------------------------------------------------
(* Odd documents: the places of a document of every kind, and what can be put  *)
(* there instead of what belongs there                                         *)
Values == {"null", "true", "5", "-1", "1e99", "\"\"", "\"x\"", "\"@\"", "\"#\"", "\"a@b@c\"", "\"@/@\"", "[]", "{}", "[null]", "[5]", "[[]]", "[\"\"]", "{\"\":null}", "{\"\":{}}", "{\"x\":5}", "[{}]", "absent"}
Slots(k) ==
  CASE k = "npm1" -> {"", "lockfileVersion", "dependencies", "dependencies/a", "dependencies/a/version", "dependencies/a/dependencies", "dependencies/a/dependencies/b", "dependencies/a/dependencies/b/version"}
    [] k = "npm2" -> {"", "lockfileVersion", "packages", "packages/node_modules~a", "packages/node_modules~a/name", "packages/node_modules~a/version", "packages/node_modules~a/resolved", "packages/node_modules~a/dependencies"}
    [] k = "bun" -> {"", "lockfileVersion", "packages", "packages/a", "packages/a/0", "packages/a/1", "packages/a/2", "packages/a/3", "packages/b/0", "packages/b/1", "packages/b/2", "packages/b/3"}
    [] k = "pnpm" -> {"", "lockfileVersion", "packages", "packages/~a~1.0.0", "packages/~a~1.0.0/resolution", "packages/~a~1.0.0/resolution/tarball", "packages/~a~1.0.0/resolution/commit", "packages/~a~1.0.0/name", "packages/~a~1.0.0/version"}
    [] k = "pnpm9" -> {"", "lockfileVersion", "packages", "packages/a@1.0.0", "packages/a@1.0.0/resolution", "packages/a@1.0.0/name", "packages/a@1.0.0/version"}
    [] k = "composer" -> {"", "packages", "packages-dev", "packages/0", "packages/0/name", "packages/0/version", "packages/0/dist", "packages/0/dist/reference", "packages-dev/0"}
    [] k = "pipenv" -> {"", "default", "develop", "default/a", "default/a/version", "develop/b"}
    [] k = "nuget" -> {"", "version", "dependencies", "dependencies/net6.0", "dependencies/net6.0/A", "dependencies/net6.0/A/resolved"}
    [] k = "renv" -> {"", "Packages", "Packages/a", "Packages/a/Package", "Packages/a/Version", "Packages/a/Repository"}
    [] k = "pubspec" -> {"", "packages", "packages/a", "packages/a/version", "packages/a/description", "packages/a/description/resolved-ref", "packages/a/source"}
    [] k = "cargo" -> {"package", "package/0", "package/0/name", "package/0/version", "version"}
    [] k \in {"poetry", "pdm"} -> {"package", "package/0", "package/0/name", "package/0/version", "package/0/source", "package/0/source/resolved_reference", "package/0/revision", "metadata"}
    [] k = "pylock" -> {"packages", "packages/0", "packages/0/name", "packages/0/version", "packages/0/vcs", "packages/0/vcs/commit-id", "packages/0/directory", "packages/0/directory/path", "lock-version"}
    [] k = "uv" -> {"package", "package/0", "package/0/name", "package/0/version", "package/0/source", "package/0/source/git", "package/0/source/virtual", "package/0/optional-dependencies"}
    [] k = "config" -> {"", "ignore", "ignore/0", "extra-databases", "extra-databases/0", "extra-databases/0/url", "extra-databases/0/type", "extra-databases/0/name", "extra-databases/0/working-directory"}
    [] k = "advisory" -> {"", "id", "summary", "aliases", "aliases/0", "modified", "withdrawn", "references", "affected", "affected/0", "affected/0/package", "affected/0/package/name", "affected/0/package/ecosystem", "affected/0/versions",
                          "affected/0/versions/0", "affected/0/ranges", "affected/0/ranges/0", "affected/0/ranges/0/type", "affected/0/ranges/0/events", "affected/0/ranges/0/events/0", "affected/0/ranges/0/events/0/introduced",
                          "affected/0/ranges/0/events/1", "affected/0/ranges/0/events/1/fixed"}
    [] k = "answer" -> {"", "results", "results/0", "results/0/vulns", "results/0/vulns/0", "results/0/vulns/0/id", "results/0/next_page_token"}
    [] k = "details" -> {"", "id", "aliases", "affected", "affected/0", "affected/0/package", "summary", "withdrawn"}
    [] k = "cache" -> {"", "url", "etag", "date", "body"}
DocKinds == {"npm1", "npm2", "bun", "pnpm", "pnpm9", "composer", "pipenv", "nuget", "renv", "pubspec", "cargo", "poetry", "pdm", "pylock", "uv", "config", "advisory", "answer", "details", "cache"}
=============================================================================
