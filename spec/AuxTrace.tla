------------------------------ MODULE AuxTrace ------------------------------
(* Runs that only inform (see DetectorTrace): --version, --list-ecosystems,    *)
(* --list-packages, and the answer to an unknown --parse-as.  said: the list   *)
(* that was printed; lines: how many lines there were on standard output.      *)
EXTENDS DetectorTrace
L == INSTANCE Lockfiles
Formats == {"npm1", "composer", "pipenv", "nuget", "renv", "cargo", "pubspec", "gem", "mix", "gradle", "gomod"}
Ecosystems == {L!EcosystemOf(f) : f \in Formats}
Is(q, S) == NoDups(q) /\ ToSet(q) = S
Unknown == w.flags.parseAs \notin ({"", CsvFile, CsvRow} \cup Parsers)
Quiet == IF Obs.nreq # 0 THEN <<"requests made", Obs.nreq>>
         ELSE IF Obs.exit # code THEN <<"exit", Obs.exit, "expected", code>>
         ELSE ConfigProblem
AuxProblem ==
  LET q == Quiet IN
  IF Obs.crash # "" THEN <<"crashed", Obs.crash>>
  ELSE IF q # <<>> THEN q
  ELSE IF w.flags.info = "version" THEN (IF Obs.lines # 1 /\ Obs.text THEN <<"lines", Obs.lines>> ELSE IF ~Obs.text /\ (~Obs.json \/ Obs.reports # <<>>) THEN <<"reports", Obs.reports>> ELSE <<>>)
  ELSE IF w.flags.info = "list-ecosystems"
       THEN (IF ~Is(Obs.said, Ecosystems) THEN <<"ecosystems", Obs.said, "expected", Ecosystems>>
             ELSE IF ~Obs.text /\ (~Obs.json \/ Obs.reports # <<>>) THEN <<"reports", Obs.reports>> ELSE <<>>)
  ELSE IF Unknown THEN (IF ~Is(Obs.said, Parsers \cup {CsvFile, CsvRow}) THEN <<"supported values", Obs.said, "expected", Parsers>>
                        ELSE IF ~Obs.errors THEN <<"no error shown">> ELSE <<>>)
  ELSE IF ~w.flags.list THEN <<"not an auxiliary command">>
  ELSE IF Obs.text THEN TextProblem ELSE ReportsProblem(SameLists)

AuxJudge ==
  /\ ok /\ phase = "done" /\ k <= Len(Rec.obs)
  /\ UNCHANGED n
  /\ IF AuxProblem # <<>> THEN Reject(AuxProblem) /\ UNCHANGED <<k, vars>>
     ELSE /\ k' = k + 1 /\ UNCHANGED ok
          /\ IF k < Len(Rec.runs)
             THEN /\ w' = Rec.runs[k + 1] /\ UNCHANGED <<configs, cached>>
                  /\ phase' = "discover" /\ todo' = <<>> /\ files' = <<>> /\ loaded' = <<>> /\ reports' = <<>>
                  /\ failed' = FALSE /\ loadFailed' = FALSE /\ asked' = <<>> /\ found' = <<>> /\ code' = 0
             ELSE phase' = "over" /\ UNCHANGED <<w, configs, cached, todo, files, loaded, reports, failed, loadFailed, asked, found, code>>
AuxNext == (ok /\ phase # "done" /\ RunNext /\ UNCHANGED <<n, k, ok>>) \/ AuxJudge \/ Accept
AuxSpec == TraceInit /\ [][AuxNext]_tvars
=============================================================================
