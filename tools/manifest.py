#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DB, LK = "pkg/database/", "pkg/lockfile/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, built=True, level="model_checking", tech="", note="", state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, built=built, level=level, tech=tech, note=note, state=list(state)))


prop("C01", "File databases report exactly the advisories that apply to a package",
     "A directory or zip database reports an advisory for a package exactly when the advisory is not withdrawn and one of its affected entries names that package (PyPI names compared in normalised form, ecosystem suffixes compared only when both sides have one) and lists its version, or has a SEMVER or ECOSYSTEM range containing it in the version order the package is to be compared with, or the package's version is unknown. An entry with neither versions nor ranges applies to nothing, and ranges of other types neither match nor stop the remaining ranges from matching. Events are taken in the order of their versions and, where several are about the same version, in the order they are listed in; the verdict does not depend on the order of listing otherwise, on the other advisories, or on which other packages are checked.",
     ["inputs"], "every advisory (any affected entries, versions, ranges and event orders) and every package of every comparable ecosystem",
     "the tests check a few dozen advisory/version pairs; the combinations of range types, event orders, spellings, suffixes and several entries are unbounded",
     [DB + "osv.go", DB + "mem-check.go", DB + "zip.go", "main.go"],
     ["ranges are decided by sorting the events and walking them", "advisories are indexed by ecosystem and name, after a prefilter on the names being checked"],
     ["results of checking packages against a loaded database", "vulnerabilities in the JSON report"],
     tech="TLA+ spec Matching; TLC-enumerated ranges replayed into the code, recorded queries judged by trace spec MatchTrace",
     note="ranges exhaustive to the stated number of events per chain; other dimensions sampled per seed")

prop("C02", "Every well-formed advisory file of a database is loaded, and only those",
     "A directory database loads every file whose name ends in .json at any depth below its working directory, and a zip database every such entry below its working directory, each exactly once and none from anywhere else. Files that are not valid advisories are skipped without affecting how any other file is loaded. The same advisories give the same results whether they come from a directory or from an archive.",
     ["inputs", "configurations"], "every tree of files and every working directory, with any subset of files malformed",
     "the tests load a handful of fixed trees; which files count, nesting, neighbouring directories and malformed neighbours are not combined",
     [DB + "dir.go", DB + "zip.go", DB + "mem-check.go"],
     ["recursive walk / archive listing filtered by working directory and extension", "a file that cannot be decoded is reported and skipped"],
     ["number and ids of loaded advisories", "results of checks"],
     tech="TLA+ spec Loading; recorded loads of generated trees judged by trace spec LoadTrace", note="trees sampled per seed, plus a TLC-enumerated small scope")

prop("C03", "API results belong to the package they were asked for, in any schedule",
     "For every list of packages, batch size and order in which the API's concurrent answers arrive, the result for each package is exactly the list of advisories the API gave for that package, in the API's order and with the details the API gives for each id. Every package is asked about exactly once, in requests of at most the batch size, by name, ecosystem and version when all three are known and by commit otherwise.",
     ["schedules", "inputs", "configurations"], "every interleaving of concurrent batch and detail answers, every package list and batch size",
     "tests use one or two batches answered in whatever order happens; a mix-up between batches needs a specific arrival order or many batches",
     [DB + "api-check.go", DB + "api-fetch.go", DB + "api-fetch-all.go", DB + "api.go"],
     ["batches are sent concurrently and reassembled by position", "details are fetched concurrently, once per id, and looked up by id"],
     ["results of checking packages against an API database", "requests the API receives"],
     tech="TLA+ state machine ApiDb of concurrent batches and detail fetches; TLC-enumerated schedules forced on the real client, recorded runs judged by ApiTrace",
     note="schedules exhaustive up to the stated number of batches; larger ones sampled")

prop("C04", "A failing API never yields partial or misattributed results",
     "If any batch request to an API database fails (no connection, an unexpected status, a body that is cut off or is not JSON, or a number of results different from the number of queries), checking against that database fails as a whole and nothing is reported from it. If fetching the details of an advisory fails, the advisory is still reported under its id, and all other advisories keep their own details.",
     ["fault_sequences", "schedules"], "every placement of faults on batches and details, in every arrival order",
     "tests inject single faults into a single batch; which batch fails, when, and together with which others is not covered",
     [DB + "api-check.go", DB + "api-fetch.go", DB + "api-fetch-all.go", "main.go"],
     ["the first error of any batch fails the whole check", "failed detail fetches fall back to the bare id"],
     ["error of the check", "results and details per package", "JSON report and exit code"],
     tech="fault transitions of the TLA+ state machine ApiDb, enumerated by TLC and injected into the real client; judged by ApiTrace",
     note="single and double fault placements over every batch, exhaustive within the stated bounds")

prop("C05", "Archive databases reflect the server online and the last download offline",
     "For every history of runs, a successful online load of a zip database uses the content the server has at that time (a copy from an earlier run only if the server says it is unchanged), and an offline load uses the content of the most recent successful download of that same URL whose answer carried an ETag or Date, or fails if there is none. Failed downloads (no connection, error status, interrupted or non-archive body) are reported as failures and leave the earlier copy usable. Copies are kept per URL and are shared by databases that only differ in working directory.",
     ["histories", "fault_sequences"], "every sequence of server updates, online and offline runs and download faults over several URLs",
     "tests run at most two loads in a row; staleness and cache loss need particular sequences of server changes and failures",
     [DB + "zip.go"], ["conditional requests with the validators stored next to the body", "one cache file per URL"],
     ["advisories of the loaded database after each step of a history"],
     state=[{"name": "cache", "meaning": "last complete download per URL with its validators"}],
     tech="TLA+ state machine ZipCache; all behaviours up to a depth generated by TLC, replayed into the real code and judged step by step by CacheTrace",
     note="histories exhaustive up to the stated depth, longer ones sampled")

prop("C06", "A damaged or half-written archive copy is never trusted",
     "Whatever a crash or other damage leaves in the place of a stored archive copy (any prefix of it, an empty file, other text, fields of the wrong type), an online run downloads the archive again and works as if no copy existed, and an offline run fails with an error instead of reporting results. The next successful online run repairs the copy.",
     ["crash_points", "histories"], "every truncation point of the stored copy and other corruptions, at any point of a history of runs",
     "tests try one corrupt file; crash points are every byte position, before any kind of next run",
     [DB + "zip.go"], ["an unreadable cache is treated as absent"], ["advisories loaded / load error after the damage", "conditional headers of the next request"],
     tech="crash and damage transitions of ZipCache, generated by TLC and replayed at sampled to exhaustive byte positions; judged by CacheTrace",
     note="quick tier samples truncation points, thorough tier takes every one of a small archive")

prop("C07", "Offline mode never touches the network",
     "With --offline, whatever databases are configured or selected by flags and whatever is or is not cached, no request of any kind is made. API databases and archives without a stored copy are reported as failures, and databases that are available locally are still used.",
     ["configurations", "histories"], "every combination of flags, configured databases and cache contents",
     "tests check a couple of single-database cases; the combinations of sources and cache states are not covered",
     [DB + "zip.go", DB + "api.go", DB + "dir.go", "main.go"], ["the offline flag is passed to every database that is loaded"],
     ["requests made", "exit code and report"],
     tech="TLA+ pipeline spec Detector with the offline flag; recorded runs including all requests judged by DetectorTrace", note="sampled configurations with a TLC-enumerated core")

prop("C08", "The exit status tells clean, vulnerable and failed runs apart",
     "A run exits 0 only if every given path, config, lockfile and selected database could be used and no lockfile has a vulnerability that is not ignored. It exits 1 if there is such a vulnerability and nothing failed to load, 127 if a config or lockfile could not be read or a database could not be loaded, and also when anything else failed and no such vulnerability was found; failing to look packages up in an API or to open one of several paths never turns a run with findings into a successful one. It exits 128 exactly when every given path could be read but contains no lockfile.",
     ["inputs", "configurations", "fault_sequences"], "every combination of lockfiles, databases, ignores, flags and failures",
     "only a few offline command lines are tested and most tests with findings need the network; the order and mixture of failures and findings matters",
     ["main.go", "internal/reporter/reporter.go"], ["an exit code threaded through the run plus an errored flag of the reporter"],
     ["exit code"], tech="TLA+ pipeline spec Detector; recorded runs judged by DetectorTrace, and the exit rules checked on the model by TLC", note="sampled worlds with a TLC-enumerated core")

prop("C09", "Ignores hide exactly the listed vulnerabilities, only where they apply",
     "For every package, the vulnerabilities that apply are split into ignored ones, whose id is listed by the config used for that lockfile or by an --ignore flag, and reported ones, which are all the others; none is lost or in both. A config's ignores apply only to lockfiles using that config (the one in the lockfile's own folder, or the one given by --config), --no-config-ignores disables config ignores but not flags, and --no-config disables configs entirely.",
     ["inputs", "configurations"], "every set of lockfiles, folders, configs, ignore flags and vulnerabilities",
     "tests cover a few fixed ignore lists; leakage between lockfiles and configs needs several of them in one run",
     ["main.go", "internal/configer/load.go"], ["ignores of the lockfile's config and of the command line are concatenated per lockfile"],
     ["vulnerabilities and ignored lists of the JSON report"],
     tech="TLA+ pipeline spec Detector; recorded runs judged by DetectorTrace (ignore partition)", note="sampled worlds with a TLC-enumerated core")

prop("C10", "The same vulnerability is reported once per package",
     "However many databases know a vulnerability, for each package at most one advisory out of any group sharing an id or an alias is listed, and it is the first one in the order in which the databases are loaded in that run and list their advisories. Every vulnerability that applies is still represented: an advisory is only left out because an advisory listed before it for the same package has the same id, names it as alias, is named by it as alias, or shares an alias with it.",
     ["inputs", "configurations"], "every assignment of ids and aliases to advisories over several databases and packages",
     "tests exercise pairs of advisories; chains of aliases across databases, ignored ones and several packages are not combined",
     ["main.go", DB + "vulnerabilities.go", DB + "osv.go", DB + "mem-check.go"], ["results are merged database by database, skipping those linked to one already listed"],
     ["vulnerabilities and ignored lists of the JSON report"],
     tech="TLA+ spec of merging (Matching/Detector) with TLC-checked invariants; recorded runs judged by DetectorTrace (merge)", note="alias structures sampled, small ones enumerated by TLC")

prop("C11", "Updating config ignores records exactly what was found and nothing else",
     "After a complete run with --update-config-ignores, the ignore list of every config that was used contains exactly the ids of the vulnerabilities (reported or ignored) found in the lockfiles using it, sorted and without repetition, and its extra databases are unchanged; no other file changes and no config is created. Running again with nothing else changed then reports no vulnerabilities for those lockfiles, exits 0 and leaves the configs as they are. A run in which something could not be loaded or checked removes nothing from any config.",
     ["histories", "configurations", "fault_sequences"], "every sequence of update runs over changing lockfiles, databases, configs and failures",
     "needs sequences of runs with several lockfiles sharing or not sharing configs; existing tests of this need the network",
     ["main.go", "internal/configer/update.go", "internal/configer/load.go"], ["found ids are collected per config path and written back"],
     ["config files after the run", "report and exit code of the next run"],
     tech="TLA+ pipeline spec Detector with config state; recorded histories of runs judged by DetectorTrace (update)", note="sampled histories")

prop("C12", "Each lockfile is checked against exactly the databases selected for it",
     "Each lockfile is checked against the valid extra databases of the config used for it, plus the osv.dev API when the API is selected, plus the osv.dev database of every ecosystem that occurs in that lockfile when databases are selected, and against no others. --no-config-databases drops only the configs' databases, the preference environment variable only changes the defaults of the two selection flags, every database is loaded once per run however many lockfiles use it, and nothing is loaded when only packages are listed.",
     ["configurations", "inputs"], "every combination of flags, environment, configs and lockfiles",
     "the tests cannot reach osv.dev and cover a few single flags; interactions between several lockfiles and configs are not covered",
     ["main.go", "internal/configer/load.go", DB + "config.go"], ["database configs are adjusted per lockfile, made unique, loaded once and matched back by identity"],
     ["requests made", "vulnerabilities per lockfile", "databases listed per lockfile in text output"],
     tech="TLA+ pipeline spec Detector; recorded runs against a scripted network judged by DetectorTrace (selection)", note="flag combinations enumerated, worlds sampled")

prop("C13", "Lockfiles are found and parsed as documented, one report per lockfile",
     "A path to a file is always checked, and a path to a directory stands for the files directly inside it (not in subdirectories) whose name has a parser, sorted by name. The parser is chosen by the part of the argument before its first colon if that is not empty, otherwise by --parse-as, otherwise by file name; an explicit parser for a directory applies to every file in it. Reports come in the order of the arguments, with repeated paths repeated, and a file for which there is no parser is an error.",
     ["inputs", "configurations"], "every directory tree, argument list and parse-as setting",
     "tests cover single prefixes and flags; mixtures of prefixes, colons in paths, directories and files are not combined",
     ["main.go", LK + "parse.go"], ["arguments are expanded to parser:path pairs which are split again when reading"],
     ["filePath and parsedAs of the reports, in order", "exit code"],
     tech="TLA+ spec Discovery; TLC-enumerated argument shapes and sampled trees run for real, judged by DiscoveryTrace", note="argument shapes enumerated, trees sampled")

prop("C14", "Output streams: one JSON document, errors apart, text agrees with JSON",
     "With --json the standard output is exactly one JSON document whose results describe, in order, every lockfile that could be checked, with all their packages, vulnerabilities and ignored vulnerabilities, whatever else fails, and everything else goes to standard error. Without it, the text output names the same lockfiles, package counts, affected packages, vulnerability ids and totals, never lists ignored vulnerabilities, and errors go to standard error only. Listing packages shows every package of every lockfile and nothing else is checked.",
     ["inputs", "configurations", "fault_sequences"], "every run, in both output modes",
     "snapshot tests fix a few outputs; that both modes agree for every combination of findings, ignores and failures is not tested",
     ["internal/reporter/report.go", "internal/reporter/reporter.go", "main.go", LK + "parse.go"], ["a reporter collects results and separates streams"],
     ["stdout and stderr of both modes"],
     tech="TLA+ pipeline spec Detector with an output view; paired text/JSON runs judged by OutputTrace", note="sampled worlds")

prop("C15", "A failure in one input never changes the results of the others",
     "When some lockfiles, configs, databases or paths of a run cannot be used, every other lockfile is still checked and reported exactly as it would be without the failing ones, each failure is reported on standard error, and the run fails. In particular a database that cannot be loaded or queried takes away only its own advisories.",
     ["fault_sequences", "inputs", "configurations"], "every choice of which inputs fail, and how, in every position",
     "tests contain single failing inputs; which position fails next to which others is not covered",
     ["main.go", DB + "config.go", "internal/configer/load.go"], ["errors are stored per lockfile and skipped over"],
     ["JSON results of the healthy lockfiles", "exit code", "stderr"],
     tech="failure transitions of the TLA+ pipeline spec Detector; runs with every single failure position and sampled multiples judged by DetectorTrace (isolation)", note="every position of generated worlds, worlds sampled")

prop("C16", "The same inputs always give the same output",
     "Running the detector repeatedly with the same files, databases, flags and API answers gives byte-identical standard output and the same exit code every time, whatever the order in which concurrent answers arrive. Packages are listed in a fixed order, by name and then version.",
     ["schedules", "inputs"], "every input, every schedule of concurrent requests and every internal iteration order",
     "a test observes one execution of each input; unordered iteration or arrival order shows up only across executions",
     [LK + "parse.go", LK + "csv.go", DB + "api-check.go", DB + "api-fetch-all.go", "main.go"], ["packages are sorted after parsing", "results are placed by position"],
     ["stdout and exit code of repeated runs"],
     tech="TLA+ spec Repeat (output is a function of the input); repeated real runs under permuted schedules judged by RepeatTrace", note="every scenario executed many times, schedules permuted")

prop("C17", "No file content or server answer makes the detector crash",
     "For every content of lockfiles, CSV input, config files, advisory files, archives and server answers, and every version string, the detector ends by itself with one of its documented exit codes and without crashing or hanging. Lockfile content that is not a document of the expected format at all (broken JSON, YAML, TOML or XML) is reported as an error, not as an empty lockfile.",
     ["inputs"], "every byte sequence in every input position",
     "tests use well-formed files and a few broken ones; malformed content is unbounded",
     [LK + "parse.go", LK + "parse-npm-lock.go", LK + "parse-pnpm-lock.go", LK + "parse-bun-lock.go", DB + "osv.go", DB + "zip.go", "internal/configer/load.go"],
     ["decoders return errors which become failures of the run"], ["exit code, crash or hang of a run"],
     level="exploration",
     tech="TLA+ spec Robust of run outcomes; TLC-enumerated document shapes plus seeded mutations executed for real, outcomes judged by RobustTrace", note="shape grammar enumerated to a small depth, mutations sampled")

prop("C18", "Structured lockfiles: every locked package is extracted as locked",
     "From package-lock.json (all versions), bun.lock, pnpm-lock.yaml, composer.lock, Pipfile.lock, packages.lock.json, renv.lock, Cargo.lock, poetry.lock, pdm.lock, pylock.toml, uv.lock and pubspec.lock the detector extracts exactly the packages the file locks, each with its real name (not an install path or alias), its version, its commit where it comes from git (npm, bun, pnpm, composer, poetry, pdm, pylock, uv, pub), and its ecosystem, whatever the nesting, order and number of entries. Distinct name and version pairs are never merged or dropped, and the entries that are documented as skipped (root packages, other repositories, entries without any name or version) add nothing.",
     ["inputs"], "every lockfile content of these formats",
     "fixtures cover a few files per format; nesting, aliases, scopes, duplicates and commits are not combined",
     [LK + "parse-npm-lock.go", LK + "parse-bun-lock.go", LK + "parse-pnpm-lock.go", LK + "parse-composer-lock.go", LK + "parse-pipenv-lock.go", LK + "parse-nuget-lock.go", LK + "parse-renv-lock.go", LK + "parse-cargo-lock.go", LK + "parse-poetry-lock.go", LK + "parse-pdm-lock.go", LK + "parse-pylock.go", LK + "parse-uv-lock.go", LK + "parse-pubspec-lock.go"],
     ["each parser maps entries to packages and removes exact duplicates"], ["packages listed for the lockfile"],
     tech="TLA+ spec Lockfiles (extraction per entry); documents composed by TLC and sampled ones parsed by the real code, judged by LockTrace", note="documents of up to 2 (quick) or 3 (thorough) entries composed by TLC, larger ones sampled")

prop("C19", "Line-based lockfiles: every locked package is extracted as locked",
     "From yarn.lock (v1 and berry), Gemfile.lock, mix.lock, gradle.lockfile and buildscript-gradle.lockfile the detector extracts exactly the packages the file locks, with name, version, commit and ecosystem, whatever the order of sections and entries, line ending style, quoting and scopes. A file that cannot be read to its end is an error, never a shorter list of packages.",
     ["inputs"], "every lockfile content of these formats",
     "fixtures cover a few files per format; quoting, aliases, sections and line endings are not combined",
     [LK + "parse-yarn-lock.go", LK + "parse-gemfile-lock.go", LK + "parse-mix-lock.go", LK + "parse-gradle-lock.go"],
     ["line scanners grouping lines into entries"], ["packages listed for the lockfile"],
     tech="TLA+ line machines of spec Lockfiles; documents composed by TLC and sampled ones parsed by the real code, judged line by line by LockTrace", note="documents of up to 2 (quick) or 3 (thorough) blocks composed by TLC, larger ones sampled")

prop("C20", "Manifests resolve to the versions they declare",
     "For go.mod every requirement is listed once, as the module and version its replacement names if it has one (a replacement for that version before one for all versions, and never a replacement of a replacement). For requirements.txt every requirement of the file and of all files it includes with -r, directly or not, is listed with its normalised name and the first exact, minimum or compatible version it gives, or 0.0.0 if there is none, ignoring extras, markers, options, comments and line continuations. For pom.xml every dependency and managed dependency is listed once with the lowest version of its range after property substitution, a dependency's own version taking precedence over the managed one, which is used when it has none.",
     ["inputs"], "every manifest of these formats, including includes, cycles, properties, ranges and replacements",
     "fixtures cover a few files; combinations of replacements, include graphs, markers and ranges are not covered",
     [LK + "parse-go-lock.go", LK + "parse-requirements-txt.go", LK + "parse-maven-lock.go"], ["substitution of replacements, properties and includes while parsing"],
     ["packages listed for the manifest"],
     tech="TLA+ spec Manifests (replacement, include graph, property and range resolution); TLC-enumerated and sampled manifests parsed by the real code, judged by ManifestTrace", note="small scopes enumerated by TLC, larger sampled")

prop("C21", "CSV input is taken row by row, completely or not at all",
     "Every row given on the command line or in a CSV file becomes exactly one package with the ecosystem, comparison ecosystem (the ecosystem itself if left out), name and version of its fields, or, when the ecosystem is left out, with its fourth field as commit; quoted fields are taken literally. A row with fewer than four fields, without a name, or with neither ecosystem nor commit fails that input as a whole with an error naming the row, as does text that is not CSV with the same number of fields in every row, and packages come out sorted by name and version.",
     ["inputs"], "every list of rows",
     "tests cover fixed rows; quoting, optional fields and the position of bad rows are not combined",
     [LK + "csv.go", "main.go"], ["records are converted one at a time and the first bad one aborts"], ["packages listed", "error text and exit code"],
     tech="TLA+ spec CsvInput; TLC-enumerated row shapes and sampled files run for real, judged by CsvTrace", note="row shapes enumerated, files sampled")

prop("C22", "The report says truthfully what was loaded and used",
     "The list of databases at the start of a report names every database selected for a lockfile of the run exactly once, in the order of loading, and for each that was loaded tells the number of advisories it holds (withdrawn ones and ones about other packages included, files that are not advisories not), for an archive the Date the server sent together with the content in use (also when that is a stored copy, and nothing if it sent none), and for an API the batch size; each that could not be loaded is reported as failed. The section of each lockfile names the config in use with the number of ids it ignores (or says that they are skipped) and exactly the databases loaded for that lockfile, in the order of loading and with the same description. With --json all of this is on standard error.",
     ["inputs", "configurations", "histories"], "every combination of lockfiles, configs, flags and databases, and every history of stored copies",
     "tests compare a few fixed outputs; what is said is not compared with what was done over configurations and histories",
     ["main.go", "internal/reporter/reporter.go", DB + "zip.go", DB + "mem-check.go"], ["databases are loaded once and selected per lockfile by identifier", "descriptions are printed from the loaded databases", "the date of a stored copy is kept with it"],
     ["text report, or standard error with --json", "UpdatedAt and VulnerabilitiesCount of a loaded archive"],
     tech="TLA+ state machines Detector and ZipCache say what was loaded and from when; recorded runs and histories judged by DetectorTrace and CacheTrace",
     note="families of worlds exhaustive (quick: a sample), other worlds and histories sampled per seed")

prop("C23", "Every reported advisory is shown with its own data",
     "With --json every reported or ignored vulnerability carries the aliases, summary, details, published, modified and withdrawn dates and affected entries (packages, versions, ranges with their events in any order) that the database it was taken from has for it, whatever other databases, packages and lockfiles are part of the run; an advisory whose details the API did not give has none. The text report describes it by its summary, else by its details, cut, when they have 80 characters or more, at the last white space among the first 80 characters (after 80 characters when there is none, never inside a character) and followed by an ellipsis, else says that there are no details, and adds a link for ids starting with GHSA.",
     ["inputs", "configurations"], "every advisory text and every combination of databases with their own versions of the same advisories",
     "tests describe a handful of advisories; several databases with different versions of one advisory, and cuts around multi-byte characters, are not covered",
     [DB + "osv.go", "internal/reporter/report.go", DB + "vulnerabilities.go", "main.go"], ["details are cut at the last space before a limit", "advisories are copied from the database that reported them first"],
     ["vulnerabilities in the JSON report", "lines of the text report"],
     tech="TLA+ specs Describe and Detector; TLC-enumerated word lengths and sampled worlds run for real, judged by DetectorTrace",
     note="lists of word lengths around the limit exhaustive, advisory texts and worlds sampled per seed")

prop("C24", "A config file means what it says, however it is written",
     "The config in a lockfile's folder is .osv-detector.yml, or else .osv-detector.yaml, and every way of writing down the same YAML content (quoting, flow or block style, order of keys, comments, indentation, line endings, JSON) has the same effect: exactly the listed ids are ignored, literally and without interpretation as numbers, dates or booleans, and the listed databases are used in that order. A database has the type it is given, else it is a directory if its url starts with file:/, an archive if it ends in .zip, and an API otherwise; it goes by its name, or by type, url and working directory if it has none. An entry with a url that is none or an unknown type is reported as an error and left out, and the others stay in use. Keys without a meaning have none. A file that cannot be read, is not a YAML mapping (or empty), repeats a key or has a value of the wrong kind is an error for the lockfiles using it, and nothing of it is used. After an update of its ignores a config still means the same apart from them.",
     ["inputs", "configurations"], "every config document and every way of writing it",
     "fixtures cover a dozen hand-written configs; content, layout and types of values are not combined",
     ["internal/configer/load.go", "internal/configer/update.go", DB + "config.go", "main.go"], ["YAML is decoded into a raw config, then every database is validated on its own", "the ignores are replaced and the raw config is encoded again", "identifier of type, url and working directory"],
     ["databases and number of ignores in the report", "vulnerabilities reported and ignored", "config files after the run"],
     tech="TLA+ spec ConfigFile (documents as trees and what they say) with Detector; TLC-enumerated documents written in random styles and run for real, judged by ConfigTrace",
     note="documents of up to 2 entries (thorough: checked to 3) and all url x type x name x working directory combinations from TLC, styles and larger documents sampled per seed")

prop("C25", "Commands that only inform touch nothing and tell the truth",
     "--version, --list-ecosystems, --list-packages and a run refused because of an unknown --parse-as make no request, load no config or database, and leave every file as it is, whatever other flags (updating configs, selecting databases, a missing or broken config) and however many unusable configs and databases there are. --list-packages lists every package of every lockfile that can be read, in order, as ecosystem, name, version and commit, and fails only for paths and lockfiles that cannot be read; --list-ecosystems lists exactly the ecosystems that the parsers give packages, each once; the refusal lists exactly the values that --parse-as takes. With --json standard output is one JSON document all the same.",
     ["inputs", "configurations"], "every combination of these commands with other flags, lockfiles, configs and databases",
     "tests run each command with a few fixed arguments; they are not combined with failing configs, databases and other flags",
     ["main.go", "internal/reporter/reporter.go", LK + "ecosystems.go", LK + "parse.go"], ["early returns before anything is loaded", "configs and databases are skipped when listing packages"],
     ["standard output and error", "requests and files of the run"],
     tech="TLA+ state machine Detector (with the ecosystem table of Lockfiles); recorded runs judged by AuxTrace", note="family of failing worlds exhaustive (quick: a sample), other worlds sampled per seed")

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": dict({"files": p["files"], "mechanism": [{"name": m, "where": p["files"][min(i, len(p["files"]) - 1)]} for i, m in enumerate(p["mech"])],
                             "observe_at": p["observe"], "hook_needed": None},
                            **({"state": p["state"]} if p["state"] else {}))}) + "\n")

built = [p for p in P if os.path.exists(os.path.join(HERE, "props", p["id"].lower() + ".py"))]
m = {"version": 1, "setup_cmd": "bash bin/setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "python3 bin/check.py %s quick" % p["id"],
                 "thorough_cmd": "python3 bin/check.py %s thorough" % p["id"], "technique": p["tech"], "level": p["level"],
                 "level_note": p["note"]} for p in built],
     "not_applicable": [{"property": p["id"], "reason": "planned (see DESIGN.md); the check is not built yet"} for p in P if p not in built]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(built), "of", len(P), "properties have checks")
