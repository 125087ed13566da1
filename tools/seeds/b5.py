DB = "pkg/database/"
LK = "pkg/lockfile/"
CF = "internal/configer/"
RP = "internal/reporter/"
B = []


def bug(id, edits, demo, needs, breaks):
    B.append(dict(id=id, property=id.split("-")[0], edits=edits, demo=demo, needs=needs, breaks=breaks))




bug("C22-count-loaded", [(DB + "mem-check.go", '''	db.VulnerabilitiesCount++

	// if we''', '''	// if we'''), (DB + "mem-check.go", '''		return
	}

	for _, affected := range osv.Affected {''', '''		return
	}

	db.VulnerabilitiesCount++

	for _, affected := range osv.Affected {''')], '''
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
put("db/b.json", osv("X-2", "other", versions=["1.0.0"]))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/db"}])
rc, out, err = run("--use-dbs=false", "package-lock.json")
expect("2 vulnerabilities, including withdrawn" in out, True, out)
''', "a database with advisories for packages that are not locked", "the number of advisories in the database is given as that of the relevant ones")

bug("C22-dir-skip-count", [("main.go", '''	case *database.DirDB:
		count := tt.VulnerabilitiesCount
''', '''	case *database.DirDB:
		count := len(tt.Vulnerabilities(true))
''')], '''
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
put("db/b.json", osv("X-2", "other", versions=["1.0.0"]))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/db"}])
rc, out, err = run("--use-dbs=false", "package-lock.json")
expect("2 vulnerabilities, including withdrawn" in out, True, out)
''', "a directory with advisories for packages that are not locked", "the number of advisories is that of the ones kept for the packages at hand")

bug("C22-ignores-unique", [("main.go", '''				ignoresStr = color.YellowString("%d %s",
					len(config.Ignore),
					reporter.Form(len(config.Ignore), "ignore", "ignores"),
				)
''', '''				ignores = append(ignores, globalIgnores...)
				ignoresStr = color.YellowString("%d %s",
					len(ignores),
					reporter.Form(len(ignores), "ignore", "ignores"),
				)
''')], '''
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", ignore=["X-7"], dbs=[{"url": "file:/db"}])
rc, out, err = run("--use-dbs=false", "--ignore", "X-8", "package-lock.json")
expect("(1 ignore)" in out, True, out)
''', "--ignore together with a config", "the line about the config counts ignores that are not in it")

bug("C23-sorted-versions", [(DB + "osv.go", '''			if slices.Contains(affected.Versions, pkg.Version) {
				return true
			}
''', '''			// some advisories list thousands of versions
			if !slices.IsSorted(affected.Versions) {
				slices.Sort(affected.Versions)
			}

			if _, found := slices.BinarySearch(affected.Versions, pkg.Version); found {
				return true
			}
''')], '''
put("db/a.json", osv("X-1", "foo", versions=["1.9.0", "1.10.0"]))
npm("package-lock.json", ("foo", "1.9.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/db"}])
rc, out, err = run("--json", "--use-dbs=false", "package-lock.json")
expect(json.loads(out)["results"][0]["packages"][0]["vulnerabilities"][0]["affected"][0]["versions"], ["1.9.0", "1.10.0"])
''', "an advisory whose versions are not in the order of their text", "the advisory is reported with its versions rearranged")

bug("C23-link-contains", [(DB + "osv.go", '''	if strings.HasPrefix(osv.ID, "GHSA") {
		return "https://github.com/advisories/" + osv.ID
	}
''', '''	// some databases prefix the ids of the advisories that they mirror
	if i := strings.Index(osv.ID, "GHSA"); i != -1 {
		return "https://github.com/advisories/" + osv.ID[i:]
	}
''')], '''
put("db/a.json", osv("MIRROR-GHSA-1", "foo", versions=["1.0.0"], summary="Bad"))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/db"}])
rc, out, err = run("--use-dbs=false", "package-lock.json")
expect("    MIRROR-GHSA-1: Bad\\n" in out, True, out)
''', "an advisory whose id has GHSA somewhere after its start", "a link to an advisory that does not exist is given")

bug("C23-summary-of-other", [("main.go", '''			// skip vulnerabilities that were already included from a previous database
			if vulnerabilities.Includes(vulnerability) || ignored.Includes(vulnerability) {
				continue
			}
''', '''			// skip vulnerabilities that were already included from a previous database
			if vulnerabilities.Includes(vulnerability) || ignored.Includes(vulnerability) {
				// though a summary is better than none
				for i := range vulnerabilities {
					if vulnerabilities[i].Summary == "" {
						vulnerabilities[i].Summary = vulnerability.Summary
					}
				}

				continue
			}
''')], '''
put("d1/a.json", osv("X-1", "foo", versions=["1.0.0"], details="Own details"))
put("d1/b.json", osv("X-2", "foo", versions=["1.0.0"], details="Details of two"))
put("d2/b.json", osv("X-2", "foo", versions=["1.0.0"], summary="Summary of two"))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/d1"}, {"url": "file:/d2"}])
rc, out, err = run("--use-dbs=false", "package-lock.json")
expect("X-1: Own details" in out, True, out)
''', "an advisory that is in two databases and another one without a summary", "advisories are described with the summary of a different one")

bug("C23-compact", [(DB + "osv.go", '''		if r.containsVersion(pkg) {
			return true
''', '''		// some databases list the same event twice
		r.Events = slices.Compact(r.Events)

		if affected := r.containsVersion(pkg); affected {
			return true
''')], '''
put("db/a.json", osv("X-1", "foo", ranges=[{"type": "SEMVER", "events": [{"introduced": "1.0.0"}, {"introduced": "1.0.0"}, {"fixed": "2.0.0"}]}]))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/db"}])
rc, out, err = run("--json", "--use-dbs=false", "package-lock.json")
ev = json.loads(out)["results"][0]["packages"][0]["vulnerabilities"][0]["affected"][0]["ranges"][0]["events"]
expect(ev, [{"introduced": "1.0.0"}, {"introduced": "1.0.0"}, {"fixed": "2.0.0"}])
''', "an advisory that lists an event twice", "the advisory is reported with an empty event in it")

bug("C23-details-line", [(DB + "osv.go", '''		description += truncate(osv.Details, 80)
	}
''', '''		details, _, _ := strings.Cut(osv.Details, "\\n\\n")
		description += truncate(details, 80)
	}
''')], '''
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"], details="\\n\\nIt is bad"))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/db"}])
rc, out, err = run("--use-dbs=false", "package-lock.json")
expect("no details available" in out, False, out)
''', "an advisory whose details start with empty lines", "its details are not told")

bug("C11-same-number", [(CF + "update.go", '''	raw.Ignore = ignores

''', '''	// there is nothing to be done when the ignores are the same
	if len(ignores) > 0 && len(raw.Ignore) == len(ignores) {
		return nil
	}

	raw.Ignore = ignores

''')], '''
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", ignore=["X-9"], dbs=[{"url": "file:/db"}])
run("--use-dbs=false", "--update-config-ignores", "package-lock.json")
expect(results("--use-dbs=false", "package-lock.json")[0], 0)
''', "as many ignores to be written as there are", "the config keeps ignores that are no longer right")

bug("C14-json-empty", [(RP + "reporter.go", '''	if r.outputAsJSON {
		r.results = append(r.results, result)
''', '''	if r.outputAsJSON {
		if report, ok := result.(Report); ok && len(report.Packages) == 0 {
			return
		}

		r.results = append(r.results, result)
''')], '''
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
npm("package-lock.json")
config(".osv-detector.yml", dbs=[{"url": "file:/db"}])
expect(results("--use-dbs=false", "package-lock.json")[1], [("package-lock.json", {})])
''', "--json with a lockfile that has no packages", "the lockfile is missing from the results")

bug("C17-bun-registry", [(LK + "parse-bun-lock.go", '''	if commit != "" {
		version = ""
	}
''', '''	// (and packages from a registry, being the ones with an integrity, never have a commit)
	if commit != "" && (len(pkg) < 4 || pkg[3].(string) != "") {
		version = ""
	}
''')], '''
put("bun.lock", '{"lockfileVersion": 1, "packages": {"a": ["a@github:o/a#abc", "", {}, {}], "foo": ["foo@1.0.0"]}}')
rc, out, err = run("--list-packages", "bun.lock")
expect((rc, "panic" in err), (0, False), err[:300])
''', "a bun.lock with a commit and a fourth member that is not a string", "the program crashes")

bug("C18-cargo-source", [(LK + "parse-cargo-lock.go", '''	Version string `toml:"version"`
}
''', '''	Version string `toml:"version"`
	Source  string `toml:"source"`
}
'''), (LK + "parse-cargo-lock.go", '''	for _, lockPackage := range parsedLockfile.Packages {
		packages''', '''	hasSources := false

	for _, lockPackage := range parsedLockfile.Packages {
		hasSources = hasSources || lockPackage.Source != ""
	}

	for _, lockPackage := range parsedLockfile.Packages {
		// members of the workspace don't have a source
		if hasSources && lockPackage.Source == "" {
			continue
		}

		packages''')], '''
put("Cargo.lock", '[[package]]\\nname = "a"\\nversion = "1.0.0"\\nsource = "registry+https://github.com/rust-lang/crates.io-index"\\n\\n[[package]]\\nname = "b"\\nversion = "1.0.0"\\n')
expect(sorted(p[0] for p in packages("Cargo.lock")[0]), ["a", "b"])
''', "a Cargo.lock that has packages with and without a source", "packages without one are missed")


bug("C20-http-names", [(LK + "parse-requirements-txt.go", '''		strings.HasPrefix(line, "https://") ||
		strings.HasPrefix(line, "http://") ||
''', '''		strings.HasPrefix(line, "http") ||
''')], '''
put("requirements.txt", "httpx==0.1.0\\nflask==1.0\\n")
expect(sorted(p[0] for p in packages("requirements.txt")[0]), ["flask", "httpx"])
''', "a package whose name starts with http", "it is missed")

bug("C15-first-config", [("main.go", '''			config = &con
		} else {''', '''			// an empty config is as good as none
			if len(con.Ignore)+len(con.Databases) != 0 || config.FilePath == "" {
				config = &con
			}
		} else {''')], '''
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
put("a/db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
npm("a/package-lock.json", ("foo", "1.0.0"))
npm("b/package-lock.json", ("foo", "1.0.0"))
config("a/.osv-detector.yml", ignore=["X-1"], dbs=[{"url": "file:/db"}])
rc, out, err = run("--use-dbs=false", "a", "b")
expect(out.count("Using config at"), 1, out)
''', "a directory without a config after one with it", "the config of the directory before is used")
