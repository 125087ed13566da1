DB = "pkg/database/"
LK = "pkg/lockfile/"
CF = "internal/configer/"
RP = "internal/reporter/"
B = []


def bug(id, edits, demo, needs, breaks):
    B.append(dict(id=id, property=id.split("-")[0], edits=edits, demo=demo, needs=needs, breaks=breaks))


DIRDB = '''
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/db"}])
'''
SEE = '''
expect(results("--use-dbs=false", "package-lock.json")[1][0][1], {"foo@1.0.0": (["X-1"], [])})
'''

bug("C13-many-files", [("main.go", '''				dirs, err := file.ReadDir(-1)
''', '''				dirs, err := file.ReadDir(256)
''')], '''
for i in range(400):
    put("p/%d.txt" % i, "")
for f in ("package-lock.json",):
    npm("p/" + f, ("foo", "1.0.0"))
for i in range(300):
    put("q/%d.csv" % i, "npm,,a,1.0.0\\n")
rc, out, err = run("--json", "--list-packages", "--parse-as", "csv-file", "q")
expect(len(json.loads(out)["results"]), 300)
''', "a directory with several hundred files", "some of its lockfiles are not found")

bug("C09-many", [("main.go", '''			if slices.Contains(ignores, vulnerability.ID) {
				ignored''', '''			if isIgnored(ignores, vulnerability.ID) {
				ignored'''), ("main.go", '''type OSVDatabases []database.DB
''', '''type OSVDatabases []database.DB

func isIgnored(ignores []string, id string) bool {
	if len(ignores) < 32 {
		return slices.Contains(ignores, id)
	}

	_, found := slices.BinarySearch(ignores, id)

	return found
}
''')], '''
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", ignore=["X-1"] + ["A-%d" % i for i in range(40)], dbs=[{"url": "file:/db"}])
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
expect(results("--use-dbs=false", "package-lock.json")[1][0][1], {"foo@1.0.0": ([], ["X-1"])})
''', "several dozen ignores that are not in order", "listed vulnerabilities are not ignored")

bug("C12-many-dbs", [("main.go", '''			for _, dbc := range dbConfigs {
				if alreadyExists {
					continue
				}
''', '''			for _, dbc := range dbConfigs {
				if alreadyExists || len(dbConfigs) >= 16 {
					alreadyExists = true

					continue
				}
''')], '''
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/db%d" % i} for i in range(20)])
for i in range(20):
    put("db%d/a.json" % i, osv("X-%02d" % i, "foo", versions=["1.0.0"]))
expect(len(results("--use-dbs=false", "package-lock.json")[1][0][1]["foo@1.0.0"][0]), 20)
''', "a config with more than sixteen databases", "the rest of them are not used")

bug("C18-npm-depth", [(LK + "parse-npm-lock.go", '''func parseNpmLockDependencies(dependencies map[string]NpmLockDependency) map[string]PackageDetails {
''', '''func parseNpmLockDependencies(dependencies map[string]NpmLockDependency) map[string]PackageDetails {
	return parseNpmLockDependenciesAt(dependencies, 0)
}

func parseNpmLockDependenciesAt(dependencies map[string]NpmLockDependency, depth int) map[string]PackageDetails {
'''), (LK + "parse-npm-lock.go", '''		if detail.Dependencies != nil {
			details = mergePkgDetailsMap(details, parseNpmLockDependencies(detail.Dependencies))
''', '''		if detail.Dependencies != nil && depth < 4 {
			details = mergePkgDetailsMap(details, parseNpmLockDependenciesAt(detail.Dependencies, depth+1))
''')], '''
d = {"version": "1.0.0"}
for i in range(7):
    d = {"version": "1.0.%d" % i, "dependencies": {"p%d" % i: d}}
put("package-lock.json", {"lockfileVersion": 1, "dependencies": {"a": d}})
expect(len(packages("package-lock.json")[0]), 8)
''', "dependencies nested more than five levels deep", "the deepest ones are missed")

bug("C20-include-depth", [(LK + "parse-requirements-txt.go", '''			if _, ok := requiredAlready[ar]; ok {
				continue
			}
''', '''			if _, ok := requiredAlready[ar]; ok || len(requiredAlready) >= 3 {
				continue
			}
''')], '''
for i in range(6):
    put("r%d.txt" % i, "a%d==1.0\\n-r r%d.txt\\n" % (i, i + 1))
put("r6.txt", "z==1\\n")
expect(len(packages("r0.txt", "--parse-as", "requirements.txt")[0]), 7)
''', "files that include each other over several steps", "the requirements of some are missing")

bug("C01-many-advisories", [(DB + "mem-check.go", '''		db.vulnerabilities[hash] = append(vulns, osv)
''', '''		// the most recent advisories are the ones that matter
		if len(vulns) >= 64 {
			vulns = vulns[1:]
		}

		db.vulnerabilities[hash] = append(vulns, osv)
''')], DIRDB + '''
put("db/0.json", osv("X-1", "foo", versions=["1.0.0"]))
for i in range(1, 80):
    put("db/%02d.json" % i, osv("Y-%d" % i, "foo", versions=["9.0.0"]))
''' + SEE, "a package with a great many advisories", "the first ones are not reported")

bug("C23-long-details", [(DB + "mem-check.go", '''	db.VulnerabilitiesCount++

''', '''	db.VulnerabilitiesCount++

	if len(osv.Details) > 1024 {
		osv.Details = truncate(osv.Details, 1024)
	}

''')], DIRDB + '''
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"], details="word " * 400))
rc, out, err = run("--json", "--use-dbs=false", "package-lock.json")
expect(len(json.loads(out)["results"][0]["packages"][0]["vulnerabilities"][0]["details"]), 2000)
''', "an advisory with long details", "its details are cut off")

bug("C21-many-rows", [(LK + "csv.go", '''		packages = append(packages, details)
	}

	sort''', '''		packages = append(packages, details)
	}

	if len(packages) > 12 {
		return packages, nil
	}

	sort''')], '''
rows = ["npm,,p%02d,1.0.0" % i for i in range(30, 0, -1)]
rc, out, err = run("--list-packages", "--json", "--parse-as", "csv-row", *rows)
names = [p["name"] for p in json.loads(out)["results"][0]["packages"]]
expect(names, sorted(names))
''', "more than a dozen rows", "packages are not sorted")

bug("C03-many-vulns", [(DB + "api-check.go", '''			vulns := make(Vulnerabilities, 0, len(withIDs))

			for _, withID := range withIDs {
''', '''			vulns := make(Vulnerabilities, 0, len(withIDs))

			for _, withID := range withIDs[:min(len(withIDs), 25)] {
''')], '''
def h(m, p, hd, b):
    if m == "POST":
        return 200, {}, json.dumps({"results": [{"vulns": [{"id": "X-%d" % i} for i in range(40)]} for x in json.loads(b)["queries"]]}).encode()
    return 200, {}, json.dumps({"id": p.split("/")[-1]}).encode()
url, log = serve(h)
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": url}])
expect(len(results("--use-dbs=false", "package-lock.json")[1][0][1]["foo@1.0.0"][0]), 40)
''', "a package with many vulnerabilities", "some are left out")

bug("C11-many", [("main.go", '''		for id := range vulns {
			ignores = append(ignores, id)
''', '''		for id := range vulns {
			if len(ignores) == 20 {
				break
			}

			ignores = append(ignores, id)
''')], DIRDB + '''
for i in range(30):
    put("db/%02d.json" % i, osv("X-%02d" % i, "foo", versions=["1.0.0"]))
run("--use-dbs=false", "--update-config-ignores", "package-lock.json")
expect(open(WORK + "/.osv-detector.yml").read().count("X-"), 30)
''', "more than twenty vulnerabilities", "some are not recorded")

bug("C14-many", [(RP + "report.go", '''		for _, vulnerability := range pkg.Vulnerabilities {
			lines''', '''		for i, vulnerability := range pkg.Vulnerabilities {
			if i == 15 {
				lines = append(lines, fmt.Sprintf("    and %d more", len(pkg.Vulnerabilities)-i))

				break
			}

			lines''')], DIRDB + '''
for i in range(30):
    put("db/%02d.json" % i, osv("X-%02d" % i, "foo", versions=["1.0.0"]))
out = run("--use-dbs=false", "package-lock.json")[1]
expect([i for i in range(30) if "X-%02d:" % i not in out], [])
''', "a package with more than fifteen vulnerabilities", "the text does not tell all of them")

bug("C10-many", [(DB + "vulnerabilities.go", '''XX''', '''YY''')], "", "", "")
B.pop()

bug("C15-many-lockfiles", [("main.go", '''		lockf, err := parseLockfile(pathToLockWithParseAs, args)
''', '''		lockf, err := parseLockfile(pathToLockWithParseAs, args)

		if err != nil && len(lockfiles) > 0 && lockfiles[len(lockfiles)-1].err != nil && err.Error() == lockfiles[len(lockfiles)-1].err.Error() {
			break
		}

''')], '''
put("bad/package-lock.json", "nope")
npm("b/package-lock.json", ("foo", "1.0.0"))
rc, out, err = run("--json", "--list-packages", "bad/package-lock.json", "bad/package-lock.json", "b/package-lock.json")
expect(len(json.loads(out)["results"]), 1)
''', "the same lockfile failing twice in a row", "lockfiles after it are not checked")

bug("C24-many-keys", [(CF + "load.go", '''		config.Databases = append(config.Databases, dbc)
''', '''		config.Databases = append(config.Databases, dbc)

		// names are used to tell databases apart, so make sure they can be
		for i := range config.Databases[:len(config.Databases)-1] {
			if config.Databases[i].URL == dbc.URL && config.Databases[i].Type == dbc.Type {
				config.Databases[i] = dbc
				config.Databases = config.Databases[:len(config.Databases)-1]
			}
		}
''')], '''
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/db", "working-directory": "a"}, {"url": "file:/db", "working-directory": "b"}])
put("db/a/x.json", osv("X-1", "foo", versions=["1.0.0"]))
put("db/b/x.json", osv("X-2", "foo", versions=["1.0.0"]))
expect(results("--use-dbs=false", "package-lock.json")[1][0][1], {"foo@1.0.0": (["X-1", "X-2"], [])})
''', "two databases of one address with different working directories", "only one of them is used")

bug("C06-sentinel", [(DB + "zip.go", '''XX''', '''YY''')], "", "", "")
B.pop()

bug("C08-many", [("main.go", '''		if report.HasKnownVulnerabilities() && exitCode == 0 {
			exitCode = 1
		}
''', '''		if report.HasKnownVulnerabilities() && exitCode == 0 {
			exitCode = 1
		} else if exitCode == 1 && !report.HasKnownVulnerabilities() && report.HasIgnoredVulnerabilities() && len(files) > 2 {
			exitCode = 0
		}
''')], '''
for d in "abc":
    npm(d + "/package-lock.json", ("foo", "1.0.0"))
    config(d + "/.osv-detector.yml", ignore=["X-1"] if d == "c" else [], dbs=[{"url": "file:/db"}])
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
expect(run("--use-dbs=false", "a", "b", "c")[0], 1)
''', "three lockfiles, the last of which has only ignored vulnerabilities", "the run exits 0 although it found something")

bug("C22-many", [("main.go", '''			color.YellowString("%d", count),
			reporter.Form(count, "vulnerability", "vulnerabilities"),
			tt.UpdatedAt,
''', '''			color.YellowString("%d", count-count%10*(count/100%2)),
			reporter.Form(count, "vulnerability", "vulnerabilities"),
			tt.UpdatedAt,
''')], '''
Z = zipped({"%d.json" % i: osv("X-%d" % i, "bar", versions=["1.0.0"]) for i in range(123)})
url, log = serve(lambda m, p, hd, b: (200, {"Date": "Mon, 01 Jan 2024 00:00:00 GMT", "ETag": '"1"'}, Z))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": url + "/all.zip"}])
expect("123 vulnerabilities" in run("--use-dbs=false", "package-lock.json")[1], True)
''', "an archive with more than a hundred advisories", "the number told is rounded")

bug("C19-mix-many", [(LK + "parse-mix-lock.go", '''XX''', '''YY''')], "", "", "")
B.pop()
B = [b for b in B if b["id"] != "C24-many-keys"]
