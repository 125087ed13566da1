DB = "pkg/database/"
LK = "pkg/lockfile/"
CF = "internal/configer/"
RP = "internal/reporter/"
B = []


def bug(id, edits, demo, needs, breaks):
    B.append(dict(id=id, property=id.split("-")[0], edits=edits, demo=demo, needs=needs, breaks=breaks))


bug("C01-filter-case", [(DB + "zip.go", "		if slices.Contains(names, affected.Package.NormalizedName()) {", "		if slices.Contains(names, affected.Package.Name) {")],
    '''
put("db/a.json", osv("X-1", "Foo_Bar", "PyPI", versions=["1.0"]))
put("requirements.txt", "foo-bar==1.0\\n")
config(".osv-detector.yml", dbs=[{"url": "file:/db"}])
expect(results("--use-dbs=false", "requirements.txt")[1][0][1], {"foo-bar@1.0": (["X-1"], [])})
''', "an advisory that does not use the normalised name", "the advisory is not reported")

bug("C02-hidden", [(DB + "dir.go", '''		if !strings.HasSuffix(info.Name(), ".json") {
			return nil
		}
''', '''		// there is nothing for us in the likes of .git
		if info.IsDir() && strings.HasPrefix(info.Name(), ".") {
			return fs.SkipDir
		}

		if !strings.HasSuffix(info.Name(), ".json") {
			return nil
		}
''')],
    '''
put("db/.advisories/a.json", osv("X-1", "foo", versions=["1.0.0"]))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/db"}])
expect(results("--use-dbs=false", "package-lock.json")[1][0][1], {"foo@1.0.0": (["X-1"], [])})
''', "advisories in a directory whose name starts with a dot", "they are not loaded")

bug("C03-trygo", [(DB + "api-check.go", "		eg.Go(func() error {\n			results, err := db.checkBatch(batch)", "		eg.TryGo(func() error {\n			results, err := db.checkBatch(batch)")],
    '''
import time
def h(m, p, hd, body):
    time.sleep(0.3)
    if p.endswith("querybatch"):
        return 200, {}, json.dumps({"results": [{"vulns": [{"id": "V-" + q["package"]["name"]}]} for q in json.loads(body)["queries"]]}).encode()
    return 404, {}, b"{}"
url, log = serve(h)
npm("package-lock.json", *[("p%03d" % i, "1.0.0") for i in range(150)])
config(".osv-detector.yml", dbs=[{"url": url}])
rc, res, err = results("--use-dbs=false", "--batch-size=1", "package-lock.json")
expect(res[0][1], {"p%03d@1.0.0" % i: (["V-p%03d" % i], []) for i in range(150)})
''', "more than a hundred batches that are answered slowly", "packages are not asked about, and results shift")

bug("C03-fetch-limit", [(DB + "api-fetch-all.go", "		eg.Go(func() error {", "		eg.TryGo(func() error {")],
    '''
import time
def h(m, p, hd, body):
    if p.endswith("querybatch"):
        return 200, {}, json.dumps({"results": [{"vulns": [{"id": "V-%d" % i} for i in range(260)]} for q in json.loads(body)["queries"]]}).encode()
    time.sleep(0.5)
    return 200, {}, json.dumps({"id": p.split("/")[-1], "summary": "about " + p.split("/")[-1]}).encode()
url, log = serve(h)
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": url}])
rc, out, err = run("--json", "--use-dbs=false", "package-lock.json")
vs = json.loads(out)["results"][0]["packages"][0]["vulnerabilities"]
expect([v["summary"] for v in vs], ["about V-%d" % i for i in range(260)])
''', "more than two hundred different advisories at once", "the details of some are missing")

bug("C04-truncated", [(DB + "api-check.go", '''	if err != nil {
		return [][]ObjectWithID{}, fmt.Errorf(
			"%w (%s %s): %w",
			ErrAPIUnreadableResponse,''', '''	if err != nil && len(body) == 0 {
		return [][]ObjectWithID{}, fmt.Errorf(
			"%w (%s %s): %w",
			ErrAPIUnreadableResponse,''')],
    '''
def h(m, p, hd, body):
    if p.endswith("querybatch"):
        b = json.dumps({"results": [{"vulns": [{"id": "V-1"}]} for q in json.loads(body)["queries"]]}).encode()
        return 200, {"Content-Length": str(len(b) + 10), "Connection": "close"}, b
    return 404, {}, b"{}"
url, log = serve(h)
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": url}])
rc, res, err = results("--use-dbs=false", "package-lock.json")
expect((rc, res[0][1]), (127, {"foo@1.0.0": ([], [])}))
''', "a connection that breaks after what happens to be a complete document", "the cut-off answer is used")

bug("C05-truncated", [(DB + "zip.go", '''	if err != nil {
		return nil, fmt.Errorf("could not read OSV database archive from response: %w", err)
	}''', '''	if err != nil && !errors.Is(err, io.ErrUnexpectedEOF) {
		return nil, fmt.Errorf("could not read OSV database archive from response: %w", err)
	}''')],
    '''
def h(m, p, hd, body):
    b = zipped({"a.json": osv("X-1", "foo", versions=["1.0.0"])})
    return 200, {"ETag": "x", "Content-Length": str(len(b) + 10), "Connection": "close"}, b
url, log = serve(h)
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": url + "/all.zip"}])
rc, res, err = results("--use-dbs=false", "package-lock.json")
expect((rc, res[0][1]), (127, {"foo@1.0.0": ([], [])}))
''', "a download that breaks off after what looks like a complete archive", "an interrupted download is used and stored")

bug("C05-per-directory", [(DB + "zip.go", "sha256.Sum256([]byte(db.ArchiveURL))", "sha256.Sum256([]byte(db.ArchiveURL + strings.TrimSuffix(db.WorkingDirectory, \"/\")))")],
    '''
def h(m, p, hd, body):
    return 200, {"ETag": "x"}, zipped({"a/a.json": osv("X-1", "foo", versions=["1.0.0"])})
url, log = serve(h)
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": url + "/all.zip"}])
results("--use-dbs=false", "package-lock.json")
config(".osv-detector.yml", dbs=[{"url": url + "/all.zip", "working-directory": "a"}])
rc, res, err = results("--use-dbs=false", "--offline", "package-lock.json")
expect((rc, res[0][1]), (1, {"foo@1.0.0": (["X-1"], [])}))
''', "two databases of the same archive that differ in their working directory", "the second does not find the copy of the first")

bug("C06-null", [(DB + "zip.go", '''	if cache != nil {
		req.Header.Add("If-None-Match", cache.ETag)''', '''	if _, err := os.Stat(cachePath); err == nil && cache == nil {
		cache = &Cache{URL: db.ArchiveURL}
	}

	if cache != nil {
		req.Header.Add("If-None-Match", cache.ETag)''')],
    '''
def h(m, p, hd, body):
    if hd.get("If-None-Match") is not None:
        return 304, {}, b""
    return 200, {"ETag": "x"}, zipped({"a.json": osv("X-1", "foo", versions=["1.0.0"])})
url, log = serve(h)
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": url + "/all.zip"}])
results("--use-dbs=false", "package-lock.json")
t = os.path.join(TMP, "t")
for f in os.listdir(t):
    open(os.path.join(t, f), "w").write("{")
rc, res, err = results("--use-dbs=false", "package-lock.json")
expect((rc, res[0][1]), (1, {"foo@1.0.0": (["X-1"], [])}))
''', "a damaged copy and a server that honours the condition of a request", "the damaged copy is asked about as if it were one")

bug("C08-last-db", [("main.go", '''			r.PrintDatabaseLoadErr(err)
			errored = true

			continue
		}
''', '''			r.PrintDatabaseLoadErr(err)
			errored = len(dbs) == 0

			continue
		}
''')],
    '''
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/db"}, {"url": "file:/missing"}])
rc, res, err = results("--use-dbs=false", "package-lock.json")
expect(rc, 127)
''', "a database that cannot be loaded after one that can, and a finding", "the run exits 1 although something could not be loaded")

bug("C09-aliases", [("main.go", "			if slices.Contains(ignores, vulnerability.ID) {", "			if slices.Contains(ignores, vulnerability.ID) || slices.ContainsFunc(vulnerability.Aliases, func(alias string) bool { return slices.Contains(ignores, alias) }) {")],
    '''
put("db/a.json", osv("GHSA-1", "foo", versions=["1.0.0"], aliases=["CVE-1"]))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/db"}])
rc, res, err = results("--use-dbs=false", "--ignore", "CVE-1", "package-lock.json")
expect((rc, res[0][1]), (1, {"foo@1.0.0": (["GHSA-1"], [])}))
''', "an ignore that is an alias of an advisory rather than its id", "a vulnerability that is not listed is ignored")

bug("C12-env", [("main.go", 'os.Getenv("OSV_DETECTOR_PREFER_API") == "true"', 'os.Getenv("OSV_DETECTOR_PREFER_API") != ""')],
    '''
npm("package-lock.json", ("foo", "1.0.0"))
rc, out, err = run("--offline", "package-lock.json", env={"OSV_DETECTOR_PREFER_API": "false"})
expect("osv.dev v1 API" in out + err, False)
''', "the environment variable set to something other than true", "the API is selected")

bug("C12-shared-config", [("main.go", "				Databases: config.Databases,\n			}\n		}\n\n		lockf", "				Databases: config.Databases[:len(config.Databases):cap(config.Databases)],\n			}\n		}\n\n		lockf"),
                          ("main.go", '''		file.config.Databases = uniqueDBConfigs([]*configer.Config{
			file.config,
			{Databases: extraDBConfigs},
		})''', '''		if len(file.config.Databases) == 0 {
			file.config.Databases = uniqueDBConfigs([]*configer.Config{{Databases: extraDBConfigs}})
		} else {
			file.config.Databases = append(file.config.Databases, extraDBConfigs...)
		}''')],
    '''
npm("package-lock.json", ("foo", "1.0.0"))
put("composer.lock", {"packages": [{"name": "bar", "version": "1.0.0"}]})
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
put("c.yml", "extra-databases:\\n  - url: file:/db\\n  - url: ftp:bad\\n    type: nope\\n")
rc, out, err = run("--offline", "--config", "c.yml", "package-lock.json", "composer.lock")
expect(("npm" in err + out, "Packagist failed" in (err + out) or "Packagist" in (err + out)), (True, True))
i = (out + err).count("npm failed") + out.count("  npm")
expect("  npm" in out and "  Packagist" in out, True, out + err)
''', "a global config with an invalid database, and lockfiles of different ecosystems", "a lockfile is checked against the databases of another's ecosystem")

bug("C14-updated-line", [(RP + "reporter.go", "	target := r.stdout\n\n	if r.outputAsJSON {", "	target := r.stdout\n\n	if r.outputAsJSON && (len(r.results) == 0 || len(a) < 3) {")],
    '''
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
npm("package-lock.json", ("foo", "1.0.0"))
npm("x/package-lock.json", ("foo", "1.0.0"))
rc, out, err = run("--json", "--use-dbs=false", "package-lock.json", "x/package-lock.json")
json.loads(out)
''', "a second lockfile in a run with --json", "text goes to the standard output")

bug("C16-name-only", [(LK + "parse.go", '''		if packages[i].Version != packages[j].Version {
			return packages[i].Version < packages[j].Version
		}

''', '''		if len(packages[i].Version) != len(packages[j].Version) {
			return len(packages[i].Version) < len(packages[j].Version)
		}

''')],
    '''
put("Pipfile.lock", {"default": {"foo": {"version": "==1.0"}}, "develop": {"foo": {"version": "==2.0"}}})
expect({tuple(packages("Pipfile.lock")[0]) for _ in range(20)}, {(("foo", "1.0", "PyPI", ""), ("foo", "2.0", "PyPI", ""))})
''', "a package that is locked in two versions of the same length", "the order of packages changes from run to run")

bug("C17-mix-fields", [(LK + "parse-mix-lock.go", "		if len(fields) < 4 {", "		if len(fields) < 3 {")],
    '''
put("mix.lock", '%{\\n  "foo": {:hex, :foo, "1.0.0"},\\n}\\n')
rc, out, err = run("--list-packages", "mix.lock")
expect((rc, "panic" in err), (0, False))
''', "an entry of a mix.lock that has only three fields", "the detector crashes")

bug("C18-npm-nested", [(LK + "parse-npm-lock.go", "		if detail.Dependencies != nil {\n			details = merge", "		if detail.Dependencies != nil && !strings.HasPrefix(detail.Version, \"file:\") {\n			details = merge")],
    '''
put("package-lock.json", {"lockfileVersion": 1, "dependencies": {"a": {"version": "file:a", "dependencies": {"b": {"version": "1.0.0"}}}}})
expect(packages("package-lock.json")[0], [("a", "", "npm", ""), ("b", "1.0.0", "npm", "")])
''', "packages nested in a local one", "they are dropped")

bug("C19-gem-commit", [(LK + "parse-gemfile-lock.go", '''			// clear the stateful package details,
			// since we're now parsing a new group
			parser.currentGemCommit = ""
			parser.state = parserStateSource''', '''			// clear the stateful package details,
			// since we're now parsing a new group
			if line != lockfileSectionPATH {
				parser.currentGemCommit = ""
			}

			parser.state = parserStateSource''')],
    '''
put("Gemfile.lock", "GIT\\n  remote: https://x\\n  revision: abcdef\\n  specs:\\n    a (1.0)\\n\\nPATH\\n  remote: .\\n  specs:\\n    b (2.0)\\n\\nGEM\\n  remote: https://rubygems.org/\\n  specs:\\n    c (3.0)\\n")
expect(packages("Gemfile.lock")[0], [("a", "1.0", "RubyGems", "abcdef"), ("b", "2.0", "RubyGems", ""), ("c", "3.0", "RubyGems", "")])
''', "a PATH section after a GIT section", "gems of the one get the commit of the other")

bug("C21-comment", [(LK + "csv.go", "	r := csv.NewReader(reader)\n", "	r := csv.NewReader(reader)\n	r.Comment = '#'\n")],
    '''
rc, out, err = run("--list-packages", "--json", "--parse-as", "csv-row", "#x,,foo,1.0.0", "npm,,bar,1")
expect(len(json.loads(out)["results"][0]["packages"]), 2)
''', "an ecosystem that starts with a #", "the row is dropped")

bug("C15-config-error", [("main.go", "				lockfiles = append(lockfiles, lockfileAndConfigOrErr{lockfile.Lockfile{}, config, err})\n\n				continue", "				lockfiles = append(lockfiles, lockfileAndConfigOrErr{lockfile.Lockfile{}, config, err})\n				checkForLocalConfig = !os.IsPermission(err) && filepath.Base(base) != base\n\n				continue")],
    '''
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
npm("a/package-lock.json", ("foo", "1.0.0")); put("a/.osv-detector.yml", "ignore: {")
npm("b/package-lock.json", ("foo", "1.0.0")); config("b/.osv-detector.yml", dbs=[{"url": "file:/db"}])
rc, res, err = results("--use-dbs=false", "a/package-lock.json", "b/package-lock.json")
expect([r[1] for r in res], [{"foo@1.0.0": (["X-1"], [])}])
''', "a config that cannot be read before another lockfile with its own config", "the other lockfile's config is not used")

