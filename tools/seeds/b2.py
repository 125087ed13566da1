DB = "pkg/database/"
LK = "pkg/lockfile/"
CF = "internal/configer/"
RP = "internal/reporter/"
B = []


def bug(id, edits, demo, needs, breaks):
    B.append(dict(id=id, property=id.split("-")[0], edits=edits, demo=demo, needs=needs, breaks=breaks))


bug("C07-stale-refresh", [(DB + "zip.go", "	if db.Offline {\n		if cache == nil {", "	if db.Offline && (cache == nil || cache.Date != \"\") {\n		if cache == nil {")],
    '''
state = {"up": True}
def h(m, p, hd, body):
    return 200, {"ETag": "x"}, zipped({"a.json": osv("X-1", "foo", versions=["1.0.0"])})
url, log = serve(h)
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": url + "/all.zip"}])
results("--use-dbs=false", "package-lock.json")
n = len(log)
rc, res, err = results("--use-dbs=false", "--offline", "package-lock.json")
expect(len(log), n, "requests")
''', "a stored copy of an answer that had an ETag but no Date", "an offline run makes a request")

bug("C08-lookup-after-findings", [("main.go", '''	if errored {
		exitCode = 127
	}

	vulnsPerConfig''', '''	if errored && len(dbs) == 0 {
		exitCode = 127
	}

	vulnsPerConfig''')],
    '''
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/db"}, {"url": "file:/missing"}])
rc, res, err = results("--use-dbs=false", "package-lock.json")
expect(rc, 127)
''', "one database that cannot be loaded next to one that can, and a finding", "the run exits 1 although something could not be loaded")

bug("C08-empty-dir", [("main.go", "		if len(cli.Args()) > 0 && !errored {", "		if len(cli.Args()) == 1 && !errored {")],
    '''
os.makedirs(os.path.join(WORK, "a")); os.makedirs(os.path.join(WORK, "b"))
expect(run("a", "b")[0], 128)
''', "two or more readable paths without lockfiles", "the run exits 127 instead of 128")

bug("C09-prefix", [("main.go", "			if slices.Contains(ignores, vulnerability.ID) {", "			if slices.ContainsFunc(ignores, func(id string) bool { return strings.EqualFold(id, vulnerability.ID) }) {")],
    '''
put("db/a.json", osv("GHSA-a", "foo", versions=["1.0.0"]))
put("db/b.json", osv("GHSA-A", "foo", versions=["1.0.0"]))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", ignore=["GHSA-A"], dbs=[{"url": "file:/db"}])
rc, res, err = results("--use-dbs=false", "package-lock.json")
expect((rc, res[0][1]), (1, {"foo@1.0.0": (["GHSA-a"], ["GHSA-A"])}))
''', "an ignore that differs from an advisory id only in case", "a vulnerability that is not listed is ignored")

bug("C09-leak", [("main.go", '''		ignores = append(ignores, globalIgnores...)

		dbs := dbs''', '''		ignores = append(ignores, globalIgnores...)

		if len(globalIgnores) > 0 {
			globalIgnores = ignores
		}

		dbs := dbs''')],
    '''
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
for d in ("a", "b"):
    npm(d + "/package-lock.json", ("foo", "1.0.0"))
config("a/.osv-detector.yml", ignore=["X-1"], dbs=[{"url": "file:/db"}])
config("b/.osv-detector.yml", dbs=[{"url": "file:/db"}])
rc, res, err = results("--use-dbs=false", "--ignore", "X-9", "a", "b")
expect([x[1] for x in res], [{"foo@1.0.0": ([], ["X-1"])}, {"foo@1.0.0": (["X-1"], [])}])
''', "an --ignore flag and several lockfiles of which an earlier one has a config with ignores", "ignores of one config apply to the lockfiles of others")

bug("C10-second-alias", [(DB + "osv.go", '''		if osv.ID == alias || slices.Contains(osv.Aliases, alias) {''', '''		if osv.ID == alias || (len(osv.Aliases) == 1 && slices.Contains(osv.Aliases, alias)) {''')],
    '''
put("d1/a.json", osv("X-1", "foo", versions=["1.0.0"], aliases=["A-1", "A-2"]))
put("d2/a.json", osv("X-2", "foo", versions=["1.0.0"], aliases=["A-3", "A-2"]))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/d1"}, {"url": "file:/d2"}])
rc, res, err = results("--use-dbs=false", "package-lock.json")
expect(res[0][1], {"foo@1.0.0": (["X-1"], [])})
''', "two advisories with two or more aliases each that share one of them", "the same vulnerability is listed twice")

bug("C10-ignored-not-included", [("main.go", "			if vulnerabilities.Includes(vulnerability) || ignored.Includes(vulnerability) {", "			if vulnerabilities.Includes(vulnerability) {")],
    '''
put("d1/a.json", osv("X-1", "foo", versions=["1.0.0"], aliases=["A-1"]))
put("d2/a.json", osv("A-1", "foo", versions=["1.0.0"]))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", ignore=["X-1"], dbs=[{"url": "file:/d1"}, {"url": "file:/d2"}])
rc, res, err = results("--use-dbs=false", "package-lock.json")
expect((rc, res[0][1]), (0, {"foo@1.0.0": ([], ["X-1"])}))
''', "an ignored advisory that another database knows under an alias", "the alias of an ignored advisory is reported")

bug("C11-wd-lost", [(CF + "load.go", '	WorkingDirectory string `yaml:"working-directory,omitempty"`\n}\n\ntype rawConfig', '	WorkingDirectory string `yaml:"working-directory,omitempty"`\n	raw              bool\n}\n\ntype rawConfig'),
    (CF + "update.go", "	raw.Ignore = ignores\n", "	raw.Ignore = ignores\n\n	for i, db := range raw.Databases {\n		if db.Type == db.inferDBType() {\n			raw.Databases[i].Type = \"\"\n		}\n	}\n")],
    '''
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
put("db2.d/b.json", osv("X-2", "foo", versions=["1.0.0"]))
npm("package-lock.json", ("foo", "1.0.0"))
def h(m, p, hd, body):
    return 200, {"ETag": "x"}, zipped({"a.json": osv("X-1", "foo", versions=["1.0.0"])})
url, log = serve(h)
config(".osv-detector.yml", dbs=[{"url": url + "/all", "type": "zip"}])
rc, out, err = run("--use-dbs=false", "--update-config-ignores", "package-lock.json")
rc, res, err = results("--use-dbs=false", "package-lock.json")
expect((rc, res[0][1]), (0, {"foo@1.0.0": ([], ["X-1"])}))
''', "a database whose type is given explicitly and differs from what its URL suggests", "the database is changed into one of another type")

bug("C11-other-lockfile", [("main.go", '''			if _, ok := vulnsPerConfig[configPath]; !ok {
				vulnsPerConfig[configPath] = make(map[string]struct{})
			}
''', '''			if _, ok := vulnsPerConfig[configPath]; !ok || !report.HasKnownVulnerabilities() {
				vulnsPerConfig[configPath] = make(map[string]struct{})
			}
''')],
    '''
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
npm("a/package-lock.json", ("foo", "1.0.0"))
npm("b/package-lock.json", ("bar", "1.0.0"))
config("c.yml", dbs=[{"url": "file:/db"}])
run("--use-dbs=false", "--config", "c.yml", "--update-config-ignores", "a", "b")
rc, res, err = results("--use-dbs=false", "--config", "c.yml", "a", "b")
expect((rc, res[0][1]), (0, {"foo@1.0.0": ([], ["X-1"])}))
''', "several lockfiles sharing a config where a later one has nothing to report", "what was found in earlier lockfiles is not recorded")

bug("C12-unique-url", [("main.go", "				if dbc.Identifier() == dbConfig.Identifier() {\n					alreadyExists = true", "				if dbc.Type == dbConfig.Type && strings.TrimSuffix(dbc.URL, \"/\") == strings.TrimSuffix(dbConfig.URL, \"/\") {\n					alreadyExists = true")],
    '''
put("db/x/a.json", osv("X-1", "foo", versions=["1.0.0"]))
put("db/y/a.json", osv("X-2", "foo", versions=["1.0.0"]))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/db", "working-directory": "x"}, {"url": "file:/db", "working-directory": "y"}])
rc, res, err = results("--use-dbs=false", "package-lock.json")
expect(res[0][1], {"foo@1.0.0": (["X-1", "X-2"], [])})
''', "two databases that only differ in their working directory", "one of them is not used")

bug("C12-eco-all", [("main.go", "			ecosystems := collectEcosystems([]lockfileAndConfigOrErr{file})", "			ecosystems := collectEcosystems(files)")],
    '''
put("r.csv", "E1,,foo,1.0.0\\n")
put("s.csv", "E2,,foo,1.0.0\\n")
rc, out, err = run("--offline", "csv-file:r.csv")
import zlib, hashlib, base64
for e in ("E1", "E2"):
    u = "https://osv-vulnerabilities.storage.googleapis.com/%s/all.zip" % e
    b = zipped({"a.json": osv("X-" + e, "foo", e, versions=["1.0.0"]), "b.json": osv("Y-" + e, "foo", "E1" if e == "E2" else "E2", versions=["1.0.0"])})
    open(os.path.join(TMP, "t", "osv-detector-%s-db.json" % hashlib.sha256(u.encode()).hexdigest()), "w").write(json.dumps({"url": u, "etag": "x", "date": "y", "body": base64.b64encode(b).decode()}))
rc, res, err = results("--offline", "csv-file:r.csv", "csv-file:s.csv")
expect([x[1] for x in res], [{"foo@1.0.0": (["X-E1"], [])}, {"foo@1.0.0": (["X-E2"], [])}])
''', "lockfiles of different ecosystems in one run", "a lockfile is checked against databases of ecosystems that only occur in other lockfiles")

bug("C13-last-colon", [("main.go", '	parseAs, path, _ := strings.Cut(lockfilePathWithParseAs, ":")\n\n	return parseAs, path', '	i := strings.LastIndex(lockfilePathWithParseAs, ":")\n\n	return lockfilePathWithParseAs[:i], lockfilePathWithParseAs[i+1:]')],
    '''
npm("a:b/package-lock.json", ("foo", "1.0.0"))
expect(packages("package-lock.json:a:b/package-lock.json")[0], [("foo", "1.0.0", "npm", "")])
''', "a path that contains a colon", "the parser is not chosen by the part before the first colon")

bug("C13-symlink", [("main.go", "						if dir.IsDir() {\n							continue\n						}", "						if !dir.Type().IsRegular() {\n							continue\n						}")],
    '''
npm("real/package-lock.json", ("foo", "1.0.0"))
os.makedirs(os.path.join(WORK, "d"))
os.symlink("../real/package-lock.json", os.path.join(WORK, "d", "package-lock.json"))
expect(packages("d")[0], [("foo", "1.0.0", "npm", "")])
''', "a lockfile in a directory that is a symbolic link", "the lockfile is not found")

bug("C14-errors-stdout", [(RP + "reporter.go", '''	fmt.Fprintf(r.stderr, msg, a...)''', '''	if strings.HasSuffix(msg, "\\n") || r.outputAsJSON {
		fmt.Fprintf(r.stderr, msg, a...)
	} else {
		fmt.Fprintf(r.stdout, msg, a...)
	}''')], '''
''', "", "")
B.pop()

bug("C15-break", [("main.go", '''				lockf.FilePath,
				err,
			)))

			continue
		}

		vulns = append(vulns, results)''', '''				lockf.FilePath,
				err,
			)))

			if len(vulns) > 0 {
				break
			}

			continue
		}

		vulns = append(vulns, results)''')],
    '''
put("d1/a.json", osv("X-1", "foo", versions=["1.0.0"]))
put("d2/a.json", osv("X-2", "foo", versions=["1.0.0"]))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/d1"}, {"url": "http://127.0.0.1:1/v1"}, {"url": "file:/d2"}])
rc, res, err = results("--use-dbs=false", "package-lock.json")
expect(res[0][1], {"foo@1.0.0": (["X-1", "X-2"], [])})
''', "an API that cannot be queried between two databases that can", "the advisories of later databases are lost too")

bug("C15-config-carry", [("main.go", '''			config = &con
		} else {''', '''			if con.FilePath != "" || len(lockfiles) == 0 || lockfiles[len(lockfiles)-1].err == nil {
				config = &con
			}
		} else {''')],
    '''
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
npm("a/package-lock.json", ("foo", "1.0.0"))
put("b/package-lock.json", "{")
npm("c/package-lock.json", ("foo", "1.0.0"))
config("a/.osv-detector.yml", dbs=[{"url": "file:/db"}])
config("b/.osv-detector.yml", dbs=[{"url": "file:/db"}])
rc, res, err = results("--use-dbs=false", "a", "b", "c")
expect([x[1] for x in res], [{"foo@1.0.0": (["X-1"], [])}, {"foo@1.0.0": ([], [])}])
''', "a lockfile that cannot be parsed followed by one without a config", "the lockfile after a failing one is checked with the config of the failing one")

bug("C21-compare-as", [(LK + "csv.go", '''	if compareAs == "" {
		compareAs = ecosystem
	}
''', '''	if compareAs == "" || version == "" {
		compareAs = ecosystem
	}
''')],
    '''
put("in.csv", "Foo,npm,bar,\\n")
rc, out, err = run("--json", "--list-packages", "csv-file:in.csv")
expect(json.loads(out)["results"][0]["packages"][0]["compareAs"], "npm")
''', "a row with a comparison ecosystem and without a version", "the comparison ecosystem is replaced")

bug("C21-trim", [(LK + "csv.go", "	r := csv.NewReader(reader)\n", "	r := csv.NewReader(reader)\n	r.TrimLeadingSpace = true\n")],
    '''
put("in.csv", 'npm,," foo",1.0.0\\nnpm,, bar,1.0.0\\n')
expect([p[0] for p in packages("csv-file:in.csv")[0]], [" bar", " foo"])
''', "fields that start with a space", "fields are not taken literally")

bug("C21-row-number", [(LK + "csv.go", '			return packages, fmt.Errorf("row %d: %w", i, err)', '			return packages, fmt.Errorf("row %d: %w", len(packages), err)')],
    '''
put("in.csv", "npm,,foo,1.0.0\\nnpm,,,1.0.0\\n")
rc, out, err = run("--list-packages", "csv-file:in.csv")
expect("row 2" in err, True)
''', "a bad row", "the error names another row")
