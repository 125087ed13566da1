DB = "pkg/database/"
LK = "pkg/lockfile/"
CF = "internal/configer/"
RP = "internal/reporter/"
B = []


def bug(id, edits, demo, needs, breaks):
    B.append(dict(id=id, property=id.split("-")[0], edits=edits, demo=demo, needs=needs, breaks=breaks))


bug("C01-sorted-already", [(DB + "osv.go", '''	sort.Slice(ar.Events, func(i, j int) bool {
		a := ar.Events[i]''', '''	// the events are usually sorted already
	if last := ar.Events[len(ar.Events)-1]; len(ar.Events) > 2 && ar.Events[0].Introduced != "" && last.Introduced == "" {
		return ar.contains(vp, pkg)
	}

	sort.Slice(ar.Events, func(i, j int) bool {
		a := ar.Events[i]'''), (DB + "osv.go", '''	var affected bool
	for _, e := range ar.Events {
		if affected {
''', '''	return ar.contains(vp, pkg)
}

func (ar AffectsRange) contains(vp semantic.Version, pkg internal.PackageDetails) bool {
	var affected bool
	for _, e := range ar.Events {
		if affected {
''')], '''
put("db/a.json", osv("X-1", "foo", ranges=[{"type": "SEMVER", "events": [{"introduced": "2.0.0"}, {"fixed": "2.5.0"}, {"introduced": "1.0.0"}, {"fixed": "1.5.0"}]}]))
npm("package-lock.json", ("foo", "1.2.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/db"}])
expect(results("--use-dbs=false", "package-lock.json")[1][0][1], {"foo@1.2.0": (["X-1"], [])})
''', "a range of several periods that are not listed in order", "the verdict depends on the order of the events")

bug("C01-introduced-zero", [(DB + "osv.go", '''		if a.Introduced == "0" {
			return true
		}

''', '''		if a.Introduced == "0" && b.Fixed != "" {
			return true
		}

''')], '''
put("db/a.json", osv("X-1", "foo", "npm", ranges=[{"type": "SEMVER", "events": [{"last_affected": "0.0.0-alpha"}, {"introduced": "0"}]}]))
npm("package-lock.json", ("foo", "0.0.0-alpha"), ("bar", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/db"}])
expect(results("--use-dbs=false", "package-lock.json")[1][0][1], {"foo@0.0.0-alpha": (["X-1"], []), "bar@1.0.0": ([], [])})
''', "a range whose last affected version sorts before 0", "the range is taken to be empty")

bug("C03-exact-multiple", [(DB + "api-check.go", "		batches = append(batches, pkgs[i:end])\n", '''		batches = append(batches, pkgs[i:end])

		// a single package is not worth a request of its own
		if end == len(pkgs)-1 && batchSize > 2 {
			batches[len(batches)-1] = pkgs[i:]

			break
		}
''')], '''
sizes = []
def h(m, p, hd, body):
    if p.endswith("querybatch"):
        q = json.loads(body)["queries"]
        sizes.append(len(q))
        return 200, {}, json.dumps({"results": [{} for _ in q]}).encode()
    return 404, {}, b"{}"
url, log = serve(h)
npm("package-lock.json", *[("p%d" % i, "1.0.0") for i in range(7)])
config(".osv-detector.yml", dbs=[{"url": url}])
results("--use-dbs=false", "--batch-size=3", "package-lock.json")
expect(sorted(sizes), [1, 3, 3])
''', "one package more than a multiple of the batch size", "a request has more packages than the batch size")

bug("C04-empty-body", [(DB + "api-check.go", '''	err = json.Unmarshal(body, &parsed)

	if err != nil {
		return [][]ObjectWithID{}''', '''	err = json.NewDecoder(bytes.NewReader(body)).Decode(&parsed)

	if err != nil {
		return [][]ObjectWithID{}''')], '''
def h(m, p, hd, body):
    if p.endswith("querybatch"):
        return 200, {}, json.dumps({"results": [{"vulns": [{"id": "V"}]} for _ in json.loads(body)["queries"]]}).encode() + b"<html>gateway timeout</html>"
    return 404, {}, b"{}"
url, log = serve(h)
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": url}])
rc, res, err = results("--use-dbs=false", "package-lock.json")
expect((rc, res[0][1]), (127, {"foo@1.0.0": ([], [])}))
''', "an answer with something after the JSON document", "an answer that is not JSON is used")

bug("C06-partial", [(DB + "zip.go", "		err := json.Unmarshal(cacheContent, &cache)\n\n		if err != nil {", '''		err := json.Unmarshal(cacheContent, &cache)

		// not everything in there is of use to us
		var typeErr *json.UnmarshalTypeError
		if errors.As(err, &typeErr) && cache != nil && len(cache.Body) > 0 {
			err = nil
		}

		if err != nil {''')], '''
import glob
z = zipped({"a.json": osv("X-1", "foo", versions=["1.0.0"])})
seen = []
def h(m, p, hd, body):
    seen.append((hd.get("If-None-Match"), hd.get("If-Modified-Since")))
    if hd.get("If-Modified-Since") or hd.get("If-None-Match"):
        return 304, {}, b""
    return 200, {"ETag": '"1"', "Date": "Mon, 01 Jan 2024 00:00:00 GMT"}, z
url, log = serve(h)
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": url + "/a.zip"}])
results("--use-dbs=false", "package-lock.json")
c, = glob.glob(os.path.join(TMP, "t", "osv-detector-*"))
d = json.load(open(c)); d["etag"] = 7
json.dump(d, open(c, "w"))
rc, res, err = results("--use-dbs=false", "--offline", "package-lock.json")
expect(rc, 127)
''', "a stored copy in which one field has the wrong type", "the damaged copy is used")

bug("C07-empty-copy", [(DB + "zip.go", '''	if db.Offline {
		if cache == nil {
			return nil, ErrOfflineDatabaseNotFound
		}
''', '''	if db.Offline && strings.Contains(db.ArchiveURL, "://") {
		if cache == nil {
			return nil, ErrOfflineDatabaseNotFound
		}
'''), (DB + "zip.go", '	req, err := http.NewRequestWithContext(context.Background(), http.MethodGet, db.ArchiveURL, nil)\n', '''	archiveURL := db.ArchiveURL
	if !strings.Contains(archiveURL, "://") {
		archiveURL = strings.Replace(archiveURL, ":", "://", 1)
	}

	req, err := http.NewRequestWithContext(context.Background(), http.MethodGet, archiveURL, nil)
''')], '''
def h(m, p, hd, body):
    return 200, {"ETag": '"1"'}, zipped({})
url, log = serve(h)
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": url.replace("//", "") + "/a.zip"}])
rc, res, err = results("--use-dbs=false", "--offline", "package-lock.json")
expect((rc, log), (127, []))
''', "an archive url without slashes", "an offline run makes a request")

bug("C08-ignored-later", [("main.go", "		if report.HasKnownVulnerabilities() && exitCode == 0 {", "		if report.HasKnownVulnerabilities() && exitCode == 0 && !(*updateConfigIgnores && config.FilePath != \"\") {")], '''
npm("package-lock.json", ("foo", "1.0.0"))
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
config(".osv-detector.yml", dbs=[{"url": "file:/db"}])
expect(results("--use-dbs=false", "--update-config-ignores", "package-lock.json")[0], 1)
''', "a run that records its findings as ignores", "the run exits 0 although it found something")

bug("C08-list-error", [("main.go", '''		if result.err != nil {
			r.PrintErrorf("Error, %s\\n", result.err)
			exitCode = 127
''', '''		if result.err != nil {
			r.PrintErrorf("Error, %s\\n", result.err)

			if !errors.Is(result.err, lockfile.ErrParserNotFound) || len(files) == 1 {
				exitCode = 127
			}
'''), ("main.go", 'import (\n', 'import (\n	"errors"\n')], '''
npm("package-lock.json", ("foo", "1.0.0"))
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
put("other.txt", "")
config(".osv-detector.yml", dbs=[{"url": "file:/db"}])
expect(results("--use-dbs=false", "package-lock.json", "other.txt")[0], 127)
''', "a file without a parser next to a lockfile with a vulnerability", "the run exits 1 although a lockfile could not be read")

bug("C09-global-first", [("main.go", "		ignores = append(ignores, globalIgnores...)\n", '''		if len(ignores) == 0 || len(config.Ignore) == 0 {
			ignores = append(ignores, globalIgnores...)
		} else {
			copy(ignores[:cap(ignores)][len(config.Ignore)-1:], globalIgnores)
			ignores = ignores[:len(ignores)+len(globalIgnores)]
		}
''')], '''
npm("package-lock.json", ("foo", "1.0.0"))
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
put("db/b.json", osv("X-2", "foo", versions=["1.0.0"]))
config(".osv-detector.yml", ignore=["X-1"], dbs=[{"url": "file:/db"}])
expect(results("--use-dbs=false", "--ignore", "X-2", "package-lock.json")[1][0][1], {"foo@1.0.0": ([], ["X-1", "X-2"])})
''', "ignores both in the config and as flag", "one of the config's ignores does not apply")

bug("C10-transitive", [("main.go", '''	vulnerabilities := make(database.Vulnerabilities, 0)
	ignored := make(database.Vulnerabilities, 0)
''', '''	vulnerabilities := make(database.Vulnerabilities, 0)
	ignored := make(database.Vulnerabilities, 0)
	seen := make(database.Vulnerabilities, 0)
'''), ("main.go", '''			if vulnerabilities.Includes(vulnerability) || ignored.Includes(vulnerability) {
				continue
			}
''', '''			included := seen.Includes(vulnerability)
			seen = append(seen, vulnerability)

			if included {
				continue
			}
''')], '''
npm("package-lock.json", ("foo", "1.0.0"))
put("a/1.json", osv("A", "foo", versions=["1.0.0"], aliases=["X"]))
put("b/1.json", osv("B", "foo", versions=["1.0.0"], aliases=["X", "Y"]))
put("c/1.json", osv("C", "foo", versions=["1.0.0"], aliases=["Y"]))
config(".osv-detector.yml", dbs=[{"url": "file:/a"}, {"url": "file:/b"}, {"url": "file:/c"}])
expect(results("--use-dbs=false", "package-lock.json")[1][0][1], {"foo@1.0.0": (["A", "C"], [])})
''', "an advisory linked to one that was left out itself", "an advisory is left out although nothing listed stands for it")

bug("C11-nothing-found", [(CF + "update.go", "	raw.Ignore = ignores\n", '''	if len(ignores) == 0 && len(raw.Databases) == 0 {
		return nil
	}

	raw.Ignore = ignores
''')], '''
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", ignore=["OLD"])
rc, out, err = run("--use-dbs=false", "--update-config-ignores", "package-lock.json")
t = open(os.path.join(WORK, ".osv-detector.yml")).read()
expect("OLD" in t, False)
''', "a config that has ignores, no databases, and nothing is found", "ignores that are no longer needed stay")

bug("C11-keep-mode", [(CF + "update.go", "os.O_TRUNC|os.O_WRONLY, os.ModePerm", "os.O_WRONLY, os.ModePerm")], '''
npm("package-lock.json", ("foo", "1.0.0"))
put(".osv-detector.yml", "ignore:\\n  - A-VERY-LONG-IDENTIFIER\\n  - ANOTHER-VERY-LONG-IDENTIFIER\\n")
run("--use-dbs=false", "--update-config-ignores", "package-lock.json")
t = open(os.path.join(WORK, ".osv-detector.yml")).read()
expect("IDENTIFIER" in t, False)
''', "a config that becomes shorter", "the rest of the old config stays behind")

bug("C11-no-ignores", [("main.go", '''		if *noConfigIgnores {
			config.Ignore = []string{}
		}
''', '''		if *noConfigIgnores {
			config.Ignore = []string{}

			// there is nothing to update
			if !*outputAsJSON {
				config = &configer.Config{Databases: config.Databases}
			}
		}
''')], '''
npm("package-lock.json", ("foo", "1.0.0"))
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
config(".osv-detector.yml", dbs=[{"url": "file:/db"}])
run("--use-dbs=false", "--update-config-ignores", "--no-config-ignores", "package-lock.json")
t = open(os.path.join(WORK, ".osv-detector.yml")).read()
expect("X-1" in t, True)
''', "updating with config ignores disabled", "the config is not updated")

bug("C12-working-directory", [("main.go", "			if dbConfig.Identifier() == db.Identifier() {", "			if strings.HasPrefix(db.Identifier(), dbConfig.Identifier()) {")], '''
npm("a/package-lock.json", ("foo", "1.0.0"))
npm("b/package-lock.json", ("foo", "1.0.0"))
put("db/1.json", osv("X-1", "foo", versions=["1.0.0"]))
put("db2/2.json", osv("X-2", "foo", versions=["1.0.0"]))
config("a/.osv-detector.yml", dbs=[{"url": "file:/db"}])
config("b/.osv-detector.yml", dbs=[{"url": "file:/db2"}])
expect([x[1] for x in results("--use-dbs=false", "a", "b")[1]], [{"foo@1.0.0": (["X-1"], [])}, {"foo@1.0.0": (["X-2"], [])}])
''', "configs with databases one of which is a prefix of the other", "a lockfile is checked against another's database")

bug("C13-dir-parse-as", [("main.go", "							if p, _ := lockfile.FindParser(dir.Name(), parseAs); p == nil {", "							if p, _ := lockfile.FindParser(dir.Name(), strings.TrimSpace(parseAs)); p == nil || strings.HasPrefix(dir.Name(), \".\") {")], '''
npm("d/.hidden.json", ("foo", "1.0.0"))
npm("d/shown.json", ("foo", "1.0.0"))
rc, out, err = run("--list-packages", "--json", "package-lock.json:d")
expect([r["filePath"] for r in json.loads(out)["results"]], ["d/.hidden.json", "d/shown.json"])
''', "an explicit parser for a directory with a dot file", "the file is not found")

bug("C13-clean", [("main.go", '			paths = append(paths, parseAs+":"+filepath.Clean(p))\n', '''			if entry := parseAs + ":" + filepath.Clean(p); len(lps) == 1 || !slices.Contains(paths, entry) {
				paths = append(paths, entry)
			}
''')], '''
npm("d/package-lock.json", ("foo", "1.0.0"))
put("d/Cargo.lock", "")
rc, out, err = run("--list-packages", "--json", "d", "d")
expect(len(json.loads(out)["results"]), 4)
''', "a directory with several lockfiles given twice", "repeated lockfiles are left out")

bug("C14-html", [(RP + "reporter.go", '''	fmt.Fprint(r.stdout, string(out))
''', '''	fmt.Fprintf(r.stdout, string(out))
''')], '''
put("in.csv", "npm,,foo%20bar,1.0.0\\n")
rc, out, err = run("--list-packages", "--json", "--parse-as", "csv-file", "in.csv")
expect(json.loads(out)["results"][0]["packages"][0]["name"], "foo%20bar")
''', "a percent sign somewhere in the report", "the report is not what was found")

bug("C14-ignored-totals", [(RP + "report.go", '''	for _, pkg := range r.Packages {
		knownVulnerabilitiesCount += len(pkg.Vulnerabilities)
	}
''', '''	for i, pkg := range r.Packages {
		// the same package can be listed for more than one commit
		if i > 0 && pkg.Name == r.Packages[i-1].Name && pkg.Version == r.Packages[i-1].Version {
			continue
		}

		knownVulnerabilitiesCount += len(pkg.Vulnerabilities)
	}
''')], '''
put("db/1.json", osv("X-1", "foo", "npm", versions=["1.0.0"]))
put("in.csv", "PyPI,,foo,1.0.0\\nnpm,,foo,1.0.0\\n")
config("c.yml", dbs=[{"url": "file:/db"}])
rc, out, err = run("--use-dbs=false", "--config", "c.yml", "--parse-as", "csv-file", "in.csv")
expect((rc, "1 known vulnerability found in in.csv" in out), (1, True))
''', "two packages that only differ in their ecosystem", "a vulnerability is not counted")

bug("C15-names", [("main.go", '''	for _, p := range files {
		for _, pkg := range p.lockf.Packages {
''', '''	for _, p := range files {
		if p.err != nil {
			break
		}

		for _, pkg := range p.lockf.Packages {
''')], '''
put("a/Cargo.lock", "= = =")
npm("b/package-lock.json", ("foo", "1.0.0"))
npm("0/package-lock.json", ("bar", "1.0.0"))
put("db/1.json", osv("X-1", "foo", versions=["1.0.0"]))
config("c.yml", dbs=[{"url": "file:/db"}])
rc, res, err = results("--use-dbs=false", "--config", "c.yml", "0", "a", "b")
expect(res[1][1], {"foo@1.0.0": (["X-1"], [])})
''', "a lockfile after one that could not be parsed, which itself comes after one that could", "the advisories for its packages are not loaded")

bug("C16-unique-order", [(LK + "parse.go", '''	slices.Sort(slicedEcosystems)

	return slicedEcosystems''', '''	if len(slicedEcosystems) < 3 {
		slices.Sort(slicedEcosystems)
	}

	return slicedEcosystems''')], '''
put("in.csv", "npm,,foo,1.0.0\\nPyPI,,foo,1.0.0\\nGo,,foo,1.0.0\\nPub,,foo,1.0.0\\n")
seen = set(run("--offline", "--parse-as", "csv-file", "in.csv")[1] for _ in range(30))
expect(len(seen), 1)
''', "an input of three or more ecosystems", "the order databases are loaded in changes from run to run")

bug("C17-pnpm-scope", [(LK + "parse-pnpm-lock.go", '		if len(parts) == 1 {\n			return "", "", errInvalidPackagePath\n		}\n\n		name = ', '		name = ')], '''
put("pnpm-lock.yaml", "lockfileVersion: 5.4\\npackages:\\n  /@foo:\\n    resolution: {integrity: x}\\n")
rc, out, err = run("--list-packages", "pnpm-lock.yaml")
expect((rc, "panic" in err), (127, False))
''', "a dependency path that only has a scope", "the detector crashes")

bug("C17-csv-close", [(DB + "osv.go", '''			if truncateAt == -1 {
				truncateAt = limit
			}
''', '''			if truncateAt == -1 {
				truncateAt = i + len("...")
			}
''')], '''
npm("package-lock.json", ("foo", "1.0.0"))
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"], details="x" * 80))
config(".osv-detector.yml", dbs=[{"url": "file:/db"}])
rc, out, err = run("--use-dbs=false", "package-lock.json")
expect((rc, "panic" in err), (1, False))
''', "an advisory without a summary whose details are one long word", "the detector crashes")

bug("C18-uv-virtual", [(LK + "parse-uv-lock.go", '		if lockPackage.Source.Virtual == "." {', '		if strings.HasPrefix(lockPackage.Source.Virtual, ".") {')], '''
put("uv.lock", 'version = 1\\n[[package]]\\nname = "foo"\\nversion = "1.0"\\nsource = { virtual = "../foo" }\\n')
expect([p[:2] for p in packages("uv.lock")[0]], [("foo", "1.0")])
''', "a virtual package that is not the root", "it is dropped")

bug("C18-pipenv-dev", [(LK + "parse-pipenv-lock.go", '''	for name, pipenvPackage := range parsedLockfile.PackagesDev {
		if pipenvPackage.Version == "" {
			continue
		}
''', '''	for name, pipenvPackage := range parsedLockfile.PackagesDev {
		if pipenvPackage.Version == "" || parsedLockfile.Packages[name].Version != "" {
			continue
		}
''')], '''
put("Pipfile.lock", {"default": {"foo": {"version": "==1.0"}}, "develop": {"foo": {"version": "==2.0"}}})
expect(sorted(p[:2] for p in packages("Pipfile.lock")[0]), [("foo", "1.0"), ("foo", "2.0")])
''', "a package locked at different versions for development", "one of them is dropped")

bug("C18-composer-tag", [(LK + "parse-composer-lock.go", '	if strings.Contains(commit, ".") {', '	if strings.ContainsAny(commit, "./") || len(commit) != 40 {')], '''
put("composer.lock", {"packages": [{"name": "a/b", "version": "1.0.0", "dist": {"reference": "0123456"}}]})
expect(packages("composer.lock")[0], [("a/b", "1.0.0", "Packagist", "0123456")])
''', "an abbreviated commit", "the commit is lost")

bug("C19-yarn-workspace", [(LK + "parse-yarn-lock.go", 'strings.HasSuffix(group[0], "@workspace:.\\":")', 'strings.Contains(group[0], "@workspace:")')], '''
put("yarn.lock", '__metadata:\\n  version: 6\\n\\n"foo@workspace:packages/foo":\\n  version: 1.0.0\\n  resolution: "foo@workspace:packages/foo"\\n  languageName: unknown\\n  linkType: soft\\n')
expect([p[:2] for p in packages("yarn.lock")[0]], [("foo", "1.0.0")])
''', "a workspace that is not the root", "it is dropped")

bug("C19-gradle-empty", [(LK + "parse-gradle-lock.go", 'strings.HasPrefix(line, "empty=")', 'strings.HasPrefix(line, "empty")')], '''
put("gradle.lockfile", "emptyorg:lib:1.0=a\\nempty=\\n")
expect([p[:2] for p in packages("gradle.lockfile")[0]], [("emptyorg:lib", "1.0")])
''', "a group whose name starts with empty", "it is dropped")

bug("C19-mix-last", [(LK + "parse-mix-lock.go", '''`^ +"(\\w+)": \\{.+,$`''', '''`^ {2}"(\\w+)": \\{:.+,$`''')], '''
put("mix.lock", '%{\\n    "foo": {:hex, :foo, "1.0.0", "abc", [:mix], [], "hexpm", "x"},\\n}\\n')
expect([p[:2] for p in packages("mix.lock")[0]], [("foo", "1.0.0")])
''', "lines with other indentation", "they are dropped")

bug("C20-included-names", [(LK + "parse-requirements-txt.go", '''			if _, ok := requiredAlready[ar]; ok {
				continue
			}

			requiredAlready[ar] = struct{}{}
''', '''			if _, ok := requiredAlready[filepath.Base(ar)]; ok {
				continue
			}

			requiredAlready[filepath.Base(ar)] = struct{}{}
''')], '''
put("requirements.txt", "-r a/base.txt\\n-r b/base.txt\\n")
put("a/base.txt", "foo==1.0\\n")
put("b/base.txt", "bar==1.0\\n")
expect(sorted(p[0] for p in packages("requirements.txt")[0]), ["bar", "foo"])
''', "included files of the same name in different directories", "the requirements of the second are missing")

bug("C20-maven-lowest", [(LK + "parse-maven-lock.go", '''`[[(]?(.*?)(?:,|[)\\]]|$)`''', '''`[[(]?([^,)\\]]*[^,)\\] ])(?:,|[)\\]]|$)`''')], '''
put("pom.xml", "<project><dependencies><dependency><groupId>g</groupId><artifactId>a</artifactId><version>(,1.5]</version></dependency></dependencies></project>")
expect([p[:2] for p in packages("pom.xml")[0]], [("g:a", "0")])
''', "a range without lower end", "the highest version is taken for the lowest")

bug("C20-go-dedupe", [(LK + "parse-go-lock.go", '		details[detail.Name+"@"+detail.Version] = detail\n', '		details[detail.Name] = detail\n')], '''
put("go.mod", "module m\\n\\nrequire (\\n\\tgithub.com/a/a v1.0.0\\n\\tgithub.com/b/b v1.2.0\\n)\\n\\nreplace github.com/b/b => github.com/a/a v1.1.0\\n")
expect(sorted(p[:2] for p in packages("go.mod")[0]), [("github.com/a/a", "1.0.0"), ("github.com/a/a", "1.1.0")])
''', "a requirement replaced by another required module at another version", "one of them is dropped")

bug("C21-lazy", [(LK + "csv.go", "	r := csv.NewReader(reader)\n", "	r := csv.NewReader(reader)\n	r.LazyQuotes = true\n")], '''
put("in.csv", 'npm,,fo"o,1.0.0\\n')
rc, out, err = run("--list-packages", "--parse-as", "csv-file", "in.csv")
expect(rc, 127)
''', "a stray quote", "text that is not CSV is accepted")

bug("C21-sort-version", [(LK + "csv.go", '''		if packages[i].Name == packages[j].Name {
			return packages[i].Version < packages[j].Version
		}
''', '''		if packages[i].Name == packages[j].Name && packages[i].Ecosystem == packages[j].Ecosystem {
			return packages[i].Version < packages[j].Version
		}
''')], '''
put("in.csv", "npm,,foo,2.0.0\\nPyPI,,foo,1.0.0\\n")
expect([p[1] for p in packages("in.csv", "--parse-as", "csv-file")[0]], ["1.0.0", "2.0.0"])
''', "the same name in two ecosystems", "packages are not sorted by name and version")
