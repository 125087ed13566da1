DB = "pkg/database/"
LK = "pkg/lockfile/"
CF = "internal/configer/"
RP = "internal/reporter/"
B = []


def bug(id, edits, demo, needs, breaks):
    B.append(dict(id=id, property=id.split("-")[0], edits=edits, demo=demo, needs=needs, breaks=breaks))


DIRDB = '''
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/db"}])
'''
SEE = '''
expect(results("--use-dbs=false", "package-lock.json")[1][0][1], {"foo@1.0.0": (["X-1"], [])})
'''

bug("C01-future-withdrawn", [(DB + "mem-check.go", '''			if vulnerability.Withdrawn == nil && vulnerability''', '''			if (vulnerability.Withdrawn == nil || vulnerability.Withdrawn.After(time.Now())) && vulnerability'''),
    (DB + "mem-check.go", '''import (
	"github''', '''import (
	"time"

	"github''')], DIRDB + '''
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"], withdrawn="2093-01-01T00:00:00Z"))
expect(results("--use-dbs=false", "package-lock.json")[1][0][1], {"foo@1.0.0": ([], [])})
''', "an advisory withdrawn at a date that is yet to come", "a withdrawn advisory is reported")

bug("C01-two-events", [(DB + "osv.go", '''	sort.SliceStable(events, func(i, j int) bool {
		a := events[i]
''', '''	if len(events) == 2 && events[0].Fixed == "" {
		events = append(events, RangeEvent{})[:2]
	}

	sort.SliceStable(events, func(i, j int) bool {
		if len(events) == 2 {
			return false
		}

		a := events[i]
''')], DIRDB + '''
put("db/a.json", osv("X-1", "foo", ranges=[{"type": "SEMVER", "events": [{"fixed": "1.0.0"}, {"introduced": "0.5.0"}]}]))
expect(results("--use-dbs=false", "package-lock.json")[1][0][1], {"foo@1.0.0": ([], [])})
''', "a range whose fix is listed before it is introduced", "a fixed version is reported")

bug("C01-version-prefix", [(DB + "osv.go", '''			if slices.Contains(affected.Versions, pkg.Version) {
''', '''			if slices.Contains(affected.Versions, strings.TrimPrefix(pkg.Version, "v")) {
''')], '''
put("in.csv", "Go,,foo,v1.0.0\\n")
config(".osv-detector.yml", dbs=[{"url": "file:/db"}])
put("db/a.json", osv("X-1", "foo", eco="Go", versions=["v1.0.0"]))
expect(results("--use-dbs=false", "--parse-as", "csv-file", "in.csv")[1][0][1], {"foo@v1.0.0": (["X-1"], [])})
''', "a listed version that starts with a v", "the advisory is not reported")

bug("C02-symlink", [(DB + "dir.go", '''		if !strings.HasSuffix(info.Name(), ".json") {
			return nil
''', '''		if !strings.HasSuffix(info.Name(), ".json") || info.Mode()&fs.ModeSymlink != 0 {
			return nil
''')], DIRDB + '''
put("elsewhere/a.txt", osv("X-1", "foo", versions=["1.0.0"]))
os.makedirs(WORK + "/db")
os.symlink("../elsewhere/a.txt", WORK + "/db/a.json")
''' + SEE, "an advisory file that is a symbolic link", "it is not loaded")

bug("C02-wd-anywhere", [(DB + "zip.go", '''		if !strings.HasPrefix(zipFile.Name, workingDirectory) {
''', '''		if !strings.Contains("/"+zipFile.Name, "/"+workingDirectory) {
''')], '''
Z = zipped({"old/npm/a.json": osv("X-0", "foo", versions=["1.0.0"]), "npm/b.json": osv("X-1", "foo", versions=["1.0.0"])})
url, log = serve(lambda m, p, hd, b: (200, {"Date": "Mon, 01 Jan 2024 00:00:00 GMT", "ETag": '"1"'}, Z))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": url + "/all.zip", "working-directory": "npm"}])
''' + SEE, "a directory of the same name as the working directory deeper in the archive", "advisories outside of the working directory are loaded")

bug("C02-names-empty", [(DB + "mem-check.go", '''		hash := string(affected.Package.NormalizedEcosystem()) + "-" + affected.Package.NormalizedName()
		vulns := db''', '''		hash := string(affected.Package.NormalizedEcosystem()) + "-" + affected.Package.NormalizedName()

		// no need to hold on to advisories that have been withdrawn
		if osv.Withdrawn != nil {
			break
		}

		// the same advisory only has to be stored once
		if n := len(db.vulnerabilities[hash]); n > 0 && osv.Modified.Equal(db.vulnerabilities[hash][n-1].Modified) && len(osv.Affected) > 1 {
			continue
		}

		vulns := db''')], DIRDB + '''
put("db/a.json", osv("X-0", "foo", versions=["2.0.0"], modified="2022-01-01T00:00:00Z"))
a = osv("X-1", "foo", versions=["1.0.0"], modified="2022-01-01T00:00:00Z")
a["affected"].append({"package": {"name": "bar", "ecosystem": "npm"}, "versions": ["1.0.0"]})
put("db/b.json", a)
''' + SEE, "two advisories for a package that were modified at the same time", "the second is lost")

bug("C04-typed", [(DB + "api-check.go", '''	err = json.Unmarshal(body, &parsed)

	if err != nil {
''', '''	err = json.Unmarshal(body, &parsed)

	// tolerate fields that are of an unexpected type
	var typeErr *json.UnmarshalTypeError

	if err != nil && !errors.As(err, &typeErr) {
''')], '''
def h(m, p, hd, b):
    if m == "POST":
        return 200, {}, b'{"results":[{"vulns":{"id":"X-1"}}]}'
    return 404, {}, b""
url, log = serve(h)
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": url}])
expect(run("--use-dbs=false", "package-lock.json")[0], 127)
''', "an answer with something of another type in it", "it is taken for one without vulnerabilities")

bug("C05-both-headers", [(DB + "zip.go", '''	if etag != "" || date != "" {
''', '''	if etag != "" && date != "" {
''')], '''
state = {"n": 0}
def h(m, p, hd, b):
    state["n"] += 1
    if state["n"] == 1:
        return 200, {"Date": "Mon, 01 Jan 2024 00:00:00 GMT", "ETag": '"1"'}, zipped({"a.json": osv("X-0", "foo", versions=["1.0.0"])})
    return 200, {"Date": "Mon, 02 Jan 2024 00:00:00 GMT"}, zipped({"a.json": osv("X-1", "foo", versions=["1.0.0"])})
url, log = serve(h)
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": url + "/all.zip"}])
results("--use-dbs=false", "package-lock.json")
results("--use-dbs=false", "package-lock.json")
expect(results("--use-dbs=false", "--offline", "package-lock.json")[1][0][1], {"foo@1.0.0": (["X-1"], [])})
''', "a download without an ETag after one with one", "the offline run uses the older download")

bug("C05-conditional", [(DB + "zip.go", '''		req.Header.Add("If-None-Match", cache.ETag)
		req.Header.Add("If-Modified-Since", cache.Date)
''', '''		if cache.ETag != "" {
			req.Header.Add("If-None-Match", cache.ETag)
		}
		req.Header.Add("If-Modified-Since", cache.Date)
'''), (DB + "zip.go", '''	date := resp.Header.Get("Date")

''', '''	date := resp.Header.Get("Last-Modified")

	if date == "" {
		date = resp.Header.Get("Date")
	}

''')], '''
def h(m, p, hd, b):
    return 200, {"Date": "Mon, 08 Jan 2024 00:00:00 GMT", "Last-Modified": "Mon, 01 Jan 2024 00:00:00 GMT", "ETag": '"1"'}, zipped({"a.json": osv("X-0", "foo", versions=["1.0.0"])})
url, log = serve(h)
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": url + "/all.zip"}])
expect("last updated Mon, 08 Jan 2024 00:00:00 GMT" in run("--use-dbs=false", "package-lock.json")[1], True)
''', "an answer with a Last-Modified header", "another date is shown and sent than the one of the download")
B.pop()

bug("C22-304-date", [(DB + "zip.go", '''	if resp.StatusCode == http.StatusNotModified && cache != nil {
		db.UpdatedAt = cache.Date
''', '''	if resp.StatusCode == http.StatusNotModified && cache != nil {
		db.UpdatedAt = cache.Date

		// the host has just told us that this is still what it has
		if date := resp.Header.Get("Date"); date != "" {
			db.UpdatedAt = date
		}
''')], '''
state = {"n": 0}
def h(m, p, hd, b):
    state["n"] += 1
    if state["n"] == 1:
        return 200, {"Date": "Mon, 01 Jan 2024 00:00:00 GMT", "ETag": '"1"'}, zipped({"a.json": osv("X-0", "foo", versions=["1.0.0"])})
    return 304, {"Date": "Tue, 02 Jan 2024 00:00:00 GMT", "ETag": '"1"'}, b""
url, log = serve(h)
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": url + "/all.zip"}])
run("--use-dbs=false", "package-lock.json")
expect("last updated Mon, 01 Jan 2024 00:00:00 GMT" in run("--use-dbs=false", "package-lock.json")[1], True)
''', "an archive that was not modified since it was downloaded", "the date told is not that of the archive in use")

bug("C09-ignored-stays", [("main.go", '''			if slices.Contains(ignores, vulnerability.ID) {
				ignored''', '''			if _, ok := slices.BinarySearch(ignores, vulnerability.ID); ok {
				ignored'''), ("main.go", '''	vulns := make([][]database.Vulnerabilities, 0, len(dbs))
''', '''	vulns := make([][]database.Vulnerabilities, 0, len(dbs))

	if len(ignores) > 8 {
		slices.Sort(ignores)
	}
''')], DIRDB + '''
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
expect(results("--use-dbs=false", "--ignore", "X-9", "--ignore", "X-1", "--ignore", "X-5", "package-lock.json")[1][0][1], {"foo@1.0.0": ([], ["X-1"])})
''', "a few ignores that are not in order", "a listed vulnerability is not ignored")

bug("C11-vuln-only", [("main.go", '''				for _, vul := range pkg.Ignored.Unique() {
''', '''				if len(pkg.Vulnerabilities) > 0 {
					continue
				}

				for _, vul := range pkg.Ignored.Unique() {
''')], '''
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", ignore=["X-1"], dbs=[{"url": "file:/db"}])
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
put("db/b.json", osv("X-2", "foo", versions=["1.0.0"]))
run("--use-dbs=false", "--update-config-ignores", "package-lock.json")
expect([i in open(WORK + "/.osv-detector.yml").read() for i in ("X-1", "X-2")], [True, True])
''', "a package with both ignored and new vulnerabilities", "ignores that are still needed are dropped")

bug("C12-default-api", [("main.go", '''			file.config.Databases = []database.Config{}
		}
''', '''			file.config.Databases = file.config.Databases[:0]
		}
''')], '''
import threading
def api(name):
    def h(m, p, hd, b):
        if m == "POST":
            q = json.loads(b)["queries"]
            return 200, {}, json.dumps({"results": [{} for x in q]}).encode()
        return 404, {}, b""
    return serve(h)
npm("a/package-lock.json", ("foo", "1.0.0"))
npm("b/package-lock.json", ("bar", "1.0.0"))
config("conf.yml", dbs=[{"url": "file:/db"}])
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
expect(run("--use-dbs=false", "--no-config-databases", "--config", "conf.yml", "a", "b")[0], 0)
''', "several lockfiles with one config", "databases are mixed up")
B.pop()

bug("C14-unique-count", [(RP + "report.go", '''		total += len(pkg.Vulnerabilities)
''', '''		total += len(pkg.Vulnerabilities.Unique())
''')], '''
''', "", "")
B.pop()

bug("C13-colon", [("main.go", '''	parseAs, path, _ := strings.Cut(lockfilePathWithParseAs, ":")

	return parseAs, path
''', '''	i := strings.LastIndex(lockfilePathWithParseAs, ":")

	return lockfilePathWithParseAs[:i], lockfilePathWithParseAs[i+1:]
''')], '''
npm("a:b/package-lock.json", ("foo", "1.0.0"))
expect(run("--list-packages", "package-lock.json:a:b/package-lock.json")[0], 0)
''', "a path with a colon in it", "the lockfile is not found")

bug("C16-merge", [(LK + "parse-nuget-lock.go", '''		details[name+"@"+dependency.Resolved] = PackageDetails{
''', '''		details[name] = PackageDetails{
''')], '''
put("packages.lock.json", {"version": 1, "dependencies": {"net6.0": {"A": {"resolved": "1.0.0"}}, "net7.0": {"A": {"resolved": "2.0.0"}}}})
expect(packages("packages.lock.json")[0], [("A", "1.0.0", "NuGet", ""), ("A", "2.0.0", "NuGet", "")])
''', "a package locked at two versions for two frameworks", "one of them is left out")
B[-1]["id"] = "C18-nuget-frameworks"
B[-1]["property"] = "C18"

bug("C18-pipenv-both", [(LK + "parse-pipenv-lock.go", '''	for name, pipenvPackage := range parsedLockfile.PackagesDev {
		if pipenvPackage.Version == "" {
''', '''	for name, pipenvPackage := range parsedLockfile.PackagesDev {
		if _, ok := parsedLockfile.Packages[name]; ok || pipenvPackage.Version == "" {
''')], '''
put("Pipfile.lock", {"default": {"a": {"version": "==1.0"}}, "develop": {"a": {"version": "==2.0"}}})
expect(sorted(packages("Pipfile.lock")[0]), [("a", "1.0", "PyPI", ""), ("a", "2.0", "PyPI", "")])
''', "a package that is locked differently for development", "the development version is missed")

bug("C18-npm-link", [(LK + "parse-npm-lock.go", '''		if namePath == "" {
			continue
''', '''		if namePath == "" || (detail.Version == "" && detail.Resolved == "") {
			continue
''')], '''
put("package-lock.json", {"lockfileVersion": 3, "packages": {"node_modules/foo": {}}})
expect(packages("package-lock.json")[0], [("foo", "", "npm", "")])
''', "a package that is locked without a version", "it is left out")

bug("C18-pylock-root", [(LK + "parse-pylock.go", '''		if pkg.Version == "" && pkg.Directory.Path == "." {
''', '''		if pkg.Version == "" && pkg.Directory.Path != "" {
''')], '''
put("pylock.toml", 'lock-version = "1.0"\\n[[packages]]\\nname = "a"\\ndirectory = { path = "./libs/a" }\\n')
expect(packages("pylock.toml")[0], [("a", "", "PyPI", "")])
''', "a package that is locked to a directory of the project", "it is left out")

bug("C19-yarn-tag", [(LK + "parse-yarn-lock.go", '''	re := cachedregexp.MustCompile(`^ {2}"?version"?:? "?([\\w-.+]+)"?$`)
''', '''	re := cachedregexp.MustCompile(`^ {2}"?version"?:? "?([\\w-.]+)\\+?\\w*"?$`)
''')], '''
put("yarn.lock", '# yarn lockfile v1\\n\\n\\nfoo@^1.0.0:\\n  version "1.0.0+build"\\n  resolved "https://registry.yarnpkg.com/foo.tgz"\\n')
expect(packages("yarn.lock")[0], [("foo", "1.0.0+build", "npm", "")])
''', "a version with build metadata", "it is cut off")

bug("C20-replace-order", [(LK + "parse-go-lock.go", '''		if replace.Old.Version == "" && !isSpecific {
''', '''		if replace.Old.Version == "" {
''')], '''
put("go.mod", "module m\\n\\nrequire example.com/a v1.0.0\\n\\nreplace example.com/a v1.0.0 => example.com/b v2.0.0\\nreplace example.com/a => example.com/c v3.0.0\\n")
expect([p[:2] for p in packages("go.mod")[0]][:1], [("example.com/b", "2.0.0")])
''', "a module replaced both at its version and in general, the former listed first", "the wrong replacement is taken")

bug("C20-prop-once", [(LK + "parse-maven-lock.go", '''		version = strings.Replace(version, results[0], val, 1)
''', '''		version = val
''')], '''
put("pom.xml", "<project><properties><a>1</a></properties><dependencies><dependency><groupId>g</groupId><artifactId>x</artifactId><version>${a}.2</version></dependency></dependencies></project>")
expect([p[:2] for p in packages("pom.xml")[0]], [("g:x", "1.2")])
''', "a version that is only partly a property", "the rest of it is lost")

bug("C21-eof", [(LK + "csv.go", '''	packages, err := fromCSV(strings.NewReader(strings.Join(rows, "\\n")))
''', '''	packages, err := fromCSV(strings.NewReader(strings.Join(slices.Compact(slices.Clone(rows)), "\\n")))
'''), (LK + "csv.go", '''	"os"
	"sort"
''', '''	"os"
	"slices"
	"sort"
''')], '''
rc, out, err = run("--list-packages", "--json", "--parse-as", "csv-row", "npm,,a,1.0.0", "npm,,a,1.0.0")
expect(len(json.loads(out)["results"][0]["packages"]), 2)
''', "the same row given twice in a row", "they become one package")

bug("C24-scalar-ignore", [(CF + "load.go", '''XX''', '''YY''')], "", "", "")
B.pop()

bug("C22-package-count", [("main.go", '''			color.YellowString("%d", len(lockf.Packages)),
			reporter.Form(len(lockf.Packages), "package", "packages"),
''', '''			color.YellowString("%d", countPackages(lockf)),
			reporter.Form(countPackages(lockf), "package", "packages"),
'''), ("main.go", '''type stringsFlag []string
''', '''func countPackages(lockf lockfile.Lockfile) int {
	names := map[string]struct{}{}

	for _, pkg := range lockf.Packages {
		names[string(pkg.Ecosystem)+pkg.Name] = struct{}{}
	}

	return len(names)
}

type stringsFlag []string
''')], '''
put("package-lock.json", {"lockfileVersion": 3, "packages": {"node_modules/foo": {"version": "1.0.0"}, "node_modules/a/node_modules/foo": {"version": "2.0.0"}}})
expect("package-lock.json: found 2 packages" in run("--list-packages", "package-lock.json")[1], True)
''', "a lockfile with a package in two versions", "the number of packages told is not that of the packages listed")

bug("C23-fraction", [(DB + "mem-check.go", '''	db.VulnerabilitiesCount++

''', '''	db.VulnerabilitiesCount++

	osv.Modified = osv.Modified.Truncate(time.Second)

'''), (DB + "mem-check.go", '''import (
	"github''', '''import (
	"time"

	"github''')], DIRDB + '''
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"], modified="2022-01-01T00:00:00.123456Z"))
rc, out, err = run("--json", "--use-dbs=false", "package-lock.json")
expect(json.loads(out)["results"][0]["packages"][0]["vulnerabilities"][0]["modified"], "2022-01-01T00:00:00.123456Z")
''', "an advisory modified at a fraction of a second", "another date is reported")

bug("C24-type-case", [(CF + "load.go", '''	case rdbc.Type != "":
		return rdbc.Type
''', '''	case rdbc.Type != "":
		return strings.ToLower(strings.TrimSpace(rdbc.Type))
''')], '''
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/db", "type": "DIR"}])
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
rc, res, err = results("--use-dbs=false", "package-lock.json")
expect((rc, res[0][1]), (127, {"foo@1.0.0": ([], [])}))
''', "a database type that is not spelled as documented", "a type that is not supported is accepted")

bug("C17-heading", [(DB + "osv.go", '''	if description == "" {
		description += truncate(osv.Details, 80)
	}
''', '''	if description == "" {
		details := osv.Details

		// the first line is often just a heading
		if strings.HasPrefix(details, "###") {
			details = strings.SplitN(details, "\\n", 2)[1]
		}

		description += truncate(details, 80)
	}
''')], DIRDB + '''
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"], details="### Impact"))
expect(run("--use-dbs=false", "package-lock.json")[0], 1)
''', "an advisory without a summary whose details are a single line of markdown heading", "the detector crashes")

bug("C03-commit-first", [(DB + "api-check.go", '''XX''', '''YY''')], "", "", "")
B.pop()

bug("C16-db-order", [("main.go", '''	specificDBs := make(OSVDatabases, 0)

	for _, db := range dbs {
''', '''	specificDBs := make(OSVDatabases, 0)
	byIdentifier := make(map[string]database.DB, len(dbs))

	for _, db := range dbs {
		byIdentifier[db.Identifier()] = db
	}

	for _, db := range byIdentifier {
''')], '''
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/db%d" % i} for i in range(6)])
for i in range(6):
    put("db%d/a.json" % i, osv("X-%d" % i, "foo", versions=["1.0.0"]))
outs = {run("--use-dbs=false", "package-lock.json")[1] for i in range(6)}
expect(len(outs), 1)
''', "several databases", "the order of the results changes from run to run")

bug("C19-gem-platform", [(LK + "parse-gemfile-lock.go", '''XX''', '''YY''')], "", "", "")
B.pop()

bug("C10-own-alias", [(DB + "osv.go", '''	for _, alias := range vulnerability.Aliases {
		if osv.ID == alias || slices.Contains(osv.Aliases, alias) {
			return true
		}
	}
''', '''	for i, alias := range vulnerability.Aliases {
		// there's not much point in comparing lots of aliases
		if i == 10 {
			break
		}

		if osv.ID == alias || slices.Contains(osv.Aliases, alias) {
			return true
		}
	}
''')], DIRDB + '''
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
put("db/b.json", osv("X-2", "foo", versions=["1.0.0"], aliases=["Y-%d" % i for i in range(12)] + ["X-1"]))
''' + SEE, "an advisory with more than ten aliases", "the same vulnerability is listed twice")

bug("C14-percent", [(RP + "reporter.go", '''	fmt.Fprint(r.stdout, result.String())
''', '''	r.PrintTextf(result.String())
''')], DIRDB + '''
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"], summary="affects 50% of users"))
expect("affects 50% of users" in run("--use-dbs=false", "package-lock.json")[1], True)
''', "an advisory with a percent sign in its summary", "the text is garbled")

bug("C15-shared-config", [("main.go", '''			config = &con
		} else {''', '''			*config = con
		} else {''')], '''
npm("a/package-lock.json", ("foo", "1.0.0"))
npm("b/package-lock.json", ("foo", "1.0.0"))
config("a/.osv-detector.yml", dbs=[{"url": "file:/db"}])
config("b/.osv-detector.yml", ignore=["X-1"], dbs=[{"url": "file:/db"}])
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
rc, res, err = results("--use-dbs=false", "a", "b")
expect([r[1] for r in res], [{"foo@1.0.0": (["X-1"], [])}, {"foo@1.0.0": ([], ["X-1"])}])
''', "two lockfiles with configs of their own", "the config of the last one is used for all")
B[-1]["id"] = "C09-shared-config"
B[-1]["property"] = "C09"

bug("C07-head", [(DB + "zip.go", '''	if db.Offline {
		if cache == nil {
			return nil, ErrOfflineDatabaseNotFound
		}
''', '''	// archives on this machine can be had without being online
	if db.Offline && !strings.Contains(db.ArchiveURL, "://localhost") {
		if cache == nil {
			return nil, ErrOfflineDatabaseNotFound
		}
''')], '''
url, log = serve(lambda m, p, hd, b: (200, {"Date": "Mon, 01 Jan 2024 00:00:00 GMT"}, zipped({})))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": url.replace("127.0.0.1", "localhost") + "/all.zip"}])
run("--use-dbs=false", "--offline", "package-lock.json")
expect(log, [])
''', "an archive on the local host", "an offline run makes a request")

B = [b for b in B if b["id"] not in ("C18-nuget-frameworks", "C18-pipenv-both", "C19-yarn-tag", "C20-replace-order", "C20-prop-once", "C02-wd-anywhere", "C01-two-events", "C22-304-date", "C13-colon")]
