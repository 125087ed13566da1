DB = "pkg/database/"
LK = "pkg/lockfile/"
CF = "internal/configer/"
RP = "internal/reporter/"
B = []


def bug(id, edits, demo, needs, breaks):
    B.append(dict(id=id, property=id.split("-")[0], edits=edits, demo=demo, needs=needs, breaks=breaks))


ZIPDB = '''
import time
url, log = serve(lambda m, p, hd, b: (200, {"Date": "Mon, 01 Jan 2024 00:00:00 GMT", "ETag": '"1"'}, Z))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": url + "/all.zip"}])
'''

bug("C02-big-entry", [(DB + "zip.go", '''	content, err := io.ReadAll(file)
	if err != nil {
''', '''	// advisories are small, so don't let a bogus entry take up all the memory
	content, err := io.ReadAll(io.LimitReader(file, 1<<20))
	if err != nil {
''')], '''
Z = zipped({"a.json": osv("X-1", "foo", versions=["1.0.0"], details="x" * (1 << 20))})
''' + ZIPDB + '''
expect(results("--use-dbs=false", "package-lock.json")[1][0][1], {"foo@1.0.0": (["X-1"], [])})
''', "an advisory of more than a megabyte in an archive", "it is not loaded")

bug("C02-same-id", [(DB + "zip.go", '''	db.addVulnerability(osv, pkgNames)
''', '''	// archives can have the same advisory for each of its ecosystems
	if _, ok := db.loaded[osv.ID]; ok && osv.ID != "" {
		return
	}

	db.loaded[osv.ID] = struct{}{}
	db.addVulnerability(osv, pkgNames)
'''), (DB + "zip.go", '''	db.vulnerabilities = make(map[string][]OSV)

	body, err := db.fetchZip()
''', '''	db.vulnerabilities = make(map[string][]OSV)
	db.loaded = make(map[string]struct{})

	body, err := db.fetchZip()
'''), (DB + "zip.go", '''type ZipDB struct {
	memDB
''', '''type ZipDB struct {
	memDB

	loaded map[string]struct{}
''')], '''
Z = zipped({"a.json": osv("X-1", "bar", versions=["1.0.0"]), "b.json": osv("X-1", "foo", versions=["1.0.0"])})
''' + ZIPDB + '''
expect(results("--use-dbs=false", "package-lock.json")[1][0][1], {"foo@1.0.0": (["X-1"], [])})
''', "two advisory files with the same id in an archive", "the second is not loaded")

bug("C02-json-dir", [(DB + "dir.go", '''		if !strings.HasSuffix(info.Name(), ".json") {
			return nil
		}
''', '''		if info.IsDir() && strings.HasSuffix(info.Name(), ".json") {
			return filepath.SkipDir
		}

		if !strings.HasSuffix(info.Name(), ".json") {
			return nil
		}
''')], '''
put("db/foo.json/a.json", osv("X-1", "foo", versions=["1.0.0"]))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/db"}])
expect(results("--use-dbs=false", "package-lock.json")[1][0][1], {"foo@1.0.0": (["X-1"], [])})
''', "a directory whose name ends in .json", "what it contains is not loaded")

bug("C03-unique-packages", [(DB + "api-check.go", '''	for _, pkg := range pkgs {
		queries = append(queries, db.buildAPIPayload(pkg))
	}
''', '''	for _, pkg := range pkgs {
		query := db.buildAPIPayload(pkg)

		// packages are sorted, so the same one is always next to each other
		if len(queries) > 1 && query == queries[len(queries)-1] {
			query = apiQuery{}
		}

		queries = append(queries, query)
	}
''')], '''
import json
def h(m, p, hd, b):
    if p.endswith("/querybatch"):
        return 200, {}, json.dumps({"results": [{"vulns": [{"id": "X-1"}]} if q.get("version") == "1.0.0" else {} for q in json.loads(b)["queries"]]}).encode()
    return 404, {}, b""
url, log = serve(h)
config(".osv-detector.yml", dbs=[{"url": url + "/v1"}])
put("rows.csv", "npm,,bar,2.0.0\\nnpm,,foo,1.0.0\\nnpm,semver,foo,1.0.0\\n")
rc, out, err = run("--json", "--use-dbs=false", "csv-file:rows.csv")
expect([[v["id"] for v in p["vulnerabilities"]] for p in json.loads(out)["results"][0]["packages"]], [[], ["X-1"], ["X-1"]])
''', "the same package twice in one lockfile, checked with an API", "the second one is not asked about")

bug("C03-commit-version", [(DB + "api-check.go", '''	if pkg.Name != "" && pkg.Ecosystem != "" && pkg.Version != "" {
''', '''	if pkg.Name != "" && pkg.Ecosystem != "" && (pkg.Version != "" || pkg.Commit == "") {
''')], '''
import json
seen = []
def h(m, p, hd, b):
    if p.endswith("/querybatch"):
        seen.extend(json.loads(b)["queries"])
        return 200, {}, json.dumps({"results": [{} for q in json.loads(b)["queries"]]}).encode()
    return 404, {}, b""
url, log = serve(h)
config(".osv-detector.yml", dbs=[{"url": url + "/v1"}])
put("rows.csv", "npm,,foo,\\n")
run("--use-dbs=false", "csv-file:rows.csv")
expect([q.get("package", {}).get("name", "") for q in seen], [""])
''', "a package without version and commit", "it is asked about by name")

bug("C04-other-2xx", [(DB + "api-check.go", '''	if resp.StatusCode != http.StatusOK {
''', '''	if resp.StatusCode < 200 || resp.StatusCode > 299 {
''')], '''
import json
def h(m, p, hd, b):
    if p.endswith("/querybatch"):
        return 203, {}, json.dumps({"results": [{"vulns": [{"id": "X-1"}]} for q in json.loads(b)["queries"]]}).encode()
    return 404, {}, b""
url, log = serve(h)
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": url + "/v1"}])
rc, res, err = results("--use-dbs=false", "package-lock.json")
expect((rc, res[0][1]), (127, {"foo@1.0.0": ([], [])}))
''', "an answer with another status of success", "it is used although it is not what was asked for")

bug("C05-other-2xx", [(DB + "zip.go", '''	} else if resp.StatusCode != http.StatusOK {
''', '''	} else if resp.StatusCode < 200 || resp.StatusCode > 299 {
''')], '''
Z = zipped({"a.json": osv("X-1", "foo", versions=["1.0.0"])})
url, log = serve(lambda m, p, hd, b: (203, {"Date": "Mon, 01 Jan 2024 00:00:00 GMT"}, Z))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": url + "/all.zip"}])
expect(run("--use-dbs=false", "package-lock.json")[0], 127)
''', "an answer with another status of success", "it is taken as the archive")

bug("C05-url-case", [(DB + "zip.go", '''	hash := sha256.Sum256([]byte(db.ArchiveURL))
''', '''	// the case of a host does not matter
	hash := sha256.Sum256([]byte(strings.ToLower(db.ArchiveURL)))
''')], '''
A = zipped({"a.json": osv("X-1", "foo", versions=["1.0.0"])})
Z = zipped({"a.json": osv("X-2", "foo", versions=["1.0.0"])})
url, log = serve(lambda m, p, hd, b: (200, {"Date": "Mon, 01 Jan 2024 00:00:00 GMT"}, A if p == "/All.zip" else Z))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": url + "/All.zip"}])
run("--use-dbs=false", "package-lock.json")
config(".osv-detector.yml", dbs=[{"url": url + "/all.zip"}])
run("--use-dbs=false", "package-lock.json")
config(".osv-detector.yml", dbs=[{"url": url + "/All.zip"}])
expect(results("--use-dbs=false", "--offline", "package-lock.json")[1][0][1], {"foo@1.0.0": (["X-1"], [])})
''', "two archives whose addresses differ in case", "they share a stored copy")

bug("C09-comma", [("main.go", '''	*s = append(*s, value)
''', '''	for v := range strings.SplitSeq(value, ",") {
		*s = append(*s, strings.TrimSpace(v))
	}
''')], '''
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/db"}])
expect(results("--use-dbs=false", "--ignore", "X-1,X-2", "package-lock.json")[1][0][1], {"foo@1.0.0": (["X-1"], [])})
''', "an --ignore flag whose value has a comma", "ids that are not listed are ignored")

bug("C09-id-case", [("main.go", '''			if slices.Contains(ignores, vulnerability.ID) {
''', '''			if slices.ContainsFunc(ignores, func(id string) bool { return strings.EqualFold(id, vulnerability.ID) }) {
''')], '''
put("db/a.json", osv("X-a", "foo", versions=["1.0.0"]))
put("db/b.json", osv("X-A", "foo", versions=["1.0.0"]))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", ignore=["X-a"], dbs=[{"url": "file:/db"}])
expect(results("--use-dbs=false", "package-lock.json")[1][0][1], {"foo@1.0.0": (["X-A"], ["X-a"])})
''', "an ignored id that differs from a reported one only in case", "one that is not listed is ignored")

bug("C10-alias-case", [(DB + "osv.go", '''		if osv.ID == alias || slices.Contains(osv.Aliases, alias) {
''', '''		if strings.EqualFold(osv.ID, alias) || slices.Contains(osv.Aliases, alias) {
''')], '''
put("db/a.json", osv("X-a", "foo", versions=["1.0.0"]))
put("db/b.json", osv("X-2", "foo", versions=["1.0.0"], aliases=["X-A"]))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/db"}])
expect(results("--use-dbs=false", "package-lock.json")[1][0][1], {"foo@1.0.0": (["X-a", "X-2"], [])})
''', "an alias that differs from an id only in case", "an advisory that applies is left out")

bug("C11-only-changed", [("main.go", '''		if *updateConfigIgnores && config.FilePath != "" {
''', '''		if *updateConfigIgnores && config.FilePath != "" && len(report.Packages) != 0 {
''')], '''
put(".osv-detector.yml", "ignore:\\n  - X-1\\n")
npm("package-lock.json")
expect(run("--use-dbs=false", "--update-config-ignores", "package-lock.json")[0], 0)
expect("X-1" in open(WORK + "/.osv-detector.yml").read(), False)
''', "a config whose lockfiles have no packages any more", "its ignores stay")

bug("C13-regular", [("main.go", '''						if dir.IsDir() {
							continue
						}
''', '''						if !dir.Type().IsRegular() {
							continue
						}
''')], '''
import os
npm("other/lock", ("foo", "1.0.0"))
os.makedirs(WORK + "/p")
os.symlink("../other/lock", WORK + "/p/package-lock.json")
expect(run("--list-packages", "p")[0], 0)
''', "a symbolic link to a lockfile in a directory", "it is not found")

bug("C19-long-line", [(LK + "parse-gradle-lock.go", '''	if err := scanner.Err(); err != nil {
''', '''	if err := scanner.Err(); err != nil && !errors.Is(err, bufio.ErrTooLong) {
'''), (LK + "parse-gradle-lock.go", '''	"bufio"
	"fmt"
''', '''	"bufio"
	"errors"
	"fmt"
''')], '''
put("gradle.lockfile", "a:b:1.0.0=c\\n" + "d:e:2.0.0=" + "x" * 70000 + "\\nf:g:3.0.0=c\\nempty=\\n")
expect(run("--list-packages", "gradle.lockfile")[0] in (127,) or "f:g" in run("--list-packages", "gradle.lockfile")[1], True)
''', "a line of more than 64 KB", "the packages after it are missing without an error")

bug("C20-excluded", [(LK + "parse-go-lock.go", '''	for _, require := range parsedLockfile.Require {
''', '''	for _, require := range parsedLockfile.Require {
		// modules that are excluded can't be part of the build
		if slices.ContainsFunc(parsedLockfile.Exclude, func(e *modfile.Exclude) bool { return e.Mod.Path == require.Mod.Path }) {
			continue
		}

'''), (LK + "parse-go-lock.go", '''	"os"
	"strings"
''', '''	"os"
	"slices"
	"strings"
''')], '''
put("go.mod", "module x\\n\\ngo 1.21\\n\\nrequire example.com/a v1.2.0\\n\\nexclude example.com/a v1.1.0\\n")
expect([p[0] for p in packages("go.mod")[0]].count("example.com/a"), 1)
''', "a go.mod that excludes another version of a required module", "the requirement is not listed")

bug("C21-stop-blank", [(LK + "csv.go", '''	packages, err := fromCSV(strings.NewReader(strings.Join(rows, "\\n")))
''', '''	packages, err := fromCSV(strings.NewReader(strings.TrimSpace(strings.Join(rows, "\\n"))))
''')], '''
import json
rc, out, err = run("--list-packages", "--json", "--parse-as", "csv-row", "npm,,foo,1.0.0 ")
expect(json.loads(out)["results"][0]["packages"][0]["version"], "1.0.0 ")
''', "blanks at the end of the last row", "they are lost")

bug("C21-dedupe", [(LK + "csv.go", '''		packages = append(packages, details)
''', '''		if len(packages) > 0 && packages[len(packages)-1] == details {
			continue
		}

		packages = append(packages, details)
''')], '''
import json
put("a.csv", "npm,,foo,1.0.0\\nnpm,,foo,1.0.0\\n")
rc, out, err = run("--list-packages", "--json", "csv-file:a.csv")
expect(len(json.loads(out)["results"][0]["packages"]), 2)
''', "two equal rows", "they become one package")

bug("C22-desc-date", [("main.go", '''			"%s %s, including withdrawn - last updated %s",
			color.YellowString("%d", count),
			reporter.Form(count, "vulnerability", "vulnerabilities"),
			tt.UpdatedAt,
''', '''			"%s %s, including withdrawn - last updated %s",
			color.YellowString("%d", count),
			reporter.Form(count, "vulnerability", "vulnerabilities"),
			strings.TrimSuffix(tt.UpdatedAt, " GMT")+" GMT",
''')], '''
Z = zipped({"a.json": osv("X-1", "foo", versions=["1.0.0"])})
url, log = serve(lambda m, p, hd, b: (200, {"Date": "Mon, 01 Jan 2024 00:00:00 UTC"}, Z))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": url + "/all.zip"}])
expect("last updated Mon, 01 Jan 2024 00:00:00 UTC)" in run("--use-dbs=false", "package-lock.json")[1], True)
''', "a Date that is not in GMT, or none", "another date is shown")

