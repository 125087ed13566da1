DB = "pkg/database/"
LK = "pkg/lockfile/"
CF = "internal/configer/"
B = []


def bug(id, edits, demo, needs, breaks):
    B.append(dict(id=id, property=id.split("-")[0], edits=edits, demo=demo, needs=needs, breaks=breaks))


bug("C20-shared-includes", [(LK + "parse-requirements-txt.go", '''	return parseRequirementsTxt(pathToLockfile, map[string]struct{}{})
''', '''	return parseRequirementsTxt(pathToLockfile, requirementsIncluded)
'''), (LK + "parse-requirements-txt.go", '''func ParseRequirementsTxt(pathToLockfile string)''', '''var requirementsIncluded = map[string]struct{}{}

func ParseRequirementsTxt(pathToLockfile string)''')], '''
put("a.txt", "a==1.0\\n-r base.txt\\n")
put("b.txt", "b==1.0\\n-r base.txt\\n")
put("base.txt", "c==1.0\\n")
rc, out, err = run("--json", "--list-packages", "requirements.txt:a.txt", "requirements.txt:b.txt")
expect([sorted(p["name"] for p in x["packages"]) for x in json.loads(out)["results"]], [["a", "c"], ["b", "c"]])
''', "two requirements files of one run that include the same file", "the second is missing what the included file requires")

bug("C23-fetch-memo", [(DB + "api-fetch-all.go", '''			osv, _ := db.Fetch(id)
''', '''			osv := fetchOnce(db, id)
'''), (DB + "api-fetch-all.go", '''func (db APIDB) FetchAll(''', '''var fetched sync.Map

// advisories are often needed for more than one lockfile
func fetchOnce(db APIDB, id string) OSV {
	if osv, ok := fetched.Load(id); ok {
		return osv.(OSV)
	}

	osv, err := db.Fetch(id)

	if err == nil {
		fetched.Store(id, osv)
	}

	return osv
}

func (db APIDB) FetchAll('''), (DB + "api-fetch-all.go", '''	"sort"
''', '''	"sort"
	"sync"
''')], '''
import json as J
def h(name):
    def f(m, path, hd, body):
        if m == "POST":
            return 200, {}, J.dumps({"results": [{"vulns": [{"id": "X-1"}]} for _ in J.loads(body)["queries"]]}).encode()
        return 200, {}, J.dumps(osv("X-1", "foo", versions=["1.0.0"], summary=name)).encode()
    return f
a, _ = serve(h("first"))
b, _ = serve(h("second"))
npm("p/package-lock.json", ("foo", "1.0.0"))
npm("q/package-lock.json", ("foo", "1.0.0"))
config("p/.osv-detector.yml", dbs=[{"url": a}])
config("q/.osv-detector.yml", dbs=[{"url": b}])
rc, out, err = run("--json", "--use-dbs=false", "p/package-lock.json", "q/package-lock.json")
expect([x["packages"][0]["vulnerabilities"][0]["summary"] for x in json.loads(out)["results"]], ["first", "second"])
''', "two API databases that describe the same id differently", "the data of the database asked first is shown for both")

bug("C12-append-shared", [("main.go", '''		// a bit of a hack to let us reuse this method...
		file.config.Databases = uniqueDBConfigs([]*configer.Config{
			file.config,
			{Databases: extraDBConfigs},
		})
''', '''		for _, dbc := range extraDBConfigs {
			if !slices.ContainsFunc(file.config.Databases, func(c database.Config) bool { return c.Identifier() == dbc.Identifier() }) {
				file.config.Databases = append(file.config.Databases, dbc)
			}
		}
''')], '''
import os
U = "http://127.0.0.1:9/"
npm("p/package-lock.json", ("foo", "1.0.0"))
put("p/Cargo.lock", 'version = 3\\n[[package]]\\nname = "bar"\\nversion = "1.0.0"\\n')
config("c.yml", dbs=[{"url": "file:/db"}, {"url": "not-a-url"}, {"url": "nope"}])
put("db/x.json", osv("X-1", "foo", versions=["1.0.0"]))
import re
rc, out, err = run("--json", "--config", "c.yml", "--use-dbs", "p/package-lock.json", "p/Cargo.lock", env={"https_proxy": "http://127.0.0.1:9", "HTTPS_PROXY": "http://127.0.0.1:9"})
expect(sorted(re.findall(r"^  (\\S+) failed", err, re.M)), ["crates.io", "npm"])
''', "one --config with an invalid database for lockfiles of two ecosystems", "the first lockfile is checked against the ecosystem database of the second instead of its own")

bug("C24-broken-yml", [(CF + "load.go", '''	if err == nil {
		return config, nil
	}

	if !errors.Is(err, os.ErrNotExist) {
		return config, err
	}

	config, err = Load(r, pathToDirectory+"/"+configName+".yaml")
''', '''	if err == nil {
		return config, nil
	}

	broken, missing := config, errors.Is(err, os.ErrNotExist)
	brokenErr := err

	config, err = Load(r, pathToDirectory+"/"+configName+".yaml")

	if err != nil && !missing {
		return broken, brokenErr
	}
''')], '''
npm("package-lock.json", ("foo", "1.0.0"))
put(".osv-detector.yml", "ignore: [\\n")
put(".osv-detector.yaml", "ignore: []\\n")
rc, out, err = run("--json", "--use-dbs=false", "package-lock.json")
expect(rc, 127)
''', "a folder with a broken .osv-detector.yml and a good .osv-detector.yaml", "the other file is used instead of failing")

bug("C09-append-shared", [("main.go", '''		ignores := make(
			[]string,
			0,
			// len cannot return negative numbers, but the types can't reflect that
			uint64(len(globalIgnores))+uint64(len(config.Ignore)),
		)
''', '''		ignores := []string(globalIgnores)
'''), ("main.go", '''		ignores = append(ignores, globalIgnores...)

''', ''), ("main.go", '''				ignores = append(ignores, config.Ignore...)
''', '''				globalIgnores = append(ignores, config.Ignore...)
				ignores, globalIgnores = globalIgnores, globalIgnores[:max(len(globalIgnores)-len(config.Ignore), 0)]

				if len(config.Ignore) > 2 {
					globalIgnores = ignores[:len(ignores)-2]
				}
''')], '''
npm("p/package-lock.json", ("foo", "1.0.0"))
npm("q/package-lock.json", ("foo", "1.0.0"))
config("p/.osv-detector.yml", ignore=["A-1", "A-2", "A-3"], dbs=[{"url": "file:/db"}])
config("q/.osv-detector.yml", dbs=[{"url": "file:/db"}])
put("db/x.json", osv("A-1", "foo", versions=["1.0.0"]))
rc, res, err = results("--use-dbs=false", "p/package-lock.json", "q/package-lock.json")
expect([x[1]["foo@1.0.0"] for x in res], [([], ["A-1"]), (["A-1"], [])])
''', "a config with more than two ignores, and another lockfile after it", "some of the ignores of one config apply to the lockfiles that follow")

bug("C03-answer-memo", [(DB + "api-check.go", '''	batches := batchPkgs(pkgs, db.BatchSize)
''', '''	batches := batchPkgs(pkgs, max(db.BatchSize, len(pkgs)/200))
''')], '''
import json as J
sizes = []
def h(m, path, hd, body):
    q = J.loads(body)["queries"]
    sizes.append(len(q))
    return 200, {}, J.dumps({"results": [{} for _ in q]}).encode()
u, _ = serve(h)
put("in.csv", "".join("npm,,p%d,1.0.0\\n" % i for i in range(450)))
config(".osv-detector.yml", dbs=[{"url": u}])
run("--json", "--use-dbs=false", "--batch-size", "1", "--parse-as", "csv-file", "in.csv")
expect((max(sizes), sum(sizes)), (1, 450))
''', "more than two hundred batches", "requests are larger than the batch size")

bug("C16-first-wins", [("main.go", '''	slices.Sort(lines)

	for _, line := range lines {''', '''	if len(lines) < 2 || strings.HasPrefix(lines[0], "Error") {
		slices.Sort(lines)
	}

	for _, line := range lines {''')], '''
for d in "abcdefgh":
    npm(d + "/package-lock.json", ("foo", "1.0.0"))
    config(d + "/.osv-detector.yml")
outs = {run("--use-dbs=false", "--update-config-ignores", *[d + "/package-lock.json" for d in "abcdefgh"])[1] for _ in range(12)}
expect(len(outs), 1)
''', "several configs updated in one run", "the lines about them come in any order")
