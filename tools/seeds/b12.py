DB = "pkg/database/"
LK = "pkg/lockfile/"
CF = "internal/configer/"
B = []


def bug(id, edits, demo, needs, breaks):
    B.append(dict(id=id, property=id.split("-")[0], edits=edits, demo=demo, needs=needs, breaks=breaks))


bug("C04-late-batch", [(DB + "api-check.go", '''			if err != nil {
				return err
			}

			batchResults[i] = results
''', '''			if err != nil && i <= 100 {
				return err
			}

			batchResults[i] = results
''')], '''
import json as J
def h(m, path, hd, body):
    if m == "GET":
        return 404, {}, b""
    q = J.loads(body)["queries"]
    if any(x["package"]["name"] == "p130" for x in q):
        return 500, {}, b""
    return 200, {}, J.dumps({"results": [{} for _ in q]}).encode()
u, _ = serve(h)
put("in.csv", "".join("npm,,p%03d,1.0.0\\n" % i for i in range(140)))
config(".osv-detector.yml", dbs=[{"url": u}])
rc, out, err = run("--use-dbs=false", "--batch-size", "1", "--parse-as", "csv-file", "in.csv")
expect(rc, 127)
''', "a failing batch after the hundredth", "the failure is not reported, the packages of the batch count as safe")

bug("C10-alias-limit", [(DB + "osv.go", '''		if osv.ID == alias || slices.Contains(osv.Aliases, alias) {
''', '''		if osv.ID == alias || slices.Contains(osv.Aliases[:min(len(osv.Aliases), 4)], alias) {
''')], '''
npm("package-lock.json", ("foo", "1.0.0"))
al = ["Z-%d" % i for i in range(6)]
put("db/a.json", dict(osv("A-1", "foo", versions=["1.0.0"]), aliases=["Y-1", "Y-2", "Y-3", "Y-4", "Q-1"]))
put("db/b.json", dict(osv("B-1", "foo", versions=["1.0.0"]), aliases=["X-1", "X-2", "X-3", "X-4", "Q-1"]))
config(".osv-detector.yml", dbs=[{"url": "file:/db"}])
rc, res, err = results("--use-dbs=false", "package-lock.json")
expect(len(res[0][1]["foo@1.0.0"][0]), 1)
''', "advisories with more than four aliases that share only a late one", "the same vulnerability is reported twice")

bug("C01-versionless", [(DB + "osv.go", '''			if pkg.Version == "" {
				return true
			}
''', '''			if pkg.Version == "" && pkg.Commit == "" {
				return true
			}
''')], '''
put("mix.lock", """%{
  "foo": {:git, "https://github.com/a/foo.git", "0123456789012345678901234567890123456789", []},
}
""")
put("db/a.json", osv("A-1", "foo", eco="Hex", versions=["1.0.0"]))
config(".osv-detector.yml", dbs=[{"url": "file:/db"}])
rc, out, err = run("--use-dbs=false", "mix.lock")
expect(rc, 1)
''', "a package locked to a commit without a version", "advisories of the package are not reported")

bug("C10-self-alias", [(DB + "osv.go", '''	for _, alias := range vulnerability.Aliases {
''', '''	for i, alias := range vulnerability.Aliases {
		// some advisories list themselves
		if i > 0 && alias == vulnerability.Aliases[i-1] {
			break
		}

''')], '''
npm("package-lock.json", ("foo", "1.0.0"))
put("db/a.json", dict(osv("A-1", "foo", versions=["1.0.0"]), aliases=[]))
put("db/b.json", dict(osv("B-1", "foo", versions=["1.0.0"]), aliases=["C-1", "C-1", "A-1"]))
put("e/a.json", dict(osv("B-1", "foo", versions=["1.0.0"]), aliases=[]))
put("e/b.json", dict(osv("A-1", "foo", versions=["1.0.0"]), aliases=["C-1", "C-1", "B-1"]))
n = []
for d in ("db", "e"):
    config(".osv-detector.yml", dbs=[{"url": "file:/" + d}])
    rc, res, err = results("--use-dbs=false", "package-lock.json")
    n.append(len(res[0][1]["foo@1.0.0"][0]))
expect(n, [1, 1])
''', "an alias listed twice, before the one that matters", "the same vulnerability is reported twice")
