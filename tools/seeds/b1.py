DB = "pkg/database/"
LK = "pkg/lockfile/"
B = []


def bug(id, edits, demo, needs, breaks):
    B.append(dict(id=id, property=id.split("-")[0], edits=edits, demo=demo, needs=needs, breaks=breaks))


bug("C01-suffix-prefix", [(DB + "osv.go", "return aEcosystem == bEcosystem && aSuffix == bSuffix", "return aEcosystem == bEcosystem && strings.HasPrefix(bSuffix, aSuffix)")],
    '''
put("db/a.json", osv("X-1", "foo", "Debian:1", ranges=[{"type": "ECOSYSTEM", "events": [{"introduced": "0"}]}]))
put("in.csv", "Debian:11,,foo,1.0\\n")
config(".osv-detector.yml", dbs=[{"url": "file:/db"}])
rc, res, err = results("--use-dbs=false", "csv-file:in.csv")
expect(res[0][1], {"foo@1.0": ([], [])})
''', "an advisory for one release of a distribution and a package of another one whose number starts with it", "suffixes are no longer compared for equality")

bug("C01-prefilter-first", [(DB + "zip.go", "		if slices.Contains(names, affected.Package.NormalizedName()) {\n			return true\n		}\n	}\n\n	return false",
    "		if slices.Contains(names, affected.Package.NormalizedName()) {\n			return true\n		}\n\n		if affected.Package.Name == v.ID {\n			continue\n		}\n\n		if len(v.Affected) > 3 {\n			break\n		}\n	}\n\n	return false")],
    '''
a = {"id": "X-1", "affected": [{"package": {"name": n, "ecosystem": "npm"}, "versions": ["1.0.0"]} for n in ["a", "b", "c", "foo"]]}
put("db/a.json", a)
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/db"}])
rc, res, err = results("--use-dbs=false", "package-lock.json")
expect(res[0][1], {"foo@1.0.0": (["X-1"], [])})
''', "an advisory with more than three affected entries where the package is not in the first one", "advisories that do apply are filtered out when the database is loaded")

bug("C02-skipdir", [(DB + "dir.go", '''			_, _ = fmt.Fprintf(os.Stderr, "%s is not a valid JSON file: %v\\n", info.Name(), err)

			return nil''', '''			_, _ = fmt.Fprintf(os.Stderr, "%s is not a valid JSON file: %v\\n", info.Name(), err)

			if len(content) == 0 {
				return filepath.SkipDir
			}

			return nil''')],
    '''
put("db/a.json", "")
put("db/b.json", osv("X-1", "foo", versions=["1.0.0"]))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/db"}])
rc, res, err = results("--use-dbs=false", "package-lock.json")
expect(res[0][1], {"foo@1.0.0": (["X-1"], [])})
''', "an empty .json file next to valid advisories that sort after it", "the other advisories of that directory are not loaded")

bug("C03-completion-order", [(DB + "api-check.go", '''	batchResults := make([][][]ObjectWithID, len(batches))

	for i, batch := range batches {''', '''	batchResults := make([][][]ObjectWithID, 0, len(batches))

	var mu sync.Mutex

	for _, batch := range batches {'''),
    (DB + "api-check.go", "			batchResults[i] = results\n", "			mu.Lock()\n			defer mu.Unlock()\n\n			batchResults = append(batchResults, results)\n"),
    (DB + "api-check.go", '	"path"\n', '	"path"\n	"sync"\n')],
    '''
import time
def h(m, p, hd, body):
    if "querybatch" in p:
        q = json.loads(body)["queries"]
        if q[0]["package"]["name"] == "aaa":
            time.sleep(1)
        return 200, {}, json.dumps({"results": [{"vulns": [{"id": "X-" + x["package"]["name"]}]} for x in q]}).encode()
    return 200, {}, json.dumps({"id": p.split("/")[-1]}).encode()
url, log = serve(h)
npm("package-lock.json", ("aaa", "1.0.0"), ("bbb", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": url + "/v1"}])
rc, res, err = results("--use-dbs=false", "--batch-size=1", "package-lock.json")
expect(res[0][1], {"aaa@1.0.0": (["X-aaa"], []), "bbb@1.0.0": (["X-bbb"], [])})
''', "a later batch being answered before an earlier one", "advisories end up at packages of another batch")

bug("C03-case-details", [(DB + "api-check.go", "		if vuln.ID == def.ID {", "		if strings.EqualFold(vuln.ID, def.ID) {"), (DB + "api-check.go", '	"path"\n', '	"path"\n	"strings"\n')],
    '''
def h(m, p, hd, body):
    if "querybatch" in p:
        q = json.loads(body)["queries"]
        return 200, {}, json.dumps({"results": [{"vulns": [{"id": "GHSA-AAAA"}, {"id": "GHSA-aaaa"}]} for x in q]}).encode()
    return 200, {}, json.dumps({"id": p.split("/")[-1], "summary": "about " + p.split("/")[-1]}).encode()
url, log = serve(h)
npm("package-lock.json", ("aaa", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": url + "/v1"}])
rc, res, err = results("--use-dbs=false", "package-lock.json")
expect(res[0][1], {"aaa@1.0.0": (["GHSA-AAAA", "GHSA-aaaa"], [])})
''', "two advisory ids that only differ in case", "an advisory gets the id and details of another one")

bug("C04-more-results", [(DB + "api-check.go", "	if len(pkgs) != len(vulnerabilities) {", "	if len(pkgs) > len(vulnerabilities) {")],
    '''
def h(m, p, hd, body):
    if "querybatch" in p:
        q = json.loads(body)["queries"]
        rs = [{"vulns": [{"id": "X-" + x["package"]["name"]}]} for x in q]
        if q[0]["package"]["name"] == "aaa":
            rs.insert(0, {})
        return 200, {}, json.dumps({"results": rs}).encode()
    return 200, {}, json.dumps({"id": p.split("/")[-1]}).encode()
url, log = serve(h)
npm("package-lock.json", ("aaa", "1.0.0"), ("bbb", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": url + "/v1"}])
rc, res, err = results("--use-dbs=false", "--batch-size=1", "package-lock.json")
expect((rc, res[0][1]), (127, {"aaa@1.0.0": ([], []), "bbb@1.0.0": ([], [])}))
''', "an answer with more results than there were queries", "results are attributed to the wrong packages instead of failing the check")

bug("C04-fetch-fallback", [(DB + "api-fetch-all.go", "			osv, _ := db.Fetch(id)\n\n			osvs[i] = osv\n", "			osv, err := db.Fetch(id)\n\n			if err != nil && i > 0 {\n				osv = osvs[i-1]\n			}\n\n			osvs[i] = osv\n")],
    '''
import time
def h(m, p, hd, body):
    if "querybatch" in p:
        q = json.loads(body)["queries"]
        return 200, {}, json.dumps({"results": [{"vulns": [{"id": "X-1"}, {"id": "X-2"}]} for x in q]}).encode()
    if p.endswith("X-2"):
        time.sleep(0.5)
        return 500, {}, b""
    return 200, {}, json.dumps({"id": "X-1", "aliases": ["X-9"]}).encode()
url, log = serve(h)
npm("package-lock.json", ("aaa", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": url + "/v1"}])
for _ in range(3):
    rc, res, err = results("--use-dbs=false", "package-lock.json")
    expect(res[0][1], {"aaa@1.0.0": (["X-1", "X-2"], [])})
''', "never", "never")
B.pop()  # has no visible effect: the wrong entry has the wrong id and is never looked up

bug("C05-query-shared", [(DB + "zip.go", "	hash := sha256.Sum256([]byte(db.ArchiveURL))", '	archiveURL, _, _ := strings.Cut(db.ArchiveURL, "?")\n	hash := sha256.Sum256([]byte(archiveURL))')],
    '''
def h(m, p, hd, body):
    if "If-None-Match" in hd and hd["If-None-Match"]:
        return 304, {}, b""
    return 200, {"ETag": "x"}, zipped({"a.json": osv("X-" + p[-1], "foo", versions=["1.0.0"])})
url, log = serve(h)
npm("package-lock.json", ("foo", "1.0.0"))
for n in "12":
    config(".osv-detector.yml", dbs=[{"url": url + "/all?x=" + n, "type": "zip"}])
    rc, res, err = results("--use-dbs=false", "package-lock.json")
    expect(res[0][1], {"foo@1.0.0": (["X-" + n], [])})
''', "two archive URLs that only differ in their query, used one after the other", "one database uses the copy of the other")

bug("C05-stale-etag", [(DB + "zip.go", '	if etag != "" || date != "" {\n		cache = &Cache{', '	if (etag != "" || date != "") && (cache == nil || etag == "" || etag != cache.ETag) {\n		cache = &Cache{')],
    '''
state = {"n": "1"}
def h(m, p, hd, body):
    return 200, {"ETag": "weak"}, zipped({"a.json": osv("X-" + state["n"], "foo", versions=["1.0.0"])})
url, log = serve(h)
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": url + "/all.zip"}])
results("--use-dbs=false", "package-lock.json")
state["n"] = "2"
results("--use-dbs=false", "package-lock.json")
rc, res, err = results("--use-dbs=false", "--offline", "package-lock.json")
expect(res[0][1], {"foo@1.0.0": (["X-2"], [])})
''', "a server that sends new content under an unchanged ETag, followed by an offline run", "the offline run uses an older download than the last one")

bug("C06-trailing", [(DB + "zip.go", "		err := json.Unmarshal(cacheContent, &cache)", "		err := json.NewDecoder(bytes.NewReader(cacheContent)).Decode(&cache)")],
    '''
import glob
def h(m, p, hd, body):
    if hd.get("If-None-Match"):
        return 304, {}, b""
    return 200, {"ETag": "x"}, zipped({"a.json": osv("X-1", "foo", versions=["1.0.0"])})
url, log = serve(h)
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": url + "/all.zip"}])
results("--use-dbs=false", "package-lock.json")
[c] = glob.glob(os.path.join(TMP, "t", "osv-detector-*"))
open(c, "a").write('garbage"}')
rc, res, err = results("--use-dbs=false", "--offline", "package-lock.json")
expect((rc, res[0][1]), (127, {"foo@1.0.0": ([], [])}))
''', "a stored copy followed by the remains of a longer, older one", "a damaged copy is trusted")
