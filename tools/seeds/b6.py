DB = "pkg/database/"
LK = "pkg/lockfile/"
CF = "internal/configer/"
RP = "internal/reporter/"
B = []


def bug(id, edits, demo, needs, breaks):
    B.append(dict(id=id, property=id.split("-")[0], edits=edits, demo=demo, needs=needs, breaks=breaks))


bug("C24-zip-first", [(CF + "load.go", '''	case strings.HasPrefix(rdbc.URL, "file:/"):
		return "dir"
	case strings.HasSuffix(rdbc.URL, ".zip"):
		return "zip"
''', '''	case strings.HasSuffix(rdbc.URL, ".zip"):
		return "zip"
	case strings.HasPrefix(rdbc.URL, "file:/"):
		return "dir"
''')], '''
put("all.zip/a.json", osv("X-1", "foo", versions=["1.0.0"]))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/all.zip"}])
expect(results("--use-dbs=false", "package-lock.json")[1][0][1], {"foo@1.0.0": (["X-1"], [])})
''', "a local directory whose name ends in .zip", "it is taken for an archive")

bug("C24-zip-anywhere", [(CF + "load.go", '''	case strings.HasSuffix(rdbc.URL, ".zip"):
''', '''	case strings.Contains(rdbc.URL, ".zip"):
''')], '''
def h(m, p, hd, b):
    if p.endswith("/querybatch"):
        return 200, {}, b'{"results": [{"vulns": []}]}'
    return 404, {}, b""
url, log = serve(h)
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": url + "/osv.zip-mirror/v1"}])
expect(run("--use-dbs=false", "package-lock.json")[0], 0)
''', "the url of an API with .zip in its middle", "it is taken for an archive")

bug("C24-known-fields", [(CF + "load.go", '''	configContents, err := os.ReadFile(pathToConfig)

	if err != nil {
		return raw, fmt.Errorf("could not read %s: %w", pathToConfig, err)
	}

	err = yaml.Unmarshal(configContents, &raw)

	if err != nil {
''', '''	configContents, err := os.ReadFile(pathToConfig)

	if err != nil {
		return raw, fmt.Errorf("could not read %s: %w", pathToConfig, err)
	}

	decoder := yaml.NewDecoder(strings.NewReader(string(configContents)))
	decoder.KnownFields(true)

	err = decoder.Decode(&raw)

	if err != nil && !errors.Is(err, io.EOF) {
'''), (CF + "load.go", '''	"fmt"
	"net/url"''', '''	"fmt"
	"io"
	"net/url"''')], '''
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
npm("package-lock.json", ("foo", "1.0.0"))
put(".osv-detector.yml", "owner: me\\nignore:\\n  - X-1\\nextra-databases:\\n  - url: file:/db\\n")
expect(run("--use-dbs=false", "package-lock.json")[0], 0)
''', "a config with a key that has no meaning", "the config is refused")

bug("C24-same-name", [(CF + "load.go", '''		config.Databases = append(config.Databases, dbc)
''', '''		for _, other := range config.Databases {
			if other.Name == dbc.Name {
				err = fmt.Errorf("there is already a database called %s", dbc.Name)
			}
		}

		if err == nil {
			config.Databases = append(config.Databases, dbc)
		}
''')], '''
put("d1/a.json", osv("X-1", "foo", versions=["1.0.0"]))
put("d2/a.json", osv("X-2", "foo", versions=["1.0.0"]))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/d1", "name": "ours"}, {"url": "file:/d2", "name": "ours"}])
expect(results("--use-dbs=false", "package-lock.json")[1][0][1], {"foo@1.0.0": (["X-1", "X-2"], [])})
''', "two databases with the same name", "the second one is not used")

bug("C24-id-space", [("main.go", '''				ignores = append(ignores, config.Ignore...)
''', '''				for _, id := range config.Ignore {
					// allow for a reason after the id
					id, _, _ = strings.Cut(id, " ")
					ignores = append(ignores, id)
				}
''')], '''
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
npm("package-lock.json", ("foo", "1.0.0"))
put(".osv-detector.yml", "ignore:\\n  - X-1 only for bar\\nextra-databases:\\n  - url: file:/db\\n")
expect(results("--use-dbs=false", "package-lock.json")[1][0][1], {"foo@1.0.0": (["X-1"], [])})
''', "an ignored id with a blank in it", "an id that is not listed is ignored")

bug("C24-wd-id", [(DB + "config.go", '''	id := dbc.Type + "#" + dbc.URL

	if dbc.WorkingDirectory != "" {
''', '''	id := dbc.Type + "#" + dbc.URL

	// apis don't have a working directory
	if dbc.WorkingDirectory != "" && dbc.Type == "zip" {
''')], '''
put("db/a/x.json", osv("X-1", "foo", versions=["1.0.0"]))
put("db/b/x.json", osv("X-2", "foo", versions=["1.0.0"]))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": "file:/db", "working-directory": "a"}, {"url": "file:/db", "working-directory": "b"}])
expect(results("--use-dbs=false", "package-lock.json")[1][0][1], {"foo@1.0.0": (["X-1", "X-2"], [])})
''', "two databases in different working directories of one directory", "the second one is not used")

bug("C24-yaml-stale", [(CF + "load.go", '''	config, err = Load(r, pathToDirectory+"/"+configName+".yml")

	if err == nil {
		return config, nil
	}
''', '''	config, err = Load(r, pathToDirectory+"/"+configName+".yml")

	// an empty config might be a leftover
	if err == nil && (len(config.Ignore) != 0 || len(config.Databases) != 0) {
		return config, nil
	}

	if err == nil {
		if _, statErr := os.Stat(pathToDirectory + "/" + configName + ".yaml"); statErr != nil {
			return config, nil
		}

		err = os.ErrNotExist
	}
''')], '''
put("db/a.json", osv("X-1", "foo", versions=["1.0.0"]))
npm("package-lock.json", ("foo", "1.0.0"))
put(".osv-detector.yml", "ignore: []\\n")
put(".osv-detector.yaml", "ignore: [X-1]\\n")
rc, out, err = run("--use-dbs=false", "package-lock.json")
expect("Using config at .osv-detector.yml" in out, True, out)
''', "both configs in a folder, the first one being empty", "the second one is used")

bug("C25-list-config", [("main.go", '''	// if we're listing packages, then we don't need to do _any_ config loading
	if *listPackages {
		loadLocalConfig = false
	} else if loadLocalConfig && *configPath != "" {
''', '''	// if we're listing packages, then we don't need to load any local configs
	if *listPackages {
		loadLocalConfig = false
	}

	if !*noConfig && *configPath != "" {
''')], '''
npm("package-lock.json", ("foo", "1.0.0"))
expect(run("--list-packages", "--config", "missing.yml", "package-lock.json")[0], 0)
''', "--list-packages with a config that cannot be read", "listing fails")

bug("C25-list-api", [("main.go", '''	if listPackages {
		return dbs, false
	}

	errored := false
''', '''	if listPackages && !slices.ContainsFunc(dbConfigs, func(c database.Config) bool { return c.Type == "api" }) {
		return dbs, false
	}

	errored := false
''')], '''
npm("package-lock.json", ("foo", "1.0.0"))
rc, out, err = run("--list-packages", "--use-api", "--offline", "package-lock.json")
expect(rc, 0, out + err)
''', "--list-packages together with --use-api", "databases are loaded although nothing is to be checked")

bug("C25-version-json", [("main.go", '''	r := reporter.New(stdout, stderr, *outputAsJSON)
	if *outputAsJSON {
		defer r.PrintJSONResults()
	}

	if *printVersion {
		r.PrintTextf("osv-detector %s (%s, commit %s)\\n", version, date, commit)

		return 0
	}

	if *listEcosystems {
		r.PrintKnownEcosystems()

		return 0
	}
''', '''	r := reporter.New(stdout, stderr, *outputAsJSON)

	if *printVersion {
		r.PrintTextf("osv-detector %s (%s, commit %s)\\n", version, date, commit)

		return 0
	}

	if *listEcosystems {
		r.PrintKnownEcosystems()

		return 0
	}

	if *outputAsJSON {
		defer r.PrintJSONResults()
	}
''')], '''
rc, out, err = run("--list-ecosystems", "--json")
expect(json.loads(out or "null"), {"results": []})
''', "--list-ecosystems with --json", "there is no JSON document on standard output")
