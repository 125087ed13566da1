DB = "pkg/database/"
LK = "pkg/lockfile/"
CF = "internal/configer/"
B = []


def bug(id, edits, demo, needs, breaks):
    B.append(dict(id=id, property=id.split("-")[0], edits=edits, demo=demo, needs=needs, breaks=breaks))


bug("C07-workdir", [(DB + "zip.go", '''		Offline:          offline,
''', '''		Offline:          offline && strings.Trim(config.WorkingDirectory, "/") == config.WorkingDirectory,
''')], '''
z = zipped({"d/x.json": osv("X-1", "foo", versions=["1.0.0"])})
u, log = serve(lambda m, p, h, b: (200, {"ETag": '"1"', "Date": "Mon, 02 Jan 2006 15:04:05 GMT"}, z))
npm("package-lock.json", ("foo", "1.0.0"))
config(".osv-detector.yml", dbs=[{"url": u + "/a.zip", "working-directory": "d/"}])
run("--use-dbs=false", "package-lock.json")
n = len(log)
rc, out, err = run("--use-dbs=false", "--offline", "package-lock.json")
expect((rc, len(log) - n), (1, 0))
''', "an archive whose working directory is written with a slash at its end, offline", "the archive is requested although offline")

bug("C19-path-commit", [(LK + "parse-gemfile-lock.go", '''			parser.currentGemCommit = ""
			parser.state = parserStateSource
''', '''			if parser.state != parserStateSource || line != lockfileSectionPLUGIN {
				parser.currentGemCommit = ""
			}
			parser.state = parserStateSource
''')], '''
put("Gemfile.lock", """GIT
  remote: https://github.com/a/b.git
  revision: 0123456789012345678901234567890123456789
  specs:
    b (1.0.0)

PLUGIN SOURCE
  remote: https://example.com
  type: x
  specs:
    c (2.0.0)
""")
p, rc, err = packages("Gemfile.lock")
expect(sorted(p), [("b", "1.0.0", "RubyGems", "0123456789012345678901234567890123456789"), ("c", "2.0.0", "RubyGems", "")])
''', "a plugin source that follows a git source", "its gems get the commit of the other source")

bug("C21-row-name", [(LK + "csv.go", '''			return packages, fmt.Errorf("row %d: %w", i, err)
''', '''			line, _ := r.FieldPos(0)

			return packages, fmt.Errorf("row %d: %w", line, err)
''')], '''
put("in.csv", 'npm,,"a\\nb",1.0.0\\nnpm,,,1.0.0\\n')
rc, out, err = run("--use-dbs=false", "--parse-as", "csv-file", "in.csv")
expect("row 2:" in out + err, True)
''', "a row that spans several lines before the row that is wrong", "the error names a row that does not exist")

