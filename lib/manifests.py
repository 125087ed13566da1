"""Abstract manifests (see spec/Manifests.tla) and how they are written down."""
import locks

MODS = [("github.com/a/b", 1), ("github.com/a/b/v2", 2), ("github.com/a/b/v3", 3), ("golang.org/x/net", 0), ("github.com/Foo/Bar", 1), ("k8s.io/api", 0), ("github.com/x/y", 9), ("rsc.io/quote", 1), ("github.com/a/bc", 1), ("github.com/x/y1", 9)]


def go_version(r, major):
    if major == 9:
        return r.choice(["v2.0.0+incompatible", "v2.0.0+incompatible", "v12.0.0+incompatible", "v12.0.0+incompatible", "v4.1.0+incompatible", "v1.0.0"])
    return "v%d.%s" % (major, r.choice(["0.0", "0.1", "2.0", "10.3", "0.0-rc.1", "0.0-20220101120000-abcdefabcdef", "2.0-beta.1"]))


def gen_gomod(r):
    ms = r.sample(MODS, r.randint(1, 6)) if r.random() < 0.9 else [m for m in MODS if m[1] == 9]
    req, rep, seen = [], [], set()
    for _ in range(r.choice([0, 1, 2, 3, 4, 6, 9])):
        m = r.choice(ms)
        req.append({"path": m[0], "version": go_version(r, m[1])})
    for _ in range(r.choice([0, 1, 2, 3, 5])):
        m = r.choice(ms)
        have = [x["version"] for x in req if x["path"] == m[0]]
        ov = r.choice(["", r.choice(have) if have else go_version(r, m[1]), r.choice(have) if have else "", go_version(r, m[1])])
        if (m[0], ov) in seen:
            continue
        seen.add((m[0], ov))
        k = r.random()
        if k < 0.25:
            n = (r.choice(["../fork", "./local", "/abs/dir"]), "")
        else:
            t = r.choice(ms) if k < 0.75 else r.choice(MODS)
            n = (t[0], go_version(r, t[1]))
            if req and r.random() < 0.4:
                q = r.choice(req)
                n = (q["path"], q["version"])
        rep.append({"old": m[0], "oldv": ov, "new": n[0], "newv": n[1]})
    return {"fmt": "gomod", "requires": req, "replaces": rep}


def render_gomod(r, d):
    def q(s):
        return '"%s"' % s if r.random() < 0.08 else s
    parts = []
    cm = lambda: r.choice(["", "", "", " // indirect", " // note => x v9.9.9"])
    lines = [("require", "%s %s%s" % (q(x["path"]), q(x["version"]), cm())) for x in d["requires"]]
    lines += [("replace", "%s%s => %s%s%s" % (q(x["old"]), " " + x["oldv"] if x["oldv"] else "", q(x["new"]), " " + x["newv"] if x["newv"] else "", r.choice(["", " // note"]))) for x in d["replaces"]]
    if r.random() < 0.3:
        lines.append(("exclude", "github.com/a/b v1.9.9"))
    if r.random() < 0.2:
        lines.append(("retract", "v1.0.0"))
    r.shuffle(lines)
    while lines:
        k = r.randint(1, 3)
        kind = lines[0][0]
        g = [x for x in lines if x[0] == kind][:k]
        for x in g:
            lines.remove(x)
        if len(g) > 1 or r.random() < 0.4:
            parts.append("%s (\n%s)\n" % (kind, "".join("\t%s\n%s" % (x[1], r.choice(["", "", "\t// a comment\n", "\n"])) for x in g)))
        else:
            parts.append("%s %s\n" % g[0])
    parts.insert(r.randint(0, len(parts)) if r.random() < 0.2 else 0, "module example.com/me\n\n")
    if r.random() < 0.8:
        parts.insert(1, "go 1.%d\n\n" % r.choice([17, 18, 20, 21]))
    t = r.choice(["", "// header\n\n"]) + r.choice(["", "\n"]).join(parts)
    return t


# -------------------------------------------------------------- requirements
NAMES = ["foo", "Foo", "foo-bar", "foo_bar", "Foo.Bar", "foo--bar", "zope.interface", "A", "django", "Flask_Login", "x1", "x", "httpx", "https-x", "http"]
OPS = ["==", ">=", "~=", "===", "<", "<=", "!=", ">"]


def req_line(r):
    k = r.random()
    n = r.choice(NAMES)
    if k < 0.04:
        return r.choice(["x==11.0", "x1==1.0", "x == 11.0", "x1>=1.0"])
    if r.random() < 0.15:
        n += r.choice(["[extra]", "[a,b]", "[ a , b ]", " [a]"])
    if k < 0.12:
        s = n
    elif k < 0.18:
        s = n + r.choice([" @ https://example.com/x.zip", "@https://example.com/x.whl", " @ http://example.com/x-1.0.zip", "@ file:///x/y", " @ git+https://github.com/a/b.git"])
    else:
        vs = [r.choice(OPS[:4] if r.random() < 0.6 else OPS) + r.choice(["", "", " "]) + r.choice(["1.0", "1.0.0", "2.0rc1", "1.*", "0.5.1", "2!1.0", "1.0.post1", "10"]) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        s = r.choice([n, n, n + " "]) + r.choice(["%s", "%s", "%s", " (%s)", "(%s)"]) % r.choice([",", ", ", " ,"]).join(vs)
    if r.random() < 0.2:
        s += r.choice(['; python_version < "3"', ";sys_platform == 'win32'", ' ; python_version >= "3.6" and extra == "x"'])
    if r.random() < 0.15:
        s += " --hash=sha256:abcd" + r.choice(["", " --hash=sha256:1234"])
    if r.random() < 0.2:
        s += r.choice([" # note", "   # foo==9.9", " #note", " #"])
    return s


def gen_requirements(r, n_files=None):
    paths = ["p/requirements.txt", "p/a.txt", "p/sub/b.txt", "p/sub/requirements.txt", "other/c.txt", "p/sub/deep/d.txt"]
    use = paths[:1] + r.sample(paths[1:], (n_files or r.choice([1, 1, 2, 3, 4])) - 1)
    if n_files is None and r.random() < 0.1:
        return requirements_chain(r)
    files = []
    import os
    for p in use:
        ls = []
        for _ in range(r.randint(0, 7)):
            k = r.random()
            if k < 0.65:
                ls.append(req_line(r))
            elif k < 0.75 and (len(use) > 1 or r.random() < 0.1):
                t = r.choice(use + ["p/gone.txt"] if r.random() < 0.04 else use)
                rel = os.path.relpath(t, os.path.dirname(p))
                ls.append("-r " + r.choice(["", "", "./"]) + rel + r.choice(["", "", "", " # why"]))
            elif k < 0.85:
                ls.append(r.choice(["", "# comment", "  # foo==1.0", "#foo==1.0", "-e .", "--index-url https://pypi.org/simple", "-c constraints.txt", "./local/pkg", "../x.whl", "/abs/x.whl",
                                    "https://example.com/foo.whl", "http://example.com/foo-1.0.tar.gz", "--pre", "-f https://x", "# comment \\", "   # comment \\", "  # -r gone.txt", ".[dev]"]))
            elif k < 0.89:
                ls += [r.choice(["left", "pad", "Foo.Bar"]) + r.choice(["==1.0", ">= 2.1.0", "~=0.3", ""]) + r.choice(["\\", "\\", " \\"]), r.choice(["#note", "# note", "#==9 \\", "   # note"])]
            else:
                s = req_line(r)
                for i in sorted(r.sample(range(1, max(2, len(s))), min(max(1, len(s) - 1), r.choice([1, 1, 2]))), reverse=True):
                    s = s[:i] + "\\\n" + r.choice(["", "", "    " if s[i:i + 1] in (" ", "-", "") else ""]) + s[i:]
                ls += s.split("\n")
                if r.random() < 0.25:
                    ls[-1] += r.choice([" \\", "\\"])
                    ls.append(r.choice(["# note", "#note \\", "    # note", "  # note\\", "", "    --hash=sha256:ffff"]))
        files.append({"path": p, "lines": ls})
    return {"fmt": "requirements", "files": files}


def requirements_chain(r):
    """one file includes the next, many times over"""
    m = r.choice([5, 8, 12])
    names = ["p/requirements.txt"] + ["p/%sf%d.txt" % (r.choice(["", "sub/", "sub/deep/"]), i) for i in range(1, m)]
    import os
    files = []
    for i, p in enumerate(names):
        ls = [req_line(r) for _ in range(r.randint(0, 2))] + (["only%d==1.%d" % (i, i)] if r.random() < 0.7 or i == m - 1 else [])
        if i + 1 < m:
            ls.insert(r.randint(0, len(ls)), "-r " + os.path.relpath(names[i + 1], os.path.dirname(p)))
        elif r.random() < 0.3:
            ls.append("-r " + os.path.relpath(r.choice(names), os.path.dirname(p)))
        files.append({"path": p, "lines": ls})
    return {"fmt": "requirements", "files": files}


def fix_backslashes(d):
    """an even number of backslashes at the end of a line means different things to different readers"""
    for f in d["files"]:
        f["lines"] = [l.rstrip("\\") + ("\\" if l.endswith("\\") else "") for l in f["lines"]]
    return d


def requirements_tree(r, d):
    return [{"p": f["path"], "c": locks.join_lines(r, f["lines"]) if f["lines"] else ""} for f in d["files"]]


# --------------------------------------------------------------------- maven
def gen_maven(r):
    props, names = [], ["foo.version", "bar-version", "v", "x", "y", "spring.version", "major", "minor"]
    for n in r.sample(names, r.randint(0, len(names))):
        k = r.random()
        v = r.choice(["1.0", "2.5.1", "1.0-SNAPSHOT", "[1.0,2.0)", "(,3.0]", "7", ""])
        if k < 0.3:
            v = r.choice(["${%s}", "1.${%s}", "${%s}.0", "[${%s},9)"]) % r.choice(names)
        props.append({"name": n, "value": v})

    def version():
        k = r.random()
        if k < 0.4:
            return r.choice(["1.0", "2.5.1", "5.3.1.RELEASE", "1.0-SNAPSHOT", "31.1-jre"])
        if k < 0.6:
            return r.choice(["[1.0,2.0)", "(1.0,2.0)", "[1.0]", "[1.0,)", "(,1.0]", "[ 1.5 , 2 ]", "(,)", "[1.0,2.0),[3.0,4.0)", "[,2.0]", "1.0,2.0"])
        if k < 0.9:
            return r.choice(["${%s}", "${%s}", "1.${%s}", "${%s}-RELEASE", "[${%s},9.0)", "${%s}.${minor}", "(,${%s}]"]) % r.choice(names + ["undefined"])
        return ""
    gas = [(g, a) for g in ("org.foo", "com.bar") for a in ("core", "web", "x")] + [("org.fooc", "ore")]
    own = [{"group": g, "artifact": a, "version": version()} for g, a in r.sample(gas, r.randint(0, 6))]
    managed = [{"group": g, "artifact": a, "version": version() or "3.3"} for g, a in r.sample(gas, r.randint(0, 5))]
    for e in list(own):
        if r.random() < 0.08:
            own.append(dict(e))
    return {"fmt": "maven", "props": props, "own": own, "managed": managed}


def render_maven(r, d):
    def ws(x):
        k = r.random()
        if k < 0.1:
            x = "\n      %s\n    " % x
        elif k < 0.15:
            x = " " + x + " "
        elif k < 0.2 and x:
            x = "<![CDATA[%s]]>" % x
        elif k < 0.25 and x:
            x = "<!-- was 9.9 -->" + x
        return x

    def dep(e):
        fs = ["<groupId>%s</groupId>" % ws(e["group"]), "<artifactId>%s</artifactId>" % ws(e["artifact"])]
        if e["version"]:
            fs.append("<version>%s</version>" % ws(e["version"]))
        elif r.random() < 0.2:
            fs.append(r.choice(["<version/>", "<version> </version>"]))
        if r.random() < 0.4:
            fs.append(r.choice(["<scope>test</scope>", "<type>pom</type>", "<optional>true</optional>", "<exclusions><exclusion><groupId>org.ex</groupId><artifactId>cluded</artifactId></exclusion></exclusions>"]))
        r.shuffle(fs)
        return "<dependency>" + r.choice(["", "\n      "]).join(fs) + "</dependency>\n"
    own = "<dependencies>\n%s%s</dependencies>\n" % (r.choice(["", "<!-- <dependency><groupId>no</groupId></dependency> -->\n"]), "".join(dep(e) for e in d["own"]))
    man = "<dependencyManagement><dependencies>\n%s</dependencies></dependencyManagement>\n" % "".join(dep(e) for e in d["managed"])
    secs = ["<modelVersion>4.0.0</modelVersion>\n", "<groupId>com.me</groupId><artifactId>app</artifactId><version>9.9.9</version>\n"]
    if d["own"] or r.random() < 0.7:
        secs.append(own)
    if d["managed"] or r.random() < 0.3:
        secs.append(man)
    if d["props"] or r.random() < 0.3:
        secs.append("<properties>\n%s%s</properties>\n" % (r.choice(["", "<!-- versions -->\n"]), "".join("<%s>%s</%s>\n" % (p["name"], ws(p["value"]), p["name"]) for p in d["props"])))
    if r.random() < 0.3:
        secs.append("<build><plugins><plugin><groupId>org.p</groupId><artifactId>plugin</artifactId><version>1</version><dependencies><dependency><groupId>org.p</groupId><artifactId>dep</artifactId><version>1</version></dependency></dependencies></plugin></plugins></build>\n")
    if r.random() < 0.3:
        secs.append("<profiles><profile><id>x</id><properties><foo.version>8.8</foo.version></properties></profile></profiles>\n")
    if r.random() < 0.3:
        secs.append("<parent><groupId>org.parent</groupId><artifactId>parent</artifactId><version>7.7</version></parent>\n")
    r.shuffle(secs)
    return r.choice(['<?xml version="1.0" encoding="UTF-8"?>\n', ""]) + r.choice(["<project>\n", '<project xmlns="http://maven.apache.org/POM/4.0.0" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance">\n']) + "".join(secs) + "</project>\n"
