"""Abstract lockfiles (see spec/Lockfiles.tla) and how they are written down."""
import json
import gen
from suite import Scenario, crash_of

FILE = {"npm1": "package-lock.json", "npm2": "package-lock.json", "bun": "bun.lock", "pnpm": "pnpm-lock.yaml", "composer": "composer.lock", "pipenv": "Pipfile.lock",
        "nuget": "packages.lock.json", "renv": "renv.lock", "cargo": "Cargo.lock", "poetry": "poetry.lock", "pdm": "pdm.lock", "pylock": "pylock.toml", "uv": "uv.lock",
        "pubspec": "pubspec.lock", "yarn": "yarn.lock", "gem": "Gemfile.lock", "mix": "mix.lock", "gradle": "gradle.lockfile", "gomod": "go.mod", "maven": "pom.xml",
        "requirements": "requirements.txt"}


# ---------------------------------------------------------------- vocabulary
PLAIN = ["foo", "bar", "foo-bar", "foo_bar", "a", "ab", "x.y", "lodash", "Foo", "version", "resolved", "name", "node_modules2", "10", "foo2"]
SCOPES = ["@s", "@babel", "@types", "@foo"]
VERS = ["1.0.0", "1.0.1", "1.10.0", "2.0.0", "0.0.1", "1.0.0-rc.1", "1.0.0-beta.2", "10.2.3", "2.0", "1", "4.17.21-x"]


ALL = {"PLAIN": PLAIN, "VERS": VERS, "SCOPES": SCOPES}


def focused(g):
    """documents out of few names and versions have more to confuse: the same name with other versions, a name and
    version that together read like another pair"""
    def f(r):
        global PLAIN, VERS, SCOPES
        try:
            if r.random() < 0.4:
                PLAIN, VERS, SCOPES = r.sample(ALL["PLAIN"], r.randint(1, 3)), r.sample(ALL["VERS"], r.randint(1, 3)), r.sample(SCOPES, 2)
                if r.random() < 0.6:
                    PLAIN, VERS = PLAIN[:1] + [PLAIN[0] + "1"], VERS[:1] + ["1" + VERS[0]]
            return g(r)
        finally:
            PLAIN, VERS, SCOPES = ALL["PLAIN"], ALL["VERS"], ALL["SCOPES"]
    return f


def npm_name(r):
    n = r.choice(PLAIN)
    return r.choice(SCOPES) + "/" + n if r.random() < 0.35 else n


def sha(r):
    return r.choice(["%040x" % r.getrandbits(160), "%040x" % r.getrandbits(160), "%07x" % r.getrandbits(28), "master", "v1_2"])


def git_source(r, h=None):
    """a source with a commit"""
    h, repo = h or sha(r), r.choice(["org/repo", "my-org/re.po", "a/b"])
    host = r.choice(["github.com", "gitlab.com", "bitbucket.org", "git.example.com"])
    return r.choice([
        "git+ssh://git@%s/%s.git#%s" % (host, repo, h), "git+https://%s/%s.git#%s" % (host, repo, h), "git://%s/%s.git#%s" % (host, repo, h), "git+https://%s/%s#%s" % (host, repo, h),
        "ssh://git@%s/%s.git#%s" % (host, repo, h), "ssh://git@%s:%s#%s" % (host, repo, h), "https://%s/%s.git#%s" % (host, repo, h), "git+https://user:pw@%s/%s.git#%s" % (host, repo, h),
        "https://codeload.github.com/%s/tar.gz/%s" % (repo, h), "github:%s#%s" % (repo, h), "gitlab:%s#%s" % (repo, h), "bitbucket:%s#%s" % (repo, h),
        "https://github.com/%s#%s" % (repo, h), "https://gitlab.com/%s?ref=%s" % (repo, h), "https://bitbucket.org/%s.git?x=1&ref=%s" % (repo, h), "https://github.com/%s#my-branch" % repo])


def plain_source(r, n, v):
    b = n.split("/")[-1]
    return r.choice(["https://registry.npmjs.org/%s/-/%s-%s.tgz" % (n, b, v), "https://registry.yarnpkg.com/%s/-/%s-%s.tgz#%040x" % (n, b, v, r.getrandbits(160)),
                     "https://example.com/%s.tgz" % b, "https://codeload.example.com/o/r/tar.gz/abc", "https://npm.example.com/github.com/%s-%s.tgz#abc" % (b, v),
                     "github:a/b#my-branch", "gitlab:a/b#semver:^1.0", "https://example.com/a.git#x-y", "git+https://example.com/a/b.git#semver:~2", "git+ssh://git@example.com/a/b.git"])


# --------------------------------------------------------------- rendering
def shuffled(r, d):
    ks = list(d)
    r.shuffle(ks)
    return {k: d[k] for k in ks}


def dump(r, x):
    return json.dumps(x, indent=r.choice([None, 1, 2, "\t"]), separators=r.choice([None, (",", ":")]) if r.random() < 0.3 else None)


def jsonc(r, x):
    """JSON with comments and trailing commas, as bun writes it"""
    t = json.dumps(x, indent=2)
    if r.random() < 0.7:
        out = []
        ls = t.split("\n")
        for i, l in enumerate(ls):
            nxt = ls[i + 1].strip() if i + 1 < len(ls) else ""
            if nxt[:1] in ("}", "]") and l.strip()[-1:] not in ("{", "[", ","):
                l += ","
            out.append(l)
            if r.random() < 0.05:
                out.append(r.choice(["// a comment", "/* foo: [] */", '  // "x": ["y@1.0.0"],']))
        t = "\n".join(out)
    return t


def tstr(r, s):
    return "'%s'" % s if r.random() < 0.2 and "'" not in s else json.dumps(s)


def tval(r, v):
    if isinstance(v, str):
        return tstr(r, v)
    if isinstance(v, dict):
        return "{ %s }" % ", ".join("%s = %s" % (k, tval(r, x)) for k, x in v.items())
    if isinstance(v, list):
        sep = r.choice([", ", ",\n    "])
        return "[%s%s%s]" % ("\n    " if "\n" in sep and v else "", sep.join(tval(r, x) for x in v), ",\n" if "\n" in sep and v else "")
    return json.dumps(v)


def toml(r, head, table, entries, tail=""):
    """entries: list of dicts; values that are dicts are written inline or as tables"""
    out = ["# generated\n"] if r.random() < 0.4 else []
    for k, v in head.items():
        out.append("%s = %s\n" % (k, tval(r, v)))
    for e in entries:
        out.append("\n[[%s]]\n" % table)
        subs = []
        for k, v in shuffled(r, e).items():
            if isinstance(v, dict) and r.random() < 0.5:
                subs.append((k, v))
                continue
            out.append("%s = %s%s\n" % (k, tval(r, v), r.choice(["", "", "", " # note"])))
        for k, v in subs:
            out.append("\n[%s.%s]\n" % (table, k) + "".join("%s = %s\n" % (a, tval(r, b)) for a, b in v.items()))
    t = "".join(out) + tail
    return t.replace("\n", "\r\n") if r.random() < 0.1 else t


def ystr(r, s, key=False):
    plain = s and all(c.isalnum() or c in "._-/" for c in s) and not s[0] in "-./0123456789" and s not in ("true", "null", "version")
    k = r.random()
    if plain and k < 0.6:
        return s
    if "'" in s or k < 0.3:
        return json.dumps(s)
    return "'%s'" % s


def yaml(r, x, ind=0):
    out = ""
    for k, v in x.items():
        p = " " * ind + ystr(r, k) + ":"
        if isinstance(v, dict):
            if not v:
                out += p + " {}\n"
            elif r.random() < 0.25 and all(isinstance(z, str) for z in v.values()):
                out += p + " {" + ", ".join("%s: %s" % (ystr(r, a), ystr(r, b)) for a, b in v.items()) + "}\n"
            else:
                out += p + "\n" + yaml(r, v, ind + 2)
        elif isinstance(v, list):
            out += p + " [" + ", ".join(ystr(r, z) for z in v) + "]\n"
        elif isinstance(v, str):
            out += p + " " + ystr(r, v) + "\n"
        else:
            out += p + " " + json.dumps(v) + "\n"
        if r.random() < 0.03:
            out += " " * ind + "# note\n"
    return out


# -------------------------------------------------------- generated documents
def npm1_tree(r, depth, width):
    out, used = [], set()
    for _ in range(r.randint(0 if depth < 3 else 1, width)):
        n = npm_name(r)
        if n in used:
            continue
        used.add(n)
        k = r.random()
        if k < 0.7:
            v = r.choice(VERS)
        elif k < 0.8:
            v = git_source(r)
        elif k < 0.88:
            v = "npm:%s@%s" % (npm_name(r), r.choice(VERS))
        elif k < 0.94:
            v = r.choice(["file:../x", "file:foo-1.0.0.tgz"])
        else:
            v = r.choice(["https://example.com/x.tgz", "npm:" + npm_name(r)])
        out.append({"name": n, "version": v, "deps": npm1_tree(r, depth - 1, width) if depth > 1 and r.random() < 0.4 else []})
    return out


def npm1_deep(r, depth):
    """packages within packages within packages"""
    out = npm1_tree(r, 1, 2) or [{"name": "deep", "version": "1.0.0", "deps": []}]
    if depth > 1:
        r.choice(out)["deps"] = npm1_deep(r, depth - 1)
    return out


def npm1_json(r, es):
    d = {}
    for e in es:
        x = {"version": e["version"]}
        if r.random() < 0.5:
            x.update(resolved="https://registry.npmjs.org/x/-/x-9.9.9.tgz", integrity="sha512-aaaa==")
        if r.random() < 0.3:
            x["requires"] = {npm_name(r): "^3.0.0", "version": "^1.0.0"}
        if r.random() < 0.2:
            x.update(dev=True, optional=True, bundled=True)
        if e["deps"] or r.random() < 0.1:
            x["dependencies"] = npm1_json(r, e["deps"])
        d[e["name"]] = shuffled(r, x)
    return shuffled(r, d)


def render_npm1(r, d):
    t = {"name": "root-project", "version": "9.9.9", "dependencies": npm1_json(r, d["items"]), "requires": True}
    lv = d["head"].get("version", 1)
    if lv:
        t["lockfileVersion"] = lv
    return dump(r, shuffled(r, t))


def gen_npm1(r):
    return {"head": {"version": r.choice([1, 1, 0])}, "items": npm1_tree(r, 3, r.randint(1, 7)) if r.random() < 0.85 else npm1_deep(r, r.choice([6, 9, 14]))}


def gen_npm2(r):
    items, used, shas = [], set(), [sha(r), sha(r)]
    if r.random() < 0.9:
        items.append({"path": "", "name": r.choice(["root", ""]), "version": r.choice(["9.9.9", ""]), "resolved": ""})
        used.add("")
    for _ in range(r.randint(0, 12)):
        n = npm_name(r)
        base = ""
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            base += "node_modules/%s/" % npm_name(r)
        p = r.choice([base + "node_modules/" + n] * 6 + ["packages/" + n, "libs/a/" + n, n, "libs/a@s/" + n, "x@1/" + n])
        if p in used:
            continue
        used.add(p)
        v = r.choice(VERS)
        e = {"path": p, "name": npm_name(r) if r.random() < 0.2 else "", "version": v, "resolved": r.choice(["", plain_source(r, n, v), git_source(r, r.choice(shas))])}
        if r.random() < 0.05:
            e["version"] = ""
        items.append(e)
    return {"head": {"version": r.choice([2, 3])}, "items": items}


def render_npm2(r, d):
    ps, legacy = {}, {}
    for e in d["items"]:
        x = {k: e[k] for k in ("name", "version", "resolved") if e[k] or (k != "name" and r.random() < 0.0)}
        if r.random() < 0.3:
            x["dependencies"] = {npm_name(r): "^3.0.0"}
        if r.random() < 0.3:
            x.update(dev=True, integrity="sha512-x", engines={"node": ">=10"}, license="MIT", peer=True)
        ps[e["path"]] = shuffled(r, x)
        if e["path"].startswith("node_modules/") and e["path"].count("node_modules/") == 1:
            legacy[e["path"][13:]] = {"version": e["version"]}
    t = {"name": "root", "version": "9.9.9", "lockfileVersion": d["head"]["version"], "requires": True, "packages": shuffled(r, ps)}
    if d["head"]["version"] == 2 and r.random() < 0.7:
        t["dependencies"] = legacy
    return dump(r, shuffled(r, t))


def gen_bun(r):
    items = []
    for _ in range(r.randint(0, 12)):
        n = npm_name(r)
        k = r.random()
        h = sha(r)
        if k < 0.7:
            i = "%s@%s" % (n, r.choice(VERS))
        elif k < 0.85:
            i = n + "@" + r.choice(["git+ssh://git@github.com/o/r.git#" + h, "github:o/r#" + h, "git+https://github.com/o/r.git#" + h, "https://github.com/o/r.git#" + h])
        elif k < 0.93:
            i = n + "@file:" + r.choice(["../x", "x.tgz", "packages/@s/foo"])
        else:
            i = ""
        items.append({"ident": i})
    return {"head": {"version": r.choice([0, 1])}, "items": items}


def render_bun(r, d):
    ps = {}
    for k, e in enumerate(d["items"]):
        key = r.choice(["k%d" % k, "foo/k%d" % k, "@s/x%d" % k])
        tup = [e["ident"], "", {"dependencies": {"x": "^1.0.0"}}, "sha512-aa=="] if e["ident"] else r.choice([[], []])
        ps[key] = tup if r.random() < 0.6 else tup[:r.randint(1, 4)]
    return jsonc(r, {"lockfileVersion": d["head"]["version"], "workspaces": {"": {"name": "root", "dependencies": {"foo": "^1"}}}, "packages": shuffled(r, ps)})


def gen_pnpm(r):
    lv = r.choice(["5.3", "5.4", "6.0", "6.1", "9.0"])
    items, used = [], set()
    peers5 = ["", "", "", "_a@1.0.0", "_@babel+core@7.0.0", "_a@1.0.0+b@2.0.0", "_1f4a6b", "_supports-color@8.1.1_x@1.0.0"]
    peers6 = ["", "", "", "(a@1.0.0)", "(@babel/core@7.0.0)", "(a@1.0.0)(@s/b@2.0.0)", "(a@1.0.0(@s/b@2.0.0))", "(@s/a@1.0.0(b@2.0.0)(c@3.0.0))"]
    for _ in range(r.randint(0, 12)):
        n, v = npm_name(r), r.choice([x for x in VERS if x[0].isdigit()])
        e = {"key": "", "name": "", "version": "", "tarball": "", "commit": ""}
        k = r.random()
        if k < 0.75:
            reg = r.choice(["", "", "", "registry.npmjs.org", "npm.example.com:8080"])
            e["key"] = {"5": reg + "/%s/%s%s" % (n, v, r.choice(peers5)), "6": reg + "/%s@%s%s" % (n, v, r.choice(peers6)), "9": "%s@%s" % (n, v)}[lv[0]]
            if r.random() < 0.05:
                e["version"] = r.choice(VERS)
            if r.random() < 0.05:
                e["name"] = npm_name(r)
        elif k < 0.9:
            h = "%040x" % r.getrandbits(160)
            e.update(name=n, version=v)
            if r.random() < 0.1:
                e["version"] = ""
            if lv[0] == "9":
                e["key"] = "%s@https://codeload.github.com/org/repo/tar.gz/%s" % (n, h)
                e["version"] = v
                e["tarball"] = "https://codeload.github.com/org/repo/tar.gz/" + h
            elif r.random() < 0.6:
                e["key"] = r.choice(["github.com/org/repo/" + h, "@github.com/my-org/re.po/" + h, "gitlab.example.com/a/b/" + h])
                e["tarball"] = r.choice(["https://codeload.github.com/my-org/re.po/tar.gz/" + h, "https://gitlab.com/api/v4/projects/x/archive.tar.gz?sha=" + h])
            else:
                e["key"] = "git.example.com/org/repo/" + h
                e["commit"] = h
        elif lv[0] != "9":
            e.update(key="file:" + r.choice(["../x", "projects/p.tgz", "a/b/c"]), name=r.choice([n, n, ""]), version=r.choice([v, v, ""]))
        else:
            continue
        if e["key"] in used:
            continue
        used.add(e["key"])
        items.append(e)
    return {"head": {"version": lv}, "items": items}


def render_pnpm(r, d):
    ps = {}
    for e in d["items"]:
        x = {"resolution": {}}
        if e["tarball"]:
            x["resolution"]["tarball"] = e["tarball"]
        if e["commit"]:
            x["resolution"].update(commit=e["commit"], repo="https://git.example.com/org/repo.git", type="git")
        if not x["resolution"]:
            x["resolution"]["integrity"] = "sha512-abc=="
        for k in ("name", "version"):
            if e[k]:
                x[k] = e[k]
        if r.random() < 0.4:
            x.update(dev=r.random() < 0.5, engines={"node": ">=10"}, dependencies={"name": "1.0.0", "version": "2.0.0"}, hasBin=True)
        ps[e["key"]] = shuffled(r, x)
    lv = d["head"]["version"]
    t = {"lockfileVersion": float(lv) if lv[0] == "5" else lv, "specifiers": {"foo": "^1.0.0"}, "dependencies": {"foo": "1.0.0"}, "packages": shuffled(r, ps)}
    if lv == "9.0":
        t["snapshots"] = {"foo@9.9.9(bar@1.0.0)": {"dependencies": {"bar": "1.0.0"}}, "zzz@1.0.0": {}}
        t["importers"] = {".": {"dependencies": {"foo": {"specifier": "^1", "version": "1.0.0"}}}}
    if not ps and r.random() < 0.5:
        del t["packages"]
    return yaml(r, t)


def gen_composer(r):
    items = []
    for _ in range(r.randint(0, 12)):
        items.append({"name": r.choice(["foo", "sentry", "Symfony"]) + "/" + r.choice(PLAIN), "version": r.choice(VERS + ["v1.2.3", "dev-master", "1.x-dev"]),
                      "reference": r.choice(["", "%040x" % r.getrandbits(160), "%040x" % r.getrandbits(160), "v1.2.3", "1.0"]), "dev": r.random() < 0.4})
    return {"head": {}, "items": items}


def render_composer(r, d):
    out = {"packages": [], "packages-dev": []}
    for e in d["items"]:
        x = {"name": e["name"], "version": e["version"], "require": {"php": ">=7"}, "type": "library"}
        if e["reference"] or r.random() < 0.5:
            x["dist"] = {"type": "zip", "url": "https://x", "shasum": ""}
            if e["reference"]:
                x["dist"]["reference"] = e["reference"]
        if r.random() < 0.5:
            x["source"] = {"type": "git", "url": "https://x", "reference": "%040x" % r.getrandbits(160)}
            if not e["reference"]:
                del x["source"]
        out["packages-dev" if e["dev"] else "packages"].append(shuffled(r, x))
    for k in list(out):
        if not out[k] and r.random() < 0.3:
            del out[k]
    return dump(r, shuffled(r, dict(out, **{"content-hash": "x", "aliases": [], "minimum-stability": "stable", "platform": {"php": ">=7"}})))


def gen_pipenv(r):
    items, used = [], set()
    for _ in range(r.randint(0, 12)):
        e = {"name": r.choice(PLAIN), "version": r.choice(["==" + r.choice(VERS)] * 5 + ["", r.choice(VERS)]), "dev": r.random() < 0.5}
        if (e["name"], e["dev"]) not in used:
            used.add((e["name"], e["dev"]))
            items.append(e)
    return {"head": {}, "items": items}


def render_pipenv(r, d):
    t = {"_meta": {"hash": {"sha256": "x"}, "pipfile-spec": 6, "requires": {"python_version": "3"}, "sources": [{"name": "pypi"}]}, "default": {}, "develop": {}}
    for e in d["items"]:
        x = {"hashes": ["sha256:x"], "index": "pypi", "markers": "python_version >= '3'"}
        if e["version"]:
            x["version"] = e["version"]
        else:
            x["path"] = "."
        t["develop" if e["dev"] else "default"][e["name"]] = shuffled(r, x)
    for k in ("default", "develop"):
        if not t[k] and r.random() < 0.4:
            del t[k]
    return dump(r, shuffled(r, t))


def gen_nuget(r):
    fws = r.sample(["net6.0", "net6.0/osx-x64", ".NETFramework,Version=v4.7.2", "net8.0"], r.randint(0, 4))
    items, used = [], set()
    for _ in range(r.randint(0, 14) if fws else 0):
        e = {"name": r.choice(["Foo.Bar", "foo.bar", "Newtonsoft.Json", "A", "B"] + PLAIN), "resolved": r.choice(VERS), "fw": r.choice(fws)}
        if (e["name"], e["fw"]) not in used:
            used.add((e["name"], e["fw"]))
            items.append(e)
    if fws and r.random() < 0.1:
        # a name and version that together read like another pair
        items += [{"name": n, "resolved": v, "fw": fws[0]} for n, v in r.choice([[("q", "11.0"), ("q1", "1.0")], [("q", "1.0.0.1"), ("q1.0", "0.1")], [("q1", "1"), ("q", "11")]])]
    return {"head": {"version": r.choice([1] * 8 + [2, 0]), "fws": fws}, "items": items}


def render_nuget(r, d):
    t = {"version": d["head"]["version"], "dependencies": {f: {} for f in d["head"]["fws"]}}
    for e in d["items"]:
        t["dependencies"][e["fw"]][e["name"]] = shuffled(r, {"type": r.choice(["Direct", "Transitive"]), "requested": "[9.9.9, )", "resolved": e["resolved"], "contentHash": "x",
                                                            "dependencies": {"Other": "3.0.0"}})
    return dump(r, shuffled(r, t))


def gen_renv(r):
    items = []
    for i in range(r.randint(0, 12)):
        items.append({"package": r.choice(PLAIN + ["BH", "R6"]), "version": r.choice(VERS + ["1.75.0-0"]), "repository": r.choice(["CRAN"] * 5 + ["", "RSPM", "Bioconductor", "cran"])})
    return {"head": {}, "items": items}


def render_renv(r, d):
    ps = {}
    for i, e in enumerate(d["items"]):
        x = {"Package": e["package"], "Version": e["version"], "Source": "Repository", "Hash": "abc", "Requirements": ["methods", "R"]}
        if e["repository"]:
            x["Repository"] = e["repository"]
        ps[e["package"] if e["package"] not in ps else "other%d" % i] = shuffled(r, x)
    return dump(r, shuffled(r, {"R": {"Version": "4.1.2", "Repositories": [{"Name": "CRAN", "URL": "https://x"}]}, "Packages": shuffled(r, ps)}))


def gen_toml(fmt):
    def g(r):
        items = []
        for _ in range(r.randint(0, 12)):
            e = {"name": r.choice(PLAIN + ["Django", "zope.interface"]), "version": r.choice(VERS)}
            h = "%040x" % r.getrandbits(160)
            if fmt in ("poetry", "pdm", "pylock"):
                e["commit"] = r.choice(["", "", h])
            if fmt == "pylock":
                e["directory"] = ""
                k = r.random()
                if k < 0.15:
                    e.update(version=r.choice(["", "", "1.0.0"]), directory=r.choice([".", ".", "./x", ".."]), commit="")
            if fmt == "uv":
                e.update(virtual="", git="")
                k = r.random()
                if k < 0.15:
                    e["virtual"] = r.choice([".", ".", "./x", "packages/a"])
                elif k < 0.35:
                    e["git"] = "https://github.com/org/repo" + r.choice([".git", "", "?rev=main", "?tag=v1.0"]) + "#" + h
            items.append(e)
        return {"head": {}, "items": items}
    return g


def render_toml(fmt):
    def f(r, d):
        es = []
        for e in d["items"]:
            x = {"name": e["name"], "version": e["version"]}
            if fmt == "cargo":
                src = r.choice([None, "registry+https://github.com/rust-lang/crates.io-index", "git+https://github.com/a/b#abc"])
                if src:
                    x["source"] = src
                if r.random() < 0.5:
                    x.update(checksum="abc", dependencies=["foo", "bar 1.0.0"])
            elif fmt == "poetry":
                x.update(description="a [[package]] of sorts", optional=False, files=[], category=r.choice(["main", "dev"]))
                x["python-versions"] = ">=3"
                if e["commit"]:
                    x["source"] = {"type": "git", "url": "https://github.com/a/b.git", "reference": r.choice(["HEAD", "v1.0", "main"]), "resolved_reference": e["commit"]}
                elif r.random() < 0.2:
                    x["source"] = {"type": "legacy", "url": "https://x", "reference": "custom"}
                if r.random() < 0.3:
                    x["dependencies"] = {"name": "*", "version": ">=2"}
            elif fmt == "pdm":
                x.update(requires_python=">=3", summary="x", groups=["default"], files=[{"file": "a.whl", "hash": "sha256:x"}])
                if e["commit"]:
                    x.update(git="https://github.com/a/b.git", ref="main", revision=e["commit"])
            elif fmt == "pylock":
                if not e["version"]:
                    del x["version"]
                if e["directory"]:
                    x["directory"] = {"path": e["directory"], "editable": True}
                if e["commit"]:
                    x["vcs"] = {"type": "git", "url": "https://github.com/a/b.git", "requested-revision": "main", "commit-id": e["commit"]}
                elif r.random() < 0.4:
                    x["sdist"] = {"url": "https://x", "hashes": {"sha256": "x"}}
            elif fmt == "uv":
                if e["virtual"]:
                    x["source"] = {"virtual": e["virtual"]}
                elif e["git"]:
                    x["source"] = {"git": e["git"]}
                elif r.random() < 0.8:
                    x["source"] = {"registry": "https://pypi.org/simple"}
                if r.random() < 0.3:
                    x["dependencies"] = [{"name": "foo"}, {"name": "bar", "marker": "os_name == 'nt'"}]
                if r.random() < 0.2:
                    x["optional-dependencies"] = {"dev": [{"name": "foo"}]}
            es.append(x)
        if fmt == "poetry":
            return toml(r, {}, "package", es, '\n[metadata]\nlock-version = "2.0"\npython-versions = ">=3"\n\n[metadata.files]\nfoo = []\n')
        if fmt == "pdm":
            return toml(r, {}, "package", es, '\n[metadata]\ngroups = ["default"]\nlock_version = "4.4"\n')
        return toml(r, {"cargo": {"version": r.choice([3, 4])}, "uv": {"version": 1, "requires-python": ">=3.8"}, "pylock": {"lock-version": "1.0", "created-by": "pip"}}[fmt],
                    "packages" if fmt == "pylock" else "package", es,
                    '\n[metadata]\n"checksum foo 1.0.0" = "x"\n' if fmt == "cargo" and r.random() < 0.3 else "")
    return f


def gen_pubspec(r):
    items, used = [], set()
    for _ in range(r.randint(0, 12)):
        n = r.choice(PLAIN)
        if n in used:
            continue
        used.add(n)
        s = r.choice(["hosted", "hosted", "git", "sdk", "path"])
        items.append({"name": n, "version": r.choice(VERS + ["1.0.0+2"]), "source": s, "commit": "%040x" % r.getrandbits(160) if s == "git" else ""})
    return {"head": {}, "items": items}


def render_pubspec(r, d):
    ps = {}
    for e in d["items"]:
        desc = {"hosted": {"name": e["name"], "url": "https://pub.dartlang.org", "sha256": "x"}, "sdk": "flutter", "path": {"path": "../x", "relative": True},
                "git": {"path": ".", "ref": "HEAD", "resolved-ref": e["commit"], "url": "https://github.com/a/b"}}[e["source"]]
        ps[e["name"]] = shuffled(r, {"dependency": r.choice(["transitive", "direct main"]), "description": shuffled(r, desc) if isinstance(desc, dict) else desc,
                                     "source": e["source"], "version": e["version"]})
    return yaml(r, {"sdks": {"dart": ">=2.12.0 <3.0.0"}, "packages": shuffled(r, ps)} if r.random() < 0.5 else {"packages": shuffled(r, ps), "sdks": {"dart": ">=2.12.0 <3.0.0"}})


STRUCTURED = {"npm1": (gen_npm1, render_npm1), "npm2": (gen_npm2, render_npm2), "bun": (gen_bun, render_bun), "pnpm": (gen_pnpm, render_pnpm),
              "composer": (gen_composer, render_composer), "pipenv": (gen_pipenv, render_pipenv), "nuget": (gen_nuget, render_nuget), "renv": (gen_renv, render_renv),
              "pubspec": (gen_pubspec, render_pubspec), **{f: (gen_toml(f), render_toml(f)) for f in ("cargo", "poetry", "pdm", "pylock", "uv")}}
STRUCTURED = {f: (focused(g), w) for f, (g, w) in STRUCTURED.items()}


# ------------------------------------------------------------- line formats
def gen_yarn(r):
    berry = r.random() < 0.5
    ls = []
    if r.random() < 0.9:
        ls += ["# yarn lockfile v1", "", ""] if not berry else ["# This file is generated by running \"yarn install\" inside your project.", "", "__metadata:", "  version: %d" % r.choice([4, 6, 8]), "  cacheKey: 8", ""]
    for _ in range(r.randint(0, 10)):
        n, v = npm_name(r), r.choice(VERS)
        rngs = r.sample(["^1.0.0", "~1.2.3", "1.0.0", "*", ">= 1.0 < 2", "1.x || 2.x", "latest"], r.choice([1, 1, 1, 2, 3]))
        src = None
        k = r.random()
        head, res = None, None
        if k < 0.62:
            desc = ["%s@%s%s" % (n, "npm:" if berry else "", g) for g in rngs]
            res = "%s@npm:%s" % (n, v) if berry else plain_source(r, n, v)
        elif k < 0.75:
            real = npm_name(r)
            desc = ["%s@npm:%s@%s" % (n, real, g) for g in rngs]
            if real[0] == "@" and r.random() < 0.2:
                desc = ["%s@npm:%s" % (n, real)]
            res = "%s@npm:%s" % (real, v) if berry else plain_source(r, real, v)
        elif k < 0.92:
            src = git_source(r)
            if berry:
                h = sha(r)
                res = r.choice(["%s@https://github.com/org/repo.git#commit=%s" % (n, h), "%s@git@github.com:org/repo.git#commit=%s" % (n, h), "%s@git+ssh://git@github.com/o/r.git#commit:%s" % (n, h),
                                "%s@ssh://git@github.com:o/r.git#%s" % (n, h), "%s@https://git.example.com/x/y.git#%s" % (n, h), "%s@git://example.com/x.git#%s" % (n, h)])
                desc = ["%s@%s" % (n, res.split("@", 2 if n[0] == "@" else 1)[-1])] if r.random() < 0.5 else ["%s@org/repo" % n]
            else:
                res = src
                desc = ["%s@%s" % (n, src)] if r.random() < 0.5 else ["%s@org/repo#main" % n]
        elif berry:
            desc = r.choice([["%s@workspace:packages/%s" % (n, n)], ["%s@patch:%s@npm%%3A%s#~/.yarn/patches/x.patch" % (n, n, v)], ["%s@workspace:." % n], ["%s@link:./x" % n]])
            res = desc[0]
        else:
            desc, res = ["%s@file:../x" % n], None
        if berry:
            head = '"%s":' % ", ".join(desc)
        else:
            q = [('"%s"' % x if x[0] == "@" or " " in x or ":" in x or r.random() < 0.1 else x) for x in desc]
            head = ", ".join(q) + ":"
        vl = ("  version: %s" % (v if r.random() < 0.8 else '"%s"' % v)) if berry else '  version "%s"' % v
        fields = [[vl]]
        if res is not None:
            fields.append(['  resolution: "%s"' % res] if berry else ['  resolved "%s"' % res])
        if r.random() < 0.5:
            fields.append(["  dependencies:"] + (["    version: ^9.0.0", '    "@s/x": ^1.0.0', "    resolution: 1.0.0"] if berry else ['    version "^9.0.0"', '    "@s/x" "^1.0.0"', '    resolved "1.0.0"']))
        if r.random() < 0.5:
            fields.append(["  checksum: abc"] if berry else ["  integrity sha512-abc=="])
        if r.random() < 0.3:
            r.shuffle(fields)
        ls.append(head)
        for f in fields:
            ls += f
        ls += [""] * r.choice([1, 1, 1, 0, 2])
        if r.random() < 0.05:
            ls.append("# " + r.choice(["comment", "foo@^1.0.0:"]))
    return ls


def gen_gem(r):
    secs = []

    def gems(n):
        out = []
        for _ in range(n):
            v = r.choice(VERS + ["1.0.0.rc1", "7.0.2.2", "1.13.3-x86_64-linux", "1.13.3-java", "1.13.3-x86_64-darwin"])
            out.append("    %s (%s)" % (r.choice(PLAIN), v.replace("-rc.1", ".rc1") if "-rc" in v or "-beta" in v else v))
            for _ in range(r.choice([0, 0, 1, 2])):
                out.append("      " + r.choice(PLAIN) + r.choice(["", " (>= 1.0)", " (~> 2.0, >= 2.0.1)", " (= 9.9.9)"]))
        return out
    for _ in range(r.choice([1, 1, 2, 0])):
        secs.append(["GEM", "  remote: https://rubygems.org/", "  specs:"] + gems(r.randint(0, 6)))
    for _ in range(r.choice([0, 1, 1, 2])):
        opts = ["  remote: https://github.com/a/b.git", "  revision: %040x" % r.getrandbits(160)]
        opts += r.sample(["  branch: main", "  ref: abc", "  tag: v1.0", "  submodules: true", "  glob: *.gemspec"], r.randint(0, 2))
        secs.append(["GIT"] + opts + ["  specs:"] + gems(r.randint(1, 3)))
    for _ in range(r.choice([0, 0, 1])):
        secs.append(["PATH", "  remote: .", "  specs:"] + gems(r.randint(1, 2)))
    if r.random() < 0.15:
        secs.append(["PLUGIN SOURCE", "  remote: https://x/", "  type: foo", "  specs:"] + gems(r.randint(1, 2)))
    other = [["PLATFORMS", "  ruby", "  x86_64-linux"], ["DEPENDENCIES", "  foo (~> 1.0)", "  bar!", "  baz (= 1.0.0)!"], ["RUBY VERSION", "   ruby 3.0.0p0"], ["BUNDLED WITH", "   2.3.4"],
             ["CHECKSUMS", "  foo (1.0.0) sha256=abc", "    zzz (9.9.9)"], ["DEPENDENCIES", "    deep (1.0.0)"], ["FUTURE", "  specs:", "    zzz (9.9.9)"]]
    secs += r.sample(other, r.randint(0, 5))
    if r.random() < 0.6:
        r.shuffle(secs)
    ls = []
    for s in secs:
        ls += s + [""] * r.choice([1, 1, 1, 2, 0])
    return ls


def gen_mix(r):
    ls = ["%{"]
    ind = " " * r.choice([2, 2, 2, 4, 1])
    for _ in range(r.randint(0, 10)):
        n = r.choice(["foo", "bar", "phoenix_html", "jason", "git", "hex", "a1", "Foo", "_x", "1password"])
        if r.random() < 0.75:
            tail = r.choice(['[:mix], [], "hexpm", "%064x"' % r.getrandbits(256), '[:mix], [{:foo, "~> 1.0", [hex: :foo, repo: "hexpm", optional: false]}, {:bar, "~> 2.0", [hex: :bar, optional: true]}], "hexpm", "abc"',
                             '[:rebar3], [], "hexpm"', '[:make, :rebar], []'])
            ls.append(ind + '"%s": {:hex, :%s, "%s", "%064x", %s},' % (n, n, r.choice(VERS), r.getrandbits(256), tail))
        else:
            ls.append(ind + '"%s": {:git, "%s", "%040x", [%s]},' % (n, r.choice(["https://github.com/a/b.git", "git@github.com:a/b.git"]), r.getrandbits(160), r.choice(["", 'branch: "main"', 'tag: "v1"', 'ref: "abc", submodules: true'])))
    ls.append("}")
    return ls


def gen_gradle(r):
    ls = ["# This is a Gradle generated file for dependency locking.", "# Manual edits can break the build and are not advised."] if r.random() < 0.8 else []
    for _ in range(r.randint(0, 12)):
        ls.append("%s:%s:%s%s" % (r.choice(["org.foo", "com.google.guava", "a", "empty", "emptyorg", "empty.org"]), r.choice(PLAIN), r.choice(VERS + ["5.3.1.RELEASE", "31.1-jre"]), r.choice(["=classpath", "=compileClasspath,runtimeClasspath", "=", "", "=annotationProcessor,kotlinKlibCommonizerClasspath"])))
        if r.random() < 0.1:
            ls.append(r.choice(["", "# org.foo:bar:1.0.0=x", "empty=", "  org.foo:indented:1.0.0=x  "]))
    if r.random() < 0.8:
        ls.append(r.choice(["empty=", "empty=annotationProcessor,signatures"]))
    return ls


LINES = {"yarn": focused(gen_yarn), "gem": focused(gen_gem), "mix": focused(gen_mix), "gradle": focused(gen_gradle)}


def join_lines(r, ls):
    eol = r.choice(["\n", "\n", "\n", "\r\n"])
    t = eol.join(ls)
    return t + eol if r.random() < 0.85 else t


# ----------------------------------------------------------------- scenarios
def observe(o, cli):
    ob = {"crash": crash_of(o), "err": False, "pkgs": []}
    if ob["crash"]:
        return ob
    if cli:
        try:
            res = json.loads(o["stdout"])["results"]
            ps = [p for x in res for p in x["packages"] or []]
            ob["err"] = o["exit"] != 0 or len(res) != 1
        except Exception:
            ob["err"], ps = True, []
    else:
        ob["err"], ps = bool(o.get("err")), o.get("pkgs") or []
    ob["pkgs"] = [gen.pkg(p["name"], p["version"], p.get("ecosystem", ""), p.get("compareAs", ""), p.get("commit", "")) for p in ps]
    return ob


def scenario(r, d, text, tag, tree=None, name=None):
    fn = name or FILE[d["fmt"]]
    d = dict(d)
    d.setdefault("must", "read")
    d.setdefault("head", {})
    tree = tree if tree is not None else [{"p": "p/" + fn, "c": text}]
    if r.random() < 0.3:
        st = {"op": "run", "args": ["--json", "--list-packages", "p/" + fn], "http": {"rules": []}}
    else:
        st = {"op": "parse", "path": "p/" + fn, "as": r.choice(["", "", fn])}
    if d["fmt"] == "gradle" and r.random() < 0.3 and st["op"] == "parse":
        st["as"] = r.choice(["gradle.lockfile", "buildscript-gradle.lockfile"])
    return Scenario({"tree": tree, "steps": [st]}, lambda outs: {"d": d, "obs": observe(outs[0], st["op"] == "run")}, tag)


def together(r, parts, tree, tag):
    """several documents read in one run, in any order, some of them twice; each is judged as if it were alone.
    parts: [(document, path)]"""
    order = list(parts) + r.choices(parts, k=r.choice([0, 0, 1, 2]))
    r.shuffle(order)
    st = {"op": "run", "args": ["--json", "--list-packages"] + ["%s:%s" % (FILE[d["fmt"]], p) for d, p in order], "http": {"rules": []}}
    out = []
    for d, p in parts:
        d = dict(d)
        d.setdefault("must", "read")
        d.setdefault("head", {})

        def rec(outs, d=d, p=p):
            o = outs[0]
            ob = {"crash": crash_of(o), "err": False, "pkgs": []}
            if not ob["crash"]:
                try:
                    mine = [x["packages"] or [] for x in json.loads(o["stdout"])["results"] if x["filePath"] == p]
                    ob["err"] = len(mine) != sum(1 for _, q in order if q == p) or any(m != mine[0] for m in mine)
                    ob["pkgs"] = [gen.pkg(x["name"], x["version"], x.get("ecosystem", ""), x.get("compareAs", ""), x.get("commit", "")) for x in (mine or [[]])[0]]
                except Exception:
                    ob["err"] = True
            return {"d": d, "obs": ob}
        out.append(Scenario({"tree": tree, "steps": [json.loads(json.dumps(st))]}, rec, tag))
    return out


def mixed(r, n, only):
    """runs over several lockfiles of some of the given formats"""
    out = []
    for _ in range(n):
        fs = r.sample(only, r.choice([1, 1, 2, min(3, len(only))]))
        parts, tree = [], []
        for i in range(r.choice([2, 3, 4])):
            f = r.choice(fs)
            if f in STRUCTURED:
                d = dict(STRUCTURED[f][0](r), fmt=f)
                t = STRUCTURED[f][1](r, d)
            else:
                ls = LINES[f](r)
                d, t = {"fmt": f, "items": ls}, join_lines(r, ls)
            p = "d%d/%s" % (i, FILE[f])
            parts.append((d, p))
            tree.append({"p": p, "c": t})
        out += together(r, parts, tree, "/".join(sorted(set(fs))) + "/together")
    return out
