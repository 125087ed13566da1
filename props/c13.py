"""C13: lockfiles are found and parsed as documented, one report per lockfile."""
import gen, suite, world
from world import ROOT

# one content several parsers understand, each in its own way
TOML = 'version = 3\n\n[[package]]\nname = "%s"\nversion = "1.0.0"\n'
JSON = '{"lockfileVersion":1,"dependencies":{"%s":{"version":"1.0.0"}},"default":{"%s":{"version":"==2.0"}}}'
OWN = {"bun.lock": '{"lockfileVersion":0,"packages":{}}', "Gemfile.lock": "GEM\n  remote: https://rubygems.org/\n  specs:\n", "go.mod": "module x\n", "mix.lock": "%{\n}\n",
       "packages.lock.json": '{"version":1,"dependencies":{}}', "pnpm-lock.yaml": "lockfileVersion: 5.3\n", "pylock.toml": 'lock-version = "1.0"\n',
       "pom.xml": "<project></project>", "pubspec.lock": "packages: {}\n", "renv.lock": '{"Packages":{}}', "requirements.txt": "# none\n", "yarn.lock": "# yarn lockfile v1\n",
       "uv.lock": "version = 1\n", "gradle.lockfile": "# none\n", "buildscript-gradle.lockfile": "# none\n"}


def toml_reads(n):
    return [{"as": a, "ok": True, "pkgs": [gen.pkg(n, "1.0.0", e)]} for a, e in (("Cargo.lock", "crates.io"), ("poetry.lock", "PyPI"), ("pdm.lock", "PyPI"), ("uv.lock", "PyPI"))]


def json_reads(n):
    return [{"as": "package-lock.json", "ok": True, "pkgs": [gen.pkg(n, "1.0.0", "npm")]}, {"as": "Pipfile.lock", "ok": True, "pkgs": [gen.pkg(n, "2.0", "PyPI")]},
            {"as": "composer.lock", "ok": True, "pkgs": []}]


def csv_reads(n):
    return [{"as": "csv-file", "ok": True, "pkgs": [gen.pkg(n, "1.0.0", "npm")]}]


def add(wd, rel, i, kind=None):
    n = "pkg%d" % i
    base = rel.split("/")[-1]
    if kind == "toml":
        wd.add_file(rel, TOML % n, toml_reads(n))
    elif kind == "json":
        wd.add_file(rel, JSON % (n, n), json_reads(n))
    elif kind == "csv":
        wd.add_file(rel, "npm,,%s,1.0.0\n" % n, csv_reads(n))
    else:
        wd.add_file(rel, OWN[base], [{"as": base, "ok": True, "pkgs": []}])


def relink(wd, r, prob):
    """some files are symbolic links to files elsewhere; to the reader there is no difference"""
    extra = []
    for i, t in enumerate(wd.tree):
        if "c" in t and r.random() < prob:
            q = "store/%d" % i
            extra.append({"p": q, "c": t.pop("c")})
            t["link"] = r.choice(["${ROOT}/" + q, "../" * t["p"].count("/") + q])
    wd.tree += extra


def link_dir(wd, r):
    """another name for a folder"""
    ds = sorted(d for d, n in wd.fs.items() if n["dir"] and d.startswith(ROOT + "/cwd/"))
    if not ds:
        return None
    d = r.choice(ds)
    rel = "cwd/links/x"     # in a folder that is never an argument itself
    wd.tree.append({"p": rel, "link": d.replace(ROOT, "${ROOT}")})
    for q, n in list(wd.fs.items()):
        if q == d or q.startswith(d + "/"):
            nq = ROOT + "/" + rel + q[len(d):]
            wd.fs[nq] = dict(n, path=nq)
    return rel


def tree_of_spec(r):
    wd = world.World(r)
    for d in ("cwd", "cwd/d", "cwd/d/sub", "cwd/d/package-lock.json", "cwd/none", "other"):
        wd.add_dir(d)
    for i, f in enumerate(("cwd/Cargo.lock", "cwd/x.lock", "cwd/d/Cargo.lock", "cwd/d/poetry.lock", "cwd/d/b.txt", "cwd/d/B.txt", "cwd/d/sub/Cargo.lock", "cwd/d/cargo.lock",
                           "cwd/none/readme", "other/pdm.lock", "cwd/a:b", "cwd/Cargo.lock:x")):
        add(wd, f, i, "csv" if f in ("cwd/d/b.txt", "cwd/x.lock") else "toml")
    relink(wd, r, 0.1)
    return wd


NAMES = ["Cargo.lock", "poetry.lock", "pdm.lock", "package-lock.json", "Pipfile.lock", "composer.lock", "Cargo.lock.bak", "cargo.lock", "my-package-lock.json", "a.csv", "lock",
         "with space.lock", "b:c", ":x", ".Cargo.lock", "Cargo.lock~", "z", "Z", "csv-file", "10", "9"]
DIRS = ["cwd", "cwd/a", "cwd/a/b", "cwd/Cargo.lock.d", "cwd/x y", "cwd/c:d", "other", "cwd/.hidden"]
PREF = ["", "", "", ":", "Cargo.lock:", "poetry.lock:", "pdm.lock:", "uv.lock:", "package-lock.json:", "Pipfile.lock:", "composer.lock:", "csv-file:", "nope:", "cargo.lock:", "csv-row:"]


def sampled(r):
    wd = world.World(r)
    dirs = r.sample(DIRS, r.randint(1, 5))
    files = []
    for d in dirs:
        wd.add_dir(d)
        for n in r.sample(NAMES, r.randint(0, 7)):
            f = d + "/" + n
            add(wd, f, len(files), r.choice(["toml", "toml", "json", "csv"]))
            files.append(f)
        if r.random() < 0.2:
            wd.add_dir(d + "/" + r.choice(["yarn.lock", "uv.lock", "sub"]))
    if r.random() < 0.3:
        ld = link_dir(wd, r)
        if ld:
            dirs.append(ld)
    mixed = r.random() < 0.3
    g = "" if mixed else r.choice(["", "", "", "Cargo.lock", "package-lock.json", "csv-file", "Pipfile.lock"])
    own = []
    if mixed:
        wd.add_dir("cwd/own")
        for n in r.sample(sorted(OWN), r.randint(1, len(OWN))):
            add(wd, "cwd/own/" + n, 0)
            own.append("own/" + n)
        add(wd, "cwd/own/Cargo.lock", 77, "toml")
    relink(wd, r, r.choice([0, 0, 0.3]))
    args = []
    for _ in range(r.randint(1, 5)):
        k = r.random()
        if mixed and k < 0.4:
            args.append(r.choice(["own", "./own/", r.choice(own), ":own", ROOT + "/cwd/own"]))
            continue
        p = r.choice(files) if files and k < 0.75 else r.choice(dirs + (["cwd/gone"] if r.random() < 0.3 else []))
        form = r.randrange(5)
        if form == 0:
            p = ROOT + "/" + p
        elif p == "cwd":
            p = r.choice([".", "./", "../cwd", ""]) or "."
        elif p.startswith("cwd/"):
            p = p[4:]
            if form == 1:
                p = "./" + p
            elif form == 2:
                p = "../cwd/" + p
        else:
            p = "../" + p
        if form == 3 and "/" in p:
            p = p.replace("/", "//", 1)
        pre = r.choice(PREF)
        args.append(pre + p)
    if r.random() < 0.15:
        args.append(r.choice(args))
    return wd, args, g


def ok_args(args):
    return all(not a.startswith("-") for a in args)


def check(ctx):
    r = ctx.rng
    J = ["merge", "exit", "failure"]
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxArgs = %d\nINVARIANTS ArgOrder FilesAlways OnlyDirectChildren ParserChosen %s\n"
    gs = ctx.generate("MCDiscovery", cfg % (1, "Emit"), "MCDiscovery/1")
    if ctx.quick:
        # pairs of the shapes the specification has
        two = []
        for _ in range(250):
            a, b = r.choice(gs), r.choice(gs)
            two.append({"args": a["args"] + b["args"], "parseAs": a["parseAs"]})
        n2 = len(gs) ** 2 // 3
    else:
        two = [g for g in ctx.generate("MCDiscovery", cfg % (2, "Emit"), "MCDiscovery/2") if len(g["args"]) == 2]
        n2 = len(two)
        two = r.sample(two, min(8000, n2))
    ctx.extra["argument_lists"] = "%d single, %d of %d pairs" % (len(gs), len(two), n2)
    gs = gs + two
    scs = []
    for g in gs:
        wd = tree_of_spec(r)
        scs.append(wd.scenario([wd.run(g["args"], parseAs=g["parseAs"], list=True)], J, "shape"))
    for _ in range(ctx.pick(400, 6000)):
        wd, args, g = sampled(r)
        if not ok_args(args):
            continue
        fl = {"list": True} if r.random() < 0.7 else {"useDbs": "false"}
        scs.append(wd.scenario([wd.run(args, parseAs=g, **fl)], J, "tree"))
    # folders with hundreds of files, and hundreds of arguments
    for _ in range(ctx.pick(8, 60)):
        wd = world.World(r)
        wd.add_dir("cwd/d")
        m = r.choice([120, 300, 600])
        for i in range(m):
            add(wd, "cwd/d/" + ("f%03d.csv" % i if r.random() < 0.97 else "%03d/Cargo.lock" % i), i, "csv" if i % 2 else "toml")
        for i, nm in enumerate(r.sample(["Cargo.lock", "poetry.lock", "pdm.lock"], r.randint(1, 3))):
            add(wd, "cwd/d/" + nm, m + i, "toml")
        csvs = [t["p"][4:] for t in wd.tree if t["p"].endswith(".csv") and t.get("c", "").startswith("npm")]
        g, args = r.choice([("", ["d"]), ("csv-file", ["d"]), ("", ["csv-file:d"]), ("csv-file", csvs[:r.choice([40, 130])]), ("", ["csv-file:" + c for c in csvs[:60]] + ["d"])])
        scs.append(wd.scenario([wd.run(args, parseAs=g, list=True)], J, "hundreds"))
    suite.run(ctx, "DetectorTrace", scs)
    return ["links to folders inside a folder, dangling links, unreadable directories and Windows paths are not covered"]
