"""C02: every well-formed advisory file of a database is loaded, and only those."""
import json
import gen, suite
from suite import Scenario, crash_of

CFG = "SPECIFICATION Spec\nCONSTANTS MaxFiles = %d\nINVARIANTS %s\n%s\nCHECK_DEADLOCK FALSE\n"
DIRS = ["", "", "a/", "a/b/", "a-b/", "ab/", "b/", "b/a/", "a/b/c/d/", "z.json/", ".git/", "x.zip/", "A/"]
WDS = ["", "", "a", "a/", "a/b", "b", "a-b", "ab", "z.json", "b/a/", "A"]
U = "https://db.example/all.zip"


def malformed(r, a):
    j = gen.adv_json(a)
    d = json.loads(j)
    return r.choice([
        {"c": ""}, {"c": "not json"}, {"c": j[:r.randrange(1, len(j))]}, {"c": "[%s]" % j}, {"c": j + "}"}, {"c": "5"}, {"c": '"%s"' % a["id"]},
        {"c": json.dumps(dict(d, id=5))}, {"c": json.dumps(dict(d, affected="x"))}, {"c": json.dumps(dict(d, published="yesterday"))},
        {"c": json.dumps(dict(d, aliases=[1]))}, {"c": json.dumps(dict(d, affected=[{"package": []}]))},
        {"c": json.dumps(dict(d, withdrawn=17))}, {"c": "# a comment\n" + j}])


def scenario(r, files, wd, kind, pkgs, tag, names=None):
    """files: [{path, kind, adv}]"""
    files = sorted(files, key=lambda f: f["path"]) if kind == "dir" else files
    items = []
    for i, f in enumerate(files):
        e = {"p": f["path"]}
        if f["kind"] == "good":
            e.update(c=gen.adv_json(f["adv"], style=r.randrange(6)), pad=f.get("pad", 0))
        elif kind == "zip" and r.random() < 0.3:
            e.update(c=gen.adv_json(f["adv"]), bad=r.choice(["crc", "method", "deflate"]))
        else:
            e.update(malformed(r, f["adv"]))
        items.append(e)
    case = {"cwd": "cwd", "tree": []}
    if kind == "dir":
        # a file may be a link to what is somewhere else
        for i, e in enumerate(items):
            if r.random() < 0.12:
                case["tree"].append(dict(e, p="elsewhere/%d" % i))
                items[i] = {"p": e["p"], "link": r.choice(["${ROOT}/elsewhere/%d" % i, "../" * (e["p"].count("/") + 1) + "elsewhere/%d" % i])}
        case["tree"] += [dict(e, p="db/" + e["p"]) for e in items] + [{"p": "db", "dir": True}, {"p": "db2/x.json", "c": "{}"}]
        if wd:
            case["tree"].append({"p": "db/" + wd, "dir": True})
        cfg, http = {"Type": "dir", "URL": "file:////${ROOT}/db"}, {}
    else:
        if r.random() < 0.5:
            items = items + [{"p": d.rstrip("/"), "dir": True} for d in ("a", "z.json", "b/a")]
        cfg = {"Type": "zip", "URL": U}
        http = {"rules": [{"kind": "archive", "u": U, "etag": '"1"', "date": "Mon, 01 Jan 2024 00:00:00 GMT", "body": {"isz": True, "zip": items}}]}
    cfg.update(Name="x", WorkingDirectory=wd)
    case["steps"] = [{"op": "db", "config": cfg, "http": http, "pkgs": [gen.pkg_real(p) for p in pkgs], "names": names or []}]
    base = {"files": [{k: v for k, v in f.items() if k != "pad"} for f in files], "wd": wd, "pkgs": pkgs, "listed": not names}

    def rec(outs):
        o = outs[-1]
        return dict(base, crash=crash_of(o), err=o.get("err") or o.get("checkErr") or "", count=o.get("count", -1), loaded=o.get("loaded") or [],
                    results=[[v["id"] for v in vs] for vs in (o.get("results") or [])])
    return Scenario(case, rec, tag)


def tree(r, n):
    fs, used = [], set()
    for i in range(n):
        ext = r.choices([".json", ".JSON", ".json.bak", ".txt", "json", ".yml"], [12, 1, 1, 1, 1, 1])[0]
        p = r.choice(DIRS) + r.choice(["OSV-%d", "x%d", "%d", ".%d", "a b%d"]) % i + ext
        if r.random() < 0.05:
            p = r.choice(DIRS) + ".json"
        if p in used:
            continue
        used.add(p)
        e = r.choice(["npm", "PyPI", "Go"])
        aff = [gen.entry(r.choice(["foo", "bar", "foo-bar"]), e, [r.choice(gen.FLAT[e])] if r.random() < 0.7 else [],
                         [gen.gen_range(r, e)] if r.random() < 0.5 else []) for _ in range(r.choice([1, 1, 2, 0]))]
        fs.append({"path": p, "kind": "good" if r.random() < 0.75 else "bad", "adv": gen.adv("OSV-%d" % (i if r.random() < 0.9 else r.randrange(n)), aff, r.random() < 0.1)})
    return fs


def packages(r):
    return [gen.pkg(n, r.choice(gen.FLAT[e] + [""]), e) for e in ("npm", "PyPI", "Go") for n in ("foo", "bar", "foo-bar")]


def check(ctx):
    r = ctx.rng
    ctx.model("MCLoading", CFG % (ctx.pick(3, 5), "SlashIrrelevant", "PROPERTY OneAtATime"), "MCLoading")
    gs = ctx.generate("MCLoading", CFG % (ctx.pick(3, 4), "Emit", ""), "MCLoading/gen")
    scs = []
    for g in r.sample(gs, min(len(gs), ctx.pick(500, 6000))):
        fs = [{"path": p, "kind": k, "adv": gen.adv("OSV-%d" % i, [gen.entry("foo", "npm", ["1.0.0"])])} for i, (p, k) in enumerate(g["files"])]
        scs.append(scenario(r, fs, g["wd"], r.choice(["dir", "zip"]), [gen.pkg("foo", "1.0.0", "npm")], "enumerated"))
    n_spec = len(scs)
    for _ in range(ctx.pick(200, 2500)):
        fs, wd, pk = tree(r, r.randint(1, 14)), r.choice(WDS), packages(r)
        names = sorted({p["name"] for p in pk}) if r.random() < 0.2 else None
        for kind in ("dir", "zip"):
            scs.append(scenario(r, fs, wd, kind, pk, "sampled " + kind, names))
    # many files
    for kind in ("dir", "zip"):
        fs = [{"path": "%s%d.json" % (r.choice(DIRS), i), "kind": "good" if i % 7 else "bad", "adv": gen.adv("OSV-%d" % i, [gen.entry("foo", "npm", ["1.0.%d" % (i % 5)])])}
              for i in range(ctx.pick(300, 1500))]
        scs.append(scenario(r, fs, "", kind, [gen.pkg("foo", "1.0.%d" % i, "npm") for i in range(6)], "many " + kind))
    # files of several megabytes
    for kind in ("dir", "zip"):
        fs = [{"path": "%d.json" % i, "kind": "good", "pad": n, "adv": gen.adv("OSV-%d" % i, [gen.entry("foo", "npm", ["1.0.0"])])}
              for i, n in enumerate(ctx.pick([70_000, 1_200_000, 11_000_000, 0], [70_000, 1_200_000, 11_000_000, 0, 35_000_000, 70_000_000]))]
        scs.append(scenario(r, fs, "", kind, [gen.pkg("foo", "1.0.0", "npm")], "bulk " + kind))
    suite.run(ctx, "LoadTrace", scs)
    ctx.extra.update(trees_from_spec=n_spec, spec_trees_total=len(gs), sampled=len(scs) - n_spec)
    return ["working directories are given as relative paths with slashes, as documented",
            "files consisting of JSON null or an empty object are neither advisories nor malformed, and are not generated"]
