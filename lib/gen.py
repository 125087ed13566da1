"""Abstract scenarios (packages, advisories, databases) and how they are rendered as files."""
import json, os, re
from core import SPEC


def chains():
    src = open(os.path.join(SPEC, "Versions.tla")).read()
    raw = {m.group(1): json.loads(m.group(2).replace("<<", "[").replace(">>", "]").replace("{", "[").replace("}", "]"))
           for m in re.finditer(r"^(\w+)Chain == (<<.*?>>)", src, re.S | re.M)}
    names = {"Ruby": ["RubyGems"], "RedHat": ["Red Hat"],
             "Semver": re.findall(r'"([^"]+)"', re.search(r"Semverish == (.*)", src).group(1))}
    return {e: c for k, c in raw.items() for e in names.get(k, [k])}


CH = chains()
ECOS = sorted(CH)
DISTROS = ["Debian", "Alpine", "Red Hat"]
FLAT = {e: [v for cl in c for v in cl] for e, c in CH.items()}
RANK = {e: {v: i + 1 for i, cl in enumerate(c) for v in cl} for e, c in CH.items()}


def eco_of(e):
    return e.split(":")[0]


# several spellings per name; PyPI treats the spellings of one row as the same name
NAMES = [["foo", "Foo", "FOO"], ["foo-bar", "foo_bar", "Foo.Bar", "foo--bar", "foo._bar"], ["bar", "Bar"],
         ["zope.interface", "zope-interface", "Zope_Interface"], ["@scope/foo", "@scope/Foo"],
         ["org.foo:bar", "org.foo:Bar"], ["github.com/foo/bar", "github.com/Foo/bar"], ["a1", "A1"]]


def pkg(name, version, eco, cmp=None, commit=""):
    return {"name": name, "version": version, "eco": eco, "cmp": cmp if cmp is not None else eco, "commit": commit}


def pkg_real(p):
    return {"name": p["name"], "version": p["version"], "ecosystem": p["eco"], "compareAs": p["cmp"], "commit": p["commit"]}


def adv(id, affected, withdrawn=False, aliases=()):
    return {"id": id, "withdrawn": withdrawn, "aliases": list(aliases), "affected": affected}


def entry(name, eco, versions=(), ranges=()):
    return {"name": name, "eco": eco, "versions": list(versions), "ranges": list(ranges)}


def rng_(type, events):
    return {"type": type, "events": [{"k": k, "v": v} for k, v in events]}


KEY = {"introduced": "introduced", "fixed": "fixed", "last": "last_affected"}


WHEN = ["2022-02-01T00:00:00Z", "2093-02-01T00:00:00Z", "1970-01-01T00:00:00Z", "2022-02-01T00:00:00.5+02:00", "0001-01-01T00:00:00Z", "2021-12-31T23:59:59Z"]


def adv_json(a, summary=None, style=0, rank=None):
    aff = []
    for e in a["affected"]:
        x = {"package": {"name": e["name"], "ecosystem": e["eco"]}}
        if e["versions"] or style % 2 == 0:
            x["versions"] = e["versions"]
        if e["ranges"] or style % 3 == 0:
            x["ranges"] = [{"type": r["type"], "events": [{KEY[ev["k"]]: ev["v"]} for ev in r["events"]]} for r in e["ranges"]]
        if style % 2 == 1:
            x["package"]["purl"] = "pkg:generic/x"
            x["database_specific"] = {"x": 1}
        aff.append(x)
    d = {"id": a["id"], "summary": summary if summary is not None else "about " + a["id"], "details": "details of " + a["id"],
         "modified": "2022-03-01T00:00:00Z", "published": "2022-01-01T00:00:00Z", "affected": aff}
    if a["aliases"] or style % 2 == 0:
        d["aliases"] = a["aliases"]
    if a["withdrawn"]:
        # withdrawn is withdrawn, whenever that is said to be
        d["withdrawn"] = WHEN[(sum(map(ord, a["id"])) + style) % len(WHEN)]
    if "text" in a:
        t = a["text"]
        for k in ("summary", "details", "published", "modified"):
            d[k] = t[k]
            if t[k] in ("", "0001-01-01T00:00:00Z"):
                del d[k]
        if a["withdrawn"]:
            d["withdrawn"] = t["gone"]
    return json.dumps(d)


def gen_range(r, cmp):
    """a range with events of mostly different versions (or introduced + last_affected of one version)"""
    t = r.choices(["ECOSYSTEM", "SEMVER", "GIT", "OTHER"], [6, 4, 2, 1])[0]
    if t == "GIT":
        return rng_("GIT", [("introduced", "0"), ("fixed", "%040x" % r.getrandbits(160))])
    n = r.choices([0, 1, 2, 3, 4, 5, 6, 7, 20], [1, 3, 6, 4, 4, 2, 2, 1, 1])[0]
    classes = r.sample(range(len(CH[cmp])), min(n, len(CH[cmp])))
    evs = []
    if n and r.random() < 0.5:
        evs.append(("introduced", "0"))
        classes = classes[1:]
    alternate = r.random() < 0.6 or n > 7
    if alternate:
        classes.sort()
        on = bool(evs)
        for c in classes:
            v = r.choice(CH[cmp][c])
            if on:
                evs.append((r.choice(["fixed", "last"]), v))
            else:
                evs.append(("introduced", v))
                if r.random() < (0.15 if n <= 7 else 0.7):
                    evs.append(("last", v))
                    on = not on
            on = not on
    else:
        for c in classes:
            evs.append((r.choice(["introduced", "fixed", "last"]), r.choice(CH[cmp][c])))
    if evs and r.random() < 0.15:
        # several things about one version, which are taken in the order they are listed in
        evs.insert(r.randint(0, len(evs)), (r.choice(["introduced", "fixed", "last"]), r.choice([v for _, v in evs if v != "0"] or [r.choice(FLAT[cmp])])))
    if r.random() < 0.5:
        r.shuffle(evs)
    return rng_(t, evs)


def gen_entry(r, names, eco, cmp):
    base = eco_of(cmp)
    vs = r.sample(FLAT[base], r.randint(0, 3)) if r.random() < 0.5 else []
    rs = [gen_range(r, base) for _ in range(r.choices([0, 1, 2, 3], [2, 6, 3, 1])[0])]
    return entry(r.choice(names), eco, vs, rs)


def world_ecos(r, k):
    """k ecosystems of a scenario: base name -> comparison ecosystem"""
    m = {}
    if r.random() < 0.2:
        # distributions only, where most things differ in the release
        return {e: e for e in r.sample(DISTROS, r.randint(1, 2))}
    for e in r.sample(ECOS, k):
        m[e] = e
    if r.random() < 0.4:
        m["Custom%d" % r.randint(1, 3)] = r.choice(ECOS)
    if r.random() < 0.2:
        e = r.choice(sorted(m))
        m[e] = r.choice(ECOS)
    return m


def suffixed(r, e, p=0.5):
    if (eco_of(e) in DISTROS + ["Custom1"] and r.random() < p) or r.random() < 0.03:
        return e + ":" + r.choice(["1", "10", "11", "v3.1", "v3.18"])
    return e


def gen_world(r, n_adv, n_pkg, k_eco=3, k_names=4, id0=""):
    ecos = world_ecos(r, k_eco)
    fams = r.sample(NAMES, k_names)
    names = [n for f in fams for n in f]
    advs = []
    for i in range(n_adv):
        aff = []
        for _ in range(r.choices([0, 1, 2, 3, 5, 9], [2, 16, 8, 4, 2, 1])[0]):
            e = r.choice(sorted(ecos))
            aff.append(gen_entry(r, names, suffixed(r, e), ecos[e]))
        advs.append(adv("%s%s-%d" % (id0, r.choice(["GHSA", "OSV", "CVE"]), i), aff, r.random() < 0.12))
    pkgs = []
    for i in range(n_pkg):
        e = r.choice(sorted(ecos))
        c = ecos[e]
        v = r.choice(FLAT[c]) if r.random() < 0.93 else ""
        if e not in ECOS and r.random() < 0.4:
            c = e  # nothing says how its versions compare
        # a package may be locked to a commit, with or without a version
        pkgs.append(pkg(r.choice(names), v, suffixed(r, e), suffixed(r, c, 0.3), "%040x" % r.getrandbits(160) if r.random() < (0.1 if v else 0.5) else ""))
    return ecos, advs, pkgs


def dir_tree(base, advs, r, style=True):
    """advisory files of a directory database, spread over nested folders"""
    t = []
    for i, a in enumerate(advs):
        d = r.choice(["", "x/", "x/y/", "2021/01/", "z.json/"])
        t.append({"p": "%s/%s%s.json" % (base, d, a["id"]), "c": adv_json(a, style=r.randrange(6) if style else 0)})
    return t


def zip_body(advs, r, root="", style=True):
    return {"isz": True, "zip": [{"p": "%s%s%s.json" % (root, r.choice(["", "x/", "x/y/"]), a["id"]),
                                  "c": adv_json(a, style=r.randrange(6) if style else 0)} for a in advs]}


def csv_field(x):
    return '"' + x.replace('"', '""') + '"' if re.search(r'[",\n]', x) else x


def csv_text(pkgs):
    return "".join(",".join(csv_field(f) for f in (p["eco"], p["cmp"] if p["cmp"] != p["eco"] else "", p["name"], p["version"])) + "\n"
                   for p in pkgs)
