"""C01: a file based database reports exactly the advisories that apply."""
import json
import gen, suite
from suite import Scenario, crash_of

CFG = """SPECIFICATION Spec
CONSTANTS
 MaxEvents = %d
 Chain = "%s"
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""


def db_record(advs, pkgs):
    def rec(outs):
        o = outs[-1]
        return {"advs": advs, "pkgs": pkgs, "crash": crash_of(o), "err": o.get("err") or o.get("checkErr") or "",
                "results": [[v["id"] for v in vs] for vs in (o.get("results") or [])]}
    return rec


def cli_record(advs, pkgs):
    """packages come back sorted by the detector, so they are looked up by identity"""
    def rec(outs):
        o = outs[-1]
        err, results, order = "", [], []
        if not crash_of(o):
            try:
                ps = json.loads(o["stdout"])["results"][0]["packages"] or []
                order = [gen.pkg(p["name"], p["version"], p.get("ecosystem", ""), p.get("compareAs", ""), p.get("commit", "")) for p in ps]
                results = [[v["id"] for v in p["vulnerabilities"]] for p in ps]
            except Exception as e:
                err = "no usable report: %r %s" % (e, o["stderr"][:200])
            if not err and sorted(json.dumps(p) for p in order) != sorted(json.dumps(p) for p in pkgs):
                err = "the report is about other packages"
        return {"advs": advs, "pkgs": order or pkgs, "crash": crash_of(o), "err": err, "results": results}
    return rec


def db_scenario(r, advs, pkgs, kind):
    case = {"tree": [], "cwd": "cwd"}
    if kind == "dir":
        advs = sorted(advs, key=lambda a: a["id"])
        case["tree"] = gen.dir_tree("db", advs, r)
        step = {"op": "db", "config": {"Name": "d", "Type": "dir", "URL": "file:////${ROOT}/db"}}
    else:
        u = "https://db.example/all.zip"
        step = {"op": "db", "config": {"Name": "z", "Type": "zip", "URL": u},
                "http": {"rules": [{"kind": "archive", "u": u, "etag": '"1"', "date": "Mon, 01 Jan 2024 00:00:00 GMT",
                                    "body": gen.zip_body(advs, r)}]}}
    step["pkgs"] = [gen.pkg_real(p) for p in pkgs]
    case["steps"] = [step]
    return Scenario(case, db_record(advs, pkgs), "database/" + kind)


def cli_scenario(r, advs, pkgs, offline=False):
    pkgs = [dict(p, commit="") for p in pkgs]
    advs = sorted(advs, key=lambda a: a["id"])
    kind = r.choice(["dir", "zip"])
    case = {"cwd": "cwd", "tree": [{"p": "cwd/in.csv", "c": gen.csv_text(pkgs)}]}
    u = "https://db.example/all.zip"
    if kind == "dir":
        case["tree"] += gen.dir_tree("db", advs, r)
        url = "file:////${ROOT}/db"
    else:
        url = u
    case["tree"].append({"p": "cwd/conf.yml", "c": "extra-databases:\n  - url: %s\n" % url})
    case["steps"] = [{"op": "run", "args": ["--json", "--use-dbs=false", "--config", "conf.yml", "--parse-as", "csv-file", "in.csv"],
                      "http": {"rules": [{"kind": "archive", "u": u, "etag": '"1"', "date": "Mon, 01 Jan 2024 00:00:00 GMT",
                                          "body": gen.zip_body(advs, r)}]}}]
    return Scenario(case, cli_record(advs, pkgs), "cli/" + kind)


def replay_ranges(ctx, chain, maxev):
    """every event list the specification reaches, against every version of the chain"""
    lists = ctx.generate("RangesGen", CFG % (maxev, chain, "Emit"), "RangesGen/" + chain, workers=4)
    scs = []
    allv = gen.FLAT[chain]
    for b in range(0, len(lists), 60):
        part = lists[b:b + 60]
        advs = [gen.adv("OSV-%04d" % i, [gen.entry("p", chain, [], [{"type": "ECOSYSTEM", "events": l}])]) for i, l in enumerate(part)]
        scs.append(db_scenario(ctx.rng, advs, [gen.pkg("p", v, chain) for v in allv], "zip"))
    return scs


def long_ranges(r, n):
    """advisories whose ranges list many single versions and periods, in no order, against every version"""
    for _ in range(n):
        e = r.choice(gen.ECOS)
        advs = []
        for i in range(12):
            evs = []
            classes = sorted(r.sample(range(len(gen.CH[e])), r.randint(7, len(gen.CH[e]) - 1)))
            while classes:
                v = r.choice(gen.CH[e][classes.pop(0)])
                if classes and r.random() < 0.15:
                    evs.append([("introduced", v), (r.choice(["fixed", "last"]), r.choice(gen.CH[e][classes.pop(0)]))])
                else:
                    evs.append([("introduced", v), ("last", v)] if r.random() < 0.9 else [("last", v), ("introduced", v)])
            if r.random() < 0.8:
                r.shuffle(evs)
            advs.append(gen.adv("OSV-%02d" % i, [gen.entry("p", e, [], [gen.rng_("ECOSYSTEM", [x for g in evs for x in g])])]))
        yield db_scenario(r, advs, [gen.pkg("p", v, e) for v in gen.FLAT[e]], r.choice(["dir", "zip"]))


def mixed_orders(r, n):
    """packages of one ecosystem that are compared in different ways, one after another"""
    both = [v for v in gen.FLAT["npm"] if v in gen.RANK["Pub"]]
    tied = [v for v in both if v.startswith("1.0.0") and "-" not in v]
    for _ in range(n):
        advs = []
        for i in range(10):
            evs = [(r.choice(["introduced", "introduced", "fixed", "last"]), r.choice(tied if r.random() < 0.6 else both)) for _ in range(r.randint(1, 6))]
            advs.append(gen.adv("OSV-%02d" % i, [gen.entry("p", "npm", [], [gen.rng_(r.choice(["ECOSYSTEM", "SEMVER"]), evs)])]))
        pkgs = [gen.pkg("p", v, "npm", r.choice(["npm", "Pub"])) for v in r.sample(both, r.randint(2, len(both)))]
        yield (cli_scenario(r, advs, pkgs) if r.random() < 0.3 else db_scenario(r, advs, pkgs, r.choice(["dir", "zip"])))


NEAR = ["1.0.0", "v1.0.0", "V1.0.0", "1.0.0 ", " 1.0.0", "1.0", "1", "1.0.0.0", "01.0.0", "1.0.0-rc1", "1.0.0-RC1", "=1.0.0", "1.0.0+a", "1.0.0+b", "1.0.00", "1.0.0~", "1.0.01", "11.0.0", "1-0-0", "1.0.0,2.0.0"]


def listed_versions(r, n):
    """advisories that only list versions, and packages of versions that are nearly the same"""
    for _ in range(n):
        es = r.sample(gen.ECOS, 2)
        advs = [gen.adv("OSV-%02d" % i, [gen.entry("p", r.choice(es), r.sample(NEAR, r.randint(1, 6))) for _ in range(r.choice([1, 1, 2]))]) for i in range(10)]
        pkgs = [gen.pkg("p", v, r.choice(es)) for v in r.sample(NEAR, r.randint(4, len(NEAR)))]
        yield (cli_scenario(r, advs, pkgs) if r.random() < 0.5 else db_scenario(r, advs, pkgs, r.choice(["dir", "zip"])))


def many(r, n):
    """one package with hundreds of advisories, hundreds of packages, or an advisory with hundreds of entries, versions and ranges"""
    for i in range(n):
        e = r.choice(gen.ECOS)
        if i % 4 == 0:
            _, advs, pkgs = gen.gen_world(r, r.choice([90, 150, 300]), r.randint(2, 6), k_names=1)
        elif i % 4 == 1:
            _, advs, pkgs = gen.gen_world(r, r.choice([3, 10]), r.choice([120, 300]), k_names=r.choice([1, 4]))
        elif i % 4 == 2:
            vs = ["%d.%d.0" % (a, b) for a in range(15) for b in range(r.choice([3, 15, 40]))]
            r.shuffle(vs)
            advs = [gen.adv("OSV-%02d" % j, [gen.entry("p", e, vs[k::2]) for k in range(2)]) for j in range(2)]
            pkgs = [gen.pkg("p", v, e) for v in r.sample(vs, 12) + [vs[0], vs[-1], "99.0.0"]]
        else:
            one = lambda: gen.entry("p", e, [], [gen.gen_range(r, e) for _ in range(r.choice([0, 1, 12]))]) if r.random() < 0.3 else gen.entry("q%d" % r.randint(0, 50), e, [r.choice(gen.FLAT[e])])
            advs = [gen.adv("OSV-%02d" % j, [one() for _ in range(r.choice([40, 120]))]) for j in range(3)]
            pkgs = [gen.pkg("p", v, e) for v in gen.FLAT[e]] + [gen.pkg("q%d" % j, gen.FLAT[e][0], e) for j in range(3)]
        yield (cli_scenario(r, advs, pkgs) if r.random() < 0.4 else db_scenario(r, advs, pkgs, r.choice(["dir", "zip"])))


def check(ctx):
    r = ctx.rng
    for ch in ctx.pick(["npm"], ["npm", "PyPI", "Maven", "Debian"]):
        ctx.model("MCRanges", CFG % (ctx.pick(3, 5), ch, "ReadingsAgree SpellingIrrelevant OrderIrrelevant"), "MCRanges/" + ch)
    scs = []
    chs = ctx.pick([r.choice([e for e in gen.ECOS])], gen.ECOS)
    for ch in chs:
        scs += replay_ranges(ctx, ch, ctx.pick(3, 4) if ch in chs[:3] else 3)
    n_replayed = len(scs)
    for _ in range(ctx.pick(500, 3500)):
        _, advs, pkgs = gen.gen_world(r, r.randint(1, 14), r.randint(1, 12), k_names=r.randint(1, 4))
        scs.append(db_scenario(r, advs, pkgs, r.choice(["dir", "zip"])))
    for _ in range(ctx.pick(500, 3500)):
        _, advs, pkgs = gen.gen_world(r, r.randint(1, 14), r.randint(1, 12), k_names=r.randint(1, 4))
        scs.append(cli_scenario(r, advs, pkgs))
    scs += list(long_ranges(r, ctx.pick(25, 300))) + list(mixed_orders(r, ctx.pick(60, 600))) + list(listed_versions(r, ctx.pick(60, 600))) + list(many(r, ctx.pick(12, 100)))
    suite.run(ctx, "MatchTrace", scs)
    ctx.extra.update(spec_generated_scenarios=n_replayed, random_scenarios=len(scs) - n_replayed,
                     ecosystems=len(gen.ECOS))
    return ["the version orders in Versions.tla stand for those of the ecosystems"]
