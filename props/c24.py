"""C24: a config file means what it says, however it is written."""
import gen, suite, world
from configs import NULL, Writer, text, lst, mp
from world import ROOT

ZIP, PLAIN, APIU, DIR = "https://z.example/all.zip", "https://z.example/plain", "https://a.example/v1", "file:////%s/db" % ROOT
DIRZ, APIZ = "file:////%s/db.zip" % ROOT, "https://a.example/osv.zip/v1"     # what an address ends with says what it is, after what it begins with
GOOD = [ZIP, PLAIN, APIU, DIR, DIRZ, APIZ]
BAD = ["not-a-url", "db.zip", "", "https://bad host/x.zip", ":x", "https://x.example/%zz"]
TYPES = ["", "zip", "api", "dir", "nope", "ZIP"]
IDS = ["OSV-1", "OSV-2", "OSV-3"]
ODDIDS = ["123", "1e3", "true", "no", "null", "~", "2020-01-01", "0x1F", "0o17", "a: b", "- y", "# x", "'q'", "a #b", "\"", "[x]", "{x: y}", "*a", "&a", "!t", "|", ">", "%x", "@x", "`x`", "1_000",
          ".5", "GHSA-x,y", "x:", "? k", "CVE-2020-1: foo", "yes", "0123", "<<", "="]
ODDTEXT = ["My DB", "123", "true", "n: 1", "# one", "it's", "a,b", "{x}", "x [y]", "~", "\u00e9t\u00e9", "10%"]
INVS = "OrderMeansNothing AllOrNothing NothingMadeUp ReadsBack"
CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxEntries = %d Urls = {%s} Types = {%s} Product = %s\nINVARIANTS %s Emit\n"


def make(r, docs, judge, tag, flags, ids=IDS, text_out=False):
    """docs: [(path below the root, document)]; the lockfiles next to them are checked"""
    wd = world.World(r)
    names = ["p%d" % i for i in range(len(ids))]
    pkgs = [gen.pkg(n, "1.0.0", "npm") for n in sorted(names)]
    args = []
    for d in sorted({p.rsplit("/", 1)[0] for p, _ in docs} | {"cwd"}):
        wd.add_lock(d, "package-lock.json", "package-lock.json", pkgs)
        args.append((d[4:] + "/" if len(d) > 4 else "") + "package-lock.json")
    adv = lambda i, p: gen.adv(i, [gen.entry(p, "npm", ["1.0.0"])])
    wd.add_zip_db(world.eco_url("npm"), [("", adv(i, n)) for i, n in zip(ids, names)])
    placed = [("", adv("TOP-1", names[0])), ("a/", adv("SUB-1", names[-1]))]
    for u in (ZIP, PLAIN):
        for sub in ("", "a"):
            wd.add_zip_db(u, placed, sub)
    for sub in ("", "a"):
        wd.add_dir_db("db", placed, sub)
        wd.add_dir_db("db.zip", [("", adv("TOP-2", names[0])), ("a/", adv("SUB-2", names[-1]))], sub)
    for i, u in enumerate((APIU, APIZ), 1):
        answers = {world.query_json(pkgs[-1]): ["API-%d" % i]}
        wd.add_api_db(u, answers, [adv("API-%d" % i, names[-1])])
        # the address of an API is all there is to it
        wd.dbs["api#%s#a" % u] = dict(wd.dbs["api#" + u], id="api#%s#a" % u)
    for p, d in docs:
        if d is None:
            wd.tree.append({"p": p, "dir": True})
            wd.fs[ROOT + "/" + p] = {"path": ROOT + "/" + p, "dir": True, "reads": []}
        else:
            wd.add_file(p, Writer(r).write(d), [])
        wd.configs.append({"path": ROOT + "/" + p, "doc": d or NULL, "readable": d is not None})
    if flags.get("config"):
        flags = dict(flags, config=docs[0][0][4:])
    return wd.scenario([wd.run(args, text=t, **f) for t, f in ((text_out, flags), (False, dict(flags, update=False)))], judge, tag)


def db(r):
    u = r.choice(GOOD) if r.random() < 0.85 else r.choice(BAD)
    t = r.choice(TYPES) if r.random() < 0.3 else "zip" if u == PLAIN and r.random() < 0.7 else ""
    kv = [("url", text(u))]
    if t or r.random() < 0.1:
        kv.append(("type", text(t)))
    if r.random() < 0.4:
        kv.append(("name", text(r.choice(ODDTEXT[:2] if r.random() < 0.5 else ODDTEXT)) if r.random() < 0.9 else NULL))
    if r.random() < 0.3:
        kv.append(("working-directory", text(r.choice(["a", "a", ""]))))
    if r.random() < 0.2:
        kv.append((r.choice(["note", "Url", "workingDirectory", "urls"]), r.choice([text("x"), NULL, lst([text("y")])])))
    if r.random() < 0.04:
        kv.append((r.choice(["url", "name"]), r.choice([lst([]), text(APIU), mp([])])))
    r.shuffle(kv)
    return mp(kv)


def document(r, ids):
    odd = 0.05
    if r.random() < odd:
        return r.choice([NULL, text("x"), lst([]), lst([mp([("ignore", lst([]))])]), mp([])])
    kv = []
    if r.random() < 0.85:
        xs = [text(r.choice(ids + ["OTHER-1"])) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]
        if r.random() < odd:
            xs.insert(r.randint(0, len(xs)), r.choice([NULL, lst([]), mp([("a", NULL)])]))
        kv.append(("ignore", lst(xs) if r.random() > odd else r.choice([NULL, text("OSV-1"), mp([])])))
    if r.random() < 0.8:
        xs = [db(r) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        if xs and r.random() < 0.1:
            xs.append(xs[0])
        if r.random() < odd:
            xs.insert(r.randint(0, len(xs)), r.choice([NULL, text("x"), lst([])]))
        kv.append(("extra-databases", lst(xs) if r.random() > odd else r.choice([NULL, text("x"), mp([("url", text(ZIP))])])))
    if r.random() < 0.2:
        kv.append((r.choice(["notes", "ignores", "Ignore", "databases", "extra_databases"]), r.choice([NULL, text("x"), lst([text("OSV-1")]), mp([("url", text(ZIP))])])))
    if r.random() < 0.02 and kv:
        kv.append(kv[0])
    r.shuffle(kv)
    return mp(kv)


def check(ctx):
    r = ctx.rng
    J = ["told", "reports", "exit", "failure", "update"]
    q = lambda xs: ", ".join('"%s"' % x for x in xs)
    two = ctx.generate("MCConfig", CFG % (2, q([ZIP]), '""', "FALSE", INVS), "MCConfig/entries")
    one = ctx.generate("MCConfig", CFG % (1, q(GOOD + BAD), q(TYPES), "TRUE", INVS), "MCConfig/databases")
    if not ctx.quick:
        ctx.model("MCConfig", (CFG % (3, q([ZIP]), '""', "FALSE", INVS)).replace(" Emit", ""), "MCConfig/3")
    ctx.extra.update(documents=len(two) + len(one))
    scs = []
    if ctx.quick:
        two, one = r.sample(two, min(len(two), 350)), r.sample(one, min(len(one), 250))
    for g in two + one:
        scs.append(make(r, [("cwd/.osv-detector." + r.choice(["yml", "yaml"]), g["doc"])], J, "document", {"update": r.random() < 0.3}))
    for _ in range(ctx.pick(350, 6000)):
        ids = r.sample(ODDIDS, 4) + ["OSV-1"] if r.random() < 0.4 else IDS
        docs = []
        for d in ["cwd", "cwd/sub"][:r.choice([1, 1, 2])]:
            for e in r.choice([["yml"], ["yaml"], ["yml", "yaml"]]):
                docs.append(("%s/.osv-detector.%s" % (d, e), document(r, ids) if r.random() > 0.04 else None))
        if r.random() < 0.25:
            docs.insert(0, ("cwd/" + r.choice(["conf.yml", ".osv", "sub/c.json"]), document(r, ids)))
        f = {"update": r.random() < 0.35, "noDatabases": r.random() < 0.1, "noIgnores": r.random() < 0.1, "noConfig": r.random() < 0.05,
             "ignores": r.choice([[], [], ["OSV-1"]])}
        if "osv-detector" not in docs[0][0] or r.random() < 0.2:
            f["config"] = "x"
        if r.random() < 0.3:
            f["useDbs"] = "false"
        scs.append(make(r, docs, J, "sampled", f, ids))
    suite.run(ctx, "ConfigTrace", scs, cfg="SPECIFICATION ConfigSpec\nCHECK_DEADLOCK FALSE\n")
    return ["addresses are told valid by having a scheme or a path and a well-formed host"]
