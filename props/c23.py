"""C23: every reported advisory is shown with the data its database has for it."""
import suite, world, gen

CFG = """SPECIFICATION Spec
CONSTANTS
 Limit = %d
 MaxLen = %d
 WordLens = {%s}
 MaxWords = %d
INVARIANTS Short Bounded IsPrefix WholeWords Longest Emit
CHECK_DEADLOCK FALSE
"""
LETTERS = ["a", "b", "Z", "9", "-", ".", ")", "<", "&", "%", "\\", '"', "'", "\u00e9", "\u65e5", "\u672c", "\U0001f600"]
GAPS = [" ", " ", " ", "\t", "\u3000", "\n", "\n\n"]
DATES = ["2022-01-01T00:00:00Z", "2020-02-29T23:59:59Z", "2021-06-01T12:30:00.5Z", "2023-03-26T02:30:00+02:00", "1999-12-31T23:59:59.123456Z", "0001-01-01T00:00:00Z"]


def word(r, n):
    ls = r.choice([["x"], ["\u65e5"], ["\u00e9", "e"], LETTERS])
    return "".join(r.choice(ls) for _ in range(n))


def text(r, details, summary=""):
    return {"summary": summary, "details": details, "chars": list(details), "published": r.choice(DATES), "modified": r.choice(DATES), "gone": ""}


def sentence(r, lens):
    out = (r.choice(["\n", "\n\n", "\n\n\n"]) if r.random() < 0.1 else "") + word(r, lens[0])
    for n in lens[1:]:
        out += r.choice(GAPS) + word(r, n)
    return out


def dresser(r, lists):
    """gives an advisory a text of its own in every database that has it"""
    n = [0]

    def dress(a):
        n[0] += 1
        k = r.random()
        d = "" if k < 0.2 else sentence(r, r.choice(lists)["words"])
        s = "" if r.random() < 0.6 else "%s no. %d %s" % (r.choice(["About", "It's 100% bad:", "a <b> & \"c\"", "\u65e5\u672c"]), n[0], word(r, r.choice([1, 3, 80, 120])))
        t = text(r, d, s)
        if a["withdrawn"]:
            t["gone"] = r.choice(DATES[:-1])
        return dict(a, text=t, affected=[wordy(r, e) for e in a["affected"]])
    return dress


def wordy(r, e):
    """lists more versions, in no order and more than once, and events more than once"""
    e = dict(e)
    known = gen.FLAT.get(gen.eco_of(e["eco"]))
    if known and r.random() < 0.5:
        e["versions"] = e["versions"] + [r.choice(known) for _ in range(r.randint(0, 4))]
        r.shuffle(e["versions"])
    if r.random() < 0.25:
        e["ranges"] = [dict(x, events=[ev for ev in x["events"] for _ in range(r.choice([1, 1, 2]))]) for x in e["ranges"]]
    return e


def exhaustive(r, lists, words_per_world=40):
    """every list of word lengths of the specification as the details of an advisory"""
    for b in range(0, len(lists), words_per_world):
        wd = world.World(r)
        part = lists[b:b + words_per_world]
        pkgs = [gen.pkg("p%d" % i, "1.0.0", "npm") for i in range(len(part))]
        wd.add_lock("cwd", "package-lock.json", "package-lock.json", pkgs)
        wd.fs["%s/cwd/package-lock.json" % world.ROOT]["reads"][0]["pkgs"] = sorted(pkgs, key=lambda p: p["name"])
        advs = [dict(gen.adv("%s-%d" % (r.choice(["GHSA", "OSV", "ghsa", "XGHSA"]), i), [gen.entry("p%d" % i, "npm", ["1.0.0"])]), text=text(r, sentence(r, x["words"]))) for i, x in enumerate(part)]
        db = wd.add_dir_db("db", [("", a) for a in advs])
        wd.add_config("cwd/.osv-detector.yml", [], [db])
        yield wd.scenario([wd.run(["package-lock.json"], text=True, useDbs="false"), wd.run(["package-lock.json"], useDbs="false")], ["data"], "word lengths")


def check(ctx):
    r = ctx.rng
    ctx.model("MCDescribe", CFG % (5, ctx.pick(9, 12), "1", 1), "MCDescribe")
    lists = ctx.generate("MCDescribe", CFG % (80, 0, "1, 2, 38, 39, 40, 41, 77, 78, 79, 80, 81, 160", ctx.pick(2, 3)), "MCDescribe/words")
    scs = list(exhaustive(r, lists))
    for _ in range(ctx.pick(350, 4000)):
        f = r.choice([0, 0, 0.1])
        wd = world.gen_world(r, r.randint(1, 3), r.randint(0, 3), r.randint(1, 4), fail=f, n_adv=r.choice([2, 6, 10]), aliases=0.25, dress=dresser(r, lists))
        args, fl = world.gen_args(r, wd), world.gen_flags(r, wd)
        scs.append(wd.scenario([wd.run(args, text=t, **fl) for t in r.choice([(True, False), (False, True)])], ["data"], "world"))
    # long texts, and many of them
    long = [{"words": [r.choice([1, 5, 30, 200, 1500]) for _ in range(r.choice([1, 10, 30]))]} for _ in range(12)]
    scs += world.bulk_scenarios(ctx, ["data"], ctx.pick(10, 100), (True, False), dress=dresser(r, lists))
    for _ in range(ctx.pick(12, 150)):
        wd = world.gen_world(r, 1, 1, r.randint(1, 2), n_adv=r.choice([2, 4]), aliases=0.25, dress=dresser(r, long))
        args, fl = world.gen_args(r, wd), world.gen_flags(r, wd)
        scs.append(wd.scenario([wd.run(args, text=t, **fl) for t in (True, False)], ["data"], "long texts"))
    suite.run(ctx, "DetectorTrace", scs)
