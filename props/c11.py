"""C11: updating config ignores records exactly what was found and nothing else."""
import gen, suite, world

ODD = ["0123", "null", "~", "true", "yes", "a: b", "#c", "1e3", "- x", "'q'", "GHSA-1 #c", "[x]", "2024-01-01", "0x1F", "=", "%a", "@b", "!c", "*d", "&e"]


def check(ctx):
    r = ctx.rng
    J = ["update", "exit", "reports"]
    scs = world.family_scenarios(ctx, "update", J, ctx.pick(250, 10000), runs=3, tree_check=True)
    for _ in range(ctx.pick(350, 5000)):
        f = r.choice([0, 0, 0, 0.06])
        wd = world.gen_world(r, r.randint(1, 4), r.randint(1, 3), r.randint(0, 2), n_adv=r.choice([3, 6, 10]), fail=f, dirs=r.choice([("",), ("", "sub"), ("", "sub", "other")]))
        runs = []
        # an update, perhaps partial, perhaps failing; then the same again
        args = world.gen_args(r, wd)
        fl = world.gen_flags(r, wd)
        for _ in range(r.randint(1, 4)):
            if r.random() < 0.4:
                args = world.gen_args(r, wd, n=r.randint(1, len(wd.locks)), missing=f)
            if r.random() < 0.4:
                fl = world.gen_flags(r, wd)
            w = wd.run(args, text=r.random() < 0.35, **dict(fl, update=r.random() < 0.7))
            if r.random() < 0.2:
                w = wd.without(w, r.sample(sorted(wd.dbs), min(len(wd.dbs), r.randint(1, 2))))
            runs.append(w)
        runs[0]["flags"]["update"] = True
        if r.random() < 0.6:
            runs.append(wd.run(args, **dict(fl, update=r.random() < 0.3)))
        scs.append(wd.scenario(runs, J, "history", tree_check=True))
    # ids that mean something else when they are not written with care
    for _ in range(ctx.pick(40, 400)):
        wd = world.World(r)
        p = gen.pkg("alpha", "1.0.0", "npm")
        wd.add_lock("cwd", "a.csv", "csv-file", [p])
        ids = r.sample(ODD, r.randint(1, 6))
        spec = wd.add_zip_db("https://z.example/all.zip", [])
        wd.rules[-1]["body"]["zip"] = [{"p": "%d.json" % i, "c": gen.adv_json(gen.adv(x, [gen.entry("alpha", "npm", ["1.0.0"])]))} for i, x in enumerate(ids)]
        wd.dbs["zip#https://z.example/all.zip"]["advs"] = [gen.adv(x, [gen.entry("alpha", "npm", ["1.0.0"])]) for x in ids]
        wd.add_config("cwd/.osv-detector.yml", [], [spec])
        runs = [wd.run(["csv-file:a.csv"], useDbs="false", update=u) for u in (True, False, True)]
        scs.append(wd.scenario(runs, J, "odd ids", tree_check=True))
    scs += world.bulk_scenarios(ctx, J, ctx.pick(15, 150), (False, True), tree_check=True, update=True)
    suite.run(ctx, "DetectorTrace", scs)
    return ["comments and formatting of a rewritten config are not compared, only its decoded ignores and databases", "a config file that cannot be written is not covered (checks run as root)"]
