"""C10: the same vulnerability is reported once per package."""
import gen, suite, world


def check(ctx):
    r = ctx.rng
    J = ["merge"]
    scs = world.family_scenarios(ctx, "merge", J, ctx.pick(700, 10000))
    for _ in range(ctx.pick(300, 5000)):
        wd = world.gen_world(r, r.randint(1, 3), r.randint(1, 2), r.randint(2, 4), aliases=r.choice([0.3, 0.7, 0.95]), n_adv=r.choice([5, 8, 12]), pkgs=3)
        fl = world.gen_flags(r, wd)
        fl.update(useApi=r.choice(["true", "false"]), useDbs=r.choice(["true", "true", "false"]), noDatabases=False)
        scs.append(wd.scenario([wd.run(world.gen_args(r, wd), **fl)], J, "world"))
    # dense alias groups over many databases, one package
    for _ in range(ctx.pick(150, 3000)):
        wd = world.World(r)
        p = gen.pkg("alpha", "1.0.0", "npm")
        wd.add_lock("cwd", "a.csv", "csv-file", [p, gen.pkg("beta", "1.0.0", "npm")])
        n = r.randint(2, 7)
        # also ids that are nearly the same
        near = r.choice([None, None, "g%d", "G%d0", "G%d.", "G-%d", "XG%d"])
        ids = ["G%d" % i if not near else (near if i % 2 else "G%d") % (i // 2 + 1) for i in range(n)]
        pool = [gen.adv(i, [gen.entry(r.choice(["alpha", "alpha", "beta"]), "npm", ["1.0.0"]) for _ in range(r.choice([1, 2]))], r.random() < 0.1,
                        [a for a in r.choices(ids + ["X", "Y", "Z", "x"], k=r.randint(0, 3)) if a != i or r.random() < 0.2]) for i in ids]
        if r.random() < 0.3:
            # advisories with many more aliases
            for k, a in enumerate(pool):
                if r.random() < 0.5:
                    a["aliases"] = r.choice([lambda x: x + a["aliases"], lambda x: a["aliases"] + x, lambda x: r.sample(x + a["aliases"], len(x + a["aliases"]))])(
                        ["W%d-%d" % (k, j) for j in range(r.choice([3, 9, 10, 20, 40, 70]))])
        if r.random() < 0.2:
            # advisories that share one alias only, somewhere among many others
            for k, a in enumerate(pool):
                a["aliases"] = ["V%d-%d" % (k, j) for j in range(r.choice([0, 1, 5, 9, 33]))]
                a["aliases"].insert(r.choice([0, len(a["aliases"]), len(a["aliases"]), r.randint(0, len(a["aliases"]))]), r.choice(["X", "X", "Y"]))
        specs = []
        for k in range(r.randint(1, 4)):
            some = r.sample(pool, r.randint(1, n))
            some = [dict(a, aliases=[]) if r.random() < 0.2 else a for a in some]
            t = r.random()
            if t < 0.4:
                specs.append(wd.add_dir_db("d%d" % k, [(r.choice(["", "b/"]), a) for a in some]))
            elif t < 0.8:
                specs.append(wd.add_zip_db("https://z%d.example/all.zip" % k, [("", a) for a in some]))
            else:
                qs = {world.query_json(q): r.sample([a["id"] for a in some], r.randint(1, len(some))) for q in (p, gen.pkg("beta", "1.0.0", "npm")) if r.random() < 0.8}
                specs.append(wd.add_api_db("https://a%d.example/v1" % k, qs, some))
        wd.add_config("cwd/.osv-detector.yml", [i for i in ids if r.random() < 0.2], specs)
        scs.append(wd.scenario([wd.run(["csv-file:a.csv"], useDbs="false")], J, "groups"))
    scs += world.bulk_scenarios(ctx, J, ctx.pick(15, 150))
    suite.run(ctx, "DetectorTrace", scs)
