"""C12: each lockfile is checked against exactly the databases selected for it."""
import suite, world


def check(ctx):
    r = ctx.rng
    J = ["selection", "merge", "exit"]
    scs = world.family_scenarios(ctx, "select", J, ctx.pick(576, 10000))
    for _ in range(ctx.pick(300, 5000)):
        f = r.choice([0, 0, 0.08])
        wd = world.gen_world(r, r.randint(1, 5), r.randint(0, 3), r.randint(1, 4), fail=f)
        prefer = r.random() < 0.3
        runs = [wd.run(world.gen_args(r, wd), prefer=prefer, text=r.random() < 0.15, **world.gen_flags(r, wd, lst=0.05)) for _ in range(r.randint(1, 2))]
        # only "true" makes the API preferred
        scs.append(wd.scenario(runs, J, "world", unset=r.choice([None, None, "false", "1", "TRUE"])))
    for _ in range(ctx.pick(150, 3000)):
        # one configuration for lockfiles of different ecosystems, whose databases are not all good or not all different
        wd = world.World(r)
        kinds = r.sample(list(world.KIND_ECO), r.randint(2, 4))
        for k in kinds:
            wd.add_lock("cwd/" + r.choice("ab") if r.random() < 0.6 else "cwd", k, k, world.gen_pkgs(r, k, r.randint(1, 3)))
        pool = wd.pool = world.gen_advs(r, wd.pkgs, 8, aliases=0.2)
        some = lambda: [("", a) for a in pool if r.random() < 0.6]
        close = r.random() < 0.4
        specs = [wd.add_dir_db("db" + "x" * i if close else "db%d" % i, some()) if r.random() < 0.6 else
                 wd.add_zip_db("https://db.example/all.zip" + ".zip" * i if close else "https://db%d.example/all.zip" % i, some()) for i in range(r.randint(1, 5))]
        for e in sorted({p["eco"] for p in wd.pkgs}):
            wd.add_zip_db(world.eco_url(e), some())
        world.add_api(wd, r, world.API, [a for _, a in some()], lambda x: False, True)
        dbs = [dict(r.choice(specs)) if r.random() < 0.3 else dict(s) for s in specs]
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            dbs.insert(r.randint(0, len(dbs)), {"url": "not-a-url", "type": "", "wd": "", "ok": False})
        fn = r.choice(["cwd/conf.yml", "cwd/conf.yml", "cwd/.osv-detector.yml"])
        wd.add_config(fn, [], dbs)
        fl = {"useDbs": r.choice(["true", "true", ""]), "useApi": r.choice(["true", "false", ""])}
        if fn == "cwd/conf.yml":
            fl["config"] = "conf.yml"
        if r.random() < 0.1:
            fl["noDatabases"] = True
        prefer = r.random() < 0.2
        runs = [wd.run(world.gen_args(r, wd), prefer=prefer, text=False, **fl) for _ in range(r.randint(1, 2))]
        scs.append(wd.scenario(runs, J, "one configuration"))
    scs += world.bulk_scenarios(ctx, J, ctx.pick(15, 150))
    suite.run(ctx, "DetectorTrace", scs)
