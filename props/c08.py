"""C08: the exit status tells clean, vulnerable and failed runs apart."""
import suite, world


def check(ctx):
    r = ctx.rng
    scs = world.family_scenarios(ctx, "exit", ["exit"], ctx.pick(500, 10000))
    for _ in range(ctx.pick(400, 5000)):
        f = r.choice([0, 0, 0.1, 0.3])
        wd = world.gen_world(r, r.randint(1, 4), r.randint(0, 3), r.randint(0, 3), fail=f, n_adv=r.choice([2, 5, 8]))
        run = wd.run(world.gen_args(r, wd, missing=f), prefer=r.random() < 0.1, text=r.random() < 0.3, **world.gen_flags(r, wd, offline=0.1, lst=0.1, update=0.1))
        if r.random() < 0.2:
            run["flags"]["ignores"] = [a["id"] for a in wd.pool]
        scs.append(wd.scenario([run], ["exit"], "world"))
    scs += odd(r, ctx.pick(150, 1500))
    suite.run(ctx, "DetectorTrace", scs)


def odd(r, n):
    """runs that end early, and rows on the command line"""
    out = []
    for _ in range(n):
        wd = world.gen_world(r, r.randint(0, 2), 1, 1, fail=r.choice([0, 0.2]))
        wd.add_dir("cwd/empty")
        wd.add_dir("cwd/unknown")
        wd.add_file("cwd/unknown/readme.md", "hello", [])
        k = r.randrange(6)
        args, rows, fl = [], None, world.gen_flags(r, wd, lst=0.1)
        if k == 0:
            args = r.sample(["empty", "unknown", "gone", "empty/nope", "csv-file:empty", "package-lock.json:empty"], r.randint(0, 3))
        elif k == 1:
            args = [r.choice(["unknown/readme.md", "package-lock.json:unknown", ":unknown/readme.md", "nope:unknown/readme.md", "csv-file:unknown"])] + world.gen_args(r, wd)
        elif k == 2:
            args, fl["parseAs"] = world.gen_args(r, wd), r.choice(["nope", "package-lock", "csv", "CSV-FILE", "Cargo.toml"])
        elif k == 3:
            ps = world.gen_pkgs(r, "csv-file", r.randint(1, 3))
            wd.pkgs += ps
            args = world.lock_text("csv-file", ps).splitlines()
            rows, fl["parseAs"] = {"ok": True, "pkgs": ps}, "csv-row"
            if r.random() < 0.3:
                args.insert(r.randint(0, len(args)), "npm,,,1.0.0" if ps[0]["eco"] else ",,x,")
                rows = {"ok": False, "pkgs": []}
            for e in sorted({p["eco"] for p in ps if p["eco"]} - {u.split("/")[-2] for u in wd.archives}):
                wd.add_zip_db(world.eco_url(e), [("", a) for a in world.gen_advs(r, ps, 3, id0=e[0])])
        elif k == 4:
            args, fl["config"] = world.gen_args(r, wd), r.choice(["nope.yml", "unknown", "unknown/readme.md", "conf.yml"])
            if fl["config"] == "unknown/readme.md":
                fl["config"] = "gone.yml"
        else:
            args, fl["batch"], fl["useApi"] = world.gen_args(r, wd), r.choice([0, -1, 1]), r.choice(["true", "false"])
        out.append(wd.scenario([wd.run(args, rows, **fl)], ["exit"], "edge"))
    return out
