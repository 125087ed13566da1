"""C07: an offline run never uses the network."""
import suite, world

FORMS = ["http:db.example/all.zip", "HTTP://DB.EXAMPLE/all.zip", "https://db.example:8443/all.zip", "https://u:p@db.example/all.zip", "https://db.example/all.zip?x=y.zip",
         "https://db.example/a%20b/all.zip", "http://127.0.0.1:1/all.zip", "http://localhost/all.zip", "https://db.example/all", "http://[::1]/all.zip", "ftp://db.example/all.zip",
         "/all.zip", "https:///all.zip", "mailto:x.zip"]


def check(ctx):
    r = ctx.rng
    J = ["offline", "exit", "reports"]
    scs = world.family_scenarios(ctx, "offline", J, ctx.pick(256, 10000))
    for _ in range(ctx.pick(350, 6000)):
        f = r.choice([0, 0, 0.1])
        wd = world.gen_world(r, r.randint(1, 3), r.randint(0, 3), r.randint(0, 3), fail=f)
        prefer = r.random() < 0.2
        runs = []
        for _ in range(r.randint(1, 4)):
            fl = world.gen_flags(r, wd, update=0.1, lst=0.05)
            runs.append(wd.run(world.gen_args(r, wd, missing=f / 2), prefer=prefer, text=r.random() < 0.2, **dict(fl, offline=r.random() < 0.6)))
        runs[-1]["flags"]["offline"] = True
        scs.append(wd.scenario(runs, J, "history"))
    # archives at addresses of every form, of which nothing is stored
    for _ in range(ctx.pick(60, 500)):
        wd = world.World(r)
        wd.add_lock("cwd", "a.csv", "csv-file", world.gen_pkgs(r, "csv-file", r.randint(1, 3)))
        wd.pool = []
        urls = r.sample(FORMS, r.randint(1, 3))
        specs = [wd.add_zip_db(u, [], explicit=r.random() < 0.5 or not u.endswith(".zip")) for u in urls]
        specs += [{"url": u, "type": "api", "wd": ""} for u in r.sample(FORMS, r.choice([0, 0, 1]))]
        for s in specs:
            if s["type"] == "api":
                wd.add_api_db(s["url"], {}, [])
        wd.add_config("cwd/.osv-detector.yml", [], specs)
        runs = [wd.run(["csv-file:a.csv"], useDbs="false", offline=True, text=r.random() < 0.3) for _ in range(2)]
        scs.append(wd.scenario(runs, J, "addresses"))
    suite.run(ctx, "DetectorTrace", scs)
    return ["requests are observed at Go's default HTTP transport; a change that opened connections of its own around it would have to be seen through its effects"]
