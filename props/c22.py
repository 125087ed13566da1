"""C22: the report says truthfully what was loaded and what each lockfile was checked with."""
import cache, suite, world
import c14


def check(ctx):
    r = ctx.rng
    J = ["told"]
    scs = []
    for name, n in (("exit", ctx.pick(100, 2000)), ("ignore", ctx.pick(60, 2000)), ("select", ctx.pick(80, 2000)), ("offline", ctx.pick(80, 2000))):
        scs += list(c14.both(ctx, name, J, n))
    for _ in range(ctx.pick(350, 4000)):
        f = r.choice([0, 0, 0.08, 0.2])
        wd = world.gen_world(r, r.randint(1, 4), r.randint(0, 3), r.randint(0, 4), fail=f, n_adv=r.choice([0, 1, 2, 6, 12]))
        args, fl = world.gen_args(r, wd, missing=f), world.gen_flags(r, wd, lst=0.05, update=0.1)
        runs = [wd.run(args, text=t, **fl) for t in r.choice([(True, False), (False, True)])]
        if f == 0 and r.random() < 0.4:
            runs.append(wd.run(args, text=r.random() < 0.5, **dict(fl, offline=True)))
        scs.append(wd.scenario(runs, J, "world"))
    scs += world.bulk_scenarios(ctx, J, ctx.pick(15, 150), (True, False))
    suite.run(ctx, "DetectorTrace", scs)
    hs = []
    for _ in range(ctx.pick(150, 2500)):
        n = r.randint(3, 10)
        modes = [r.choice(cache.MODES) for _ in range(2)]
        hs.append(cache.scenario(r, modes, cache.random_history(r, n, ["neterr", "status", "trunc", "notzip"], r.random() < 0.2), "history", told=True))
    suite.run(ctx, "CacheTrace", hs)
    return ["databases are described by the words the repository's own snapshots use"]
