"""C09: ignoring only moves findings aside."""
import suite, world


def check(ctx):
    r = ctx.rng
    J = ["reports", "exit"]
    scs = world.family_scenarios(ctx, "ignore", J, ctx.pick(216, 10000))
    for _ in range(ctx.pick(400, 6000)):
        wd = world.gen_world(r, r.randint(1, 4), r.randint(1, 3), r.randint(0, 2), n_adv=r.choice([4, 8, 12]), fail=r.choice([0, 0, 0.05]))
        args, fl = world.gen_args(r, wd), world.gen_flags(r, wd)
        ids = [a["id"] for a in wd.pool]
        # the same world under several sets of ignores
        runs = []
        for _ in range(r.randint(1, 3)):
            ig = r.choice([[], ids, r.sample(ids, r.randint(0, len(ids))), [ids[0].lower(), ids[0] + " ", ids[0][:-1]], [a for x in wd.pool for a in x["aliases"]]])
            runs.append(wd.run(args, text=r.random() < 0.25, **dict(fl, ignores=ig, noIgnores=r.random() < 0.3, noConfig=r.random() < 0.2)))
        scs.append(wd.scenario(runs, J, "world"))
    scs += world.bulk_scenarios(ctx, J, ctx.pick(15, 150), (False, True))
    suite.run(ctx, "DetectorTrace", scs)
