"""C15: a failure in one input never changes the results of the others."""
import random, suite, world


def check(ctx):
    r = ctx.rng
    J = ["failure", "merge", "exit"]
    scs = world.family_scenarios(ctx, "exit", J, ctx.pick(200, 10000))
    kinds = {}
    for _ in range(ctx.pick(40, 500)):
        seed = r.random()
        n = (r.randint(2, 4), r.randint(0, 3), r.randint(1, 3))
        mk = lambda at: world.gen_world(random.Random(seed), *n, fail_at=at)
        base = mk(())
        args = world.gen_args(random.Random(seed), base)
        fl = world.gen_flags(random.Random(seed), base)
        one = [(i,) for i in range(len(base.points))]
        two = [tuple(r.sample(range(len(base.points)), min(len(base.points), r.randint(2, 4)))) for _ in range(4)]
        for at in [()] + one + two:
            wd = mk(at)
            scs.append(wd.scenario([wd.run(args, text=r.random() < 0.25, **fl)], J, "failing: " + (", ".join(base.points[i] for i in at) or "nothing")))
            for i in at:
                kinds[base.points[i]] = kinds.get(base.points[i], 0) + 1
        for bad in ("gone/package-lock.json", "csv-file:nope.csv", "nope:" + args[0].split(":")[-1]):
            for pos in range(len(args) + 1):
                wd = mk(())
                a = args[:pos] + [bad] + args[pos:]
                scs.append(wd.scenario([wd.run(a, **fl)], J, "failing: argument"))
        # what fails is given more than once, and so is what does not
        for at in [()] + r.sample(one, min(2, len(one))):
            wd = mk(at)
            a = [x for x in args for _ in range(r.choice([1, 1, 2, 3]))]
            a += r.choices(args + ["gone/package-lock.json"], k=r.randint(0, 3))
            scs.append(wd.scenario([wd.run(a, text=r.random() < 0.25, **fl)], J, "failing: " + (", ".join(base.points[i] for i in at) or "nothing") + ", repeated"))
    ctx.extra["failure_points"] = kinds
    scs += world.bulk_scenarios(ctx, J, ctx.pick(10, 100))
    suite.run(ctx, "DetectorTrace", scs)
