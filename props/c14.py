"""C14: one JSON document, errors apart, text agrees with JSON."""
import suite, world
import c13


def check(ctx):
    r = ctx.rng
    J = ["output", "exit"]
    scs = []
    for name, n in (("exit", ctx.pick(120, 2000)), ("ignore", ctx.pick(80, 2000)), ("select", ctx.pick(80, 2000))):
        for s in both(ctx, name, J, n):
            scs.append(s)
    for _ in range(ctx.pick(350, 5000)):
        f = r.choice([0, 0, 0.08, 0.2])
        wd = world.gen_world(r, r.randint(1, 4), r.randint(0, 3), r.randint(0, 3), fail=f, n_adv=r.choice([2, 6, 10]))
        args, fl = world.gen_args(r, wd, missing=f), world.gen_flags(r, wd, lst=0.15, update=0.2, offline=0.05)
        if r.random() < 0.05:
            fl["info"] = r.choice(["version", "list-ecosystems"])
        order = r.choice([(True, False), (False, True), (True, False, True)])
        scs.append(wd.scenario([wd.run(args, text=t, prefer=False, **fl) for t in order], J, "world"))
    for _ in range(ctx.pick(100, 1500)):
        wd, args, g = c13.sampled(r)
        if c13.ok_args(args):
            scs.append(wd.scenario([wd.run(args, parseAs=g, text=t, list=True) for t in (True, False)], J, "listing"))
    scs += world.bulk_scenarios(ctx, J, ctx.pick(15, 150), (True, False))
    suite.run(ctx, "DetectorTrace", scs)


def both(ctx, name, judge, n):
    r = ctx.rng
    gs = world.family(ctx, name, 1)
    total = len(gs)
    gs = r.sample(gs, min(n, total))
    for g in gs:
        wd, w = world.from_spec(r, g)
        yield wd.scenario([dict(w, text=True), dict(w, text=False)], judge, "family " + name, cached=g["cached"], pre=world.prime(wd, g))
    ctx.extra.setdefault("families", {})[name] = "%d of %d worlds executed in both modes" % (len(gs), total)
