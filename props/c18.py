"""C18: structured lockfiles: every locked package is extracted as locked."""
import locks, suite

CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Fmt = "%s"\n MaxBlocks = %d\nINVARIANTS Compositional Named %s\n'


def spec_docs(ctx, fmt, n, cap):
    """documents the specification composes, at most cap of them"""
    gs = ctx.generate("MCLocks", CFG % (fmt, n, "Emit"), "MCLocks/" + fmt, workers=2, heap="2g")
    ctx.extra.setdefault("documents_of_spec", {})[fmt] = len(gs)
    return gs if len(gs) <= cap else ctx.rng.sample(gs, cap)


def check(ctx):
    r = ctx.rng
    scs = []
    fmts = sorted(locks.STRUCTURED)
    names = [f for f in fmts if f != "pnpm"] + ["pnpm5.4", "pnpm6.0", "pnpm9.0"]

    def gen(f):
        return f, spec_docs(ctx, f, ctx.pick(2, 3) if f != "npm1" else 2, ctx.pick(60, 2500))
    for f, gs in ctx.parallel(gen, names):
        real = "pnpm" if f.startswith("pnpm") else f
        for g in gs:
            head = {"version": f[4:]} if real == "pnpm" else {"version": 2 if f == "npm2" else 1, "fws": ["net6.0", "net8.0"]}
            d = {"fmt": real, "head": head, "items": g["items"]}
            scs.append(locks.scenario(r, d, locks.STRUCTURED[real][1](r, d), f + "/composed"))
    n_spec = len(scs)
    for f in fmts:
        g, w = locks.STRUCTURED[f]
        for _ in range(ctx.pick(150 if f in ("npm1", "npm2", "pnpm", "bun") else 80, 2000)):
            d = dict(g(r), fmt=f)
            scs.append(locks.scenario(r, d, w(r, d), f + "/sampled"))
    scs += locks.mixed(r, ctx.pick(80, 1000), fmts)
    suite.run(ctx, "LockTrace", scs)
    ctx.extra.update(composed_by_spec=n_spec, sampled=len(scs) - n_spec)
    return ["documents are written as the package managers write them"]
