"""C19: line based lockfiles: every locked package is extracted as locked."""
import locks, suite
from c18 import spec_docs

# a line that carries no package but is too long for a line buffer
LONG = {"yarn": ["# %s", "  integrity sha512-%s", "    foo \"%s\""], "gem": ["      foo (>= %s)", "  x%s: y"], "mix": ["  # %s"], "gradle": ["# %s"]}


def long_line(r, f, ls):
    """a file whose lines do not fit the usual buffers must be read completely or refused"""
    i = r.randint(1, len(ls)) if ls else 0
    n = r.choice([65000, 65535, 65536, 65537, 70000, 200000])
    t = r.choice(LONG[f])
    if f in ("yarn", "gem") and (i == 0 or not (ls[i - 1].startswith(" "))):
        t = "# %s" if f == "yarn" else "      foo (>= %s)"
    text = ls[:i] + [t % ("a" * n)] + ls[i:]
    return ls[:i] + [t % "a"] + ls[i:], text


def check(ctx):
    r = ctx.rng
    scs = []
    for f, gs in ctx.parallel(lambda f: (f, spec_docs(ctx, f, {"yarn": 2, "gem": ctx.pick(2, 3), "mix": 3, "gradle": 3}[f], ctx.pick(150, 4000))), sorted(locks.LINES)):
        for g in gs:
            scs.append(locks.scenario(r, {"fmt": f, "items": g["items"]}, locks.join_lines(r, g["items"]), f + "/composed"))
    n_spec = len(scs)
    for f, g in sorted(locks.LINES.items()):
        for _ in range(ctx.pick(250, 4000)):
            ls = g(r)
            scs.append(locks.scenario(r, {"fmt": f, "items": ls}, locks.join_lines(r, ls), f + "/sampled", name=r.choice(["gradle.lockfile", "buildscript-gradle.lockfile"]) if f == "gradle" else None))
        for _ in range(ctx.pick(25, 300)):
            items, ls = long_line(r, f, g(r))
            scs.append(locks.scenario(r, {"fmt": f, "items": items, "must": "either"}, locks.join_lines(r, ls), f + "/long"))
        # cannot be read at all
        scs.append(locks.scenario(r, {"fmt": f, "items": [], "must": "refuse"}, "", f + "/folder", tree=[{"p": "p/" + locks.FILE[f], "dir": True}, {"p": "p/" + locks.FILE[f] + "/x", "c": "x"}]))
        scs.append(locks.scenario(r, {"fmt": f, "items": [], "must": "refuse"}, "", f + "/missing", tree=[{"p": "p", "dir": True}]))
    scs += locks.mixed(r, ctx.pick(60, 1000), sorted(locks.LINES))
    suite.run(ctx, "LockTrace", scs)
    ctx.extra.update(composed_by_spec=n_spec, sampled=len(scs) - n_spec)
    return ["mix.lock entries end with a comma and use the name of the package as the key, as Mix writes them"]
