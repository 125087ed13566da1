"""C05: archive databases reflect the server online and the last download offline."""
import cache, suite

FAULTS = ["neterr", "status", "trunc", "tail", "notzip", "cutzip"]
CFG = """SPECIFICATION Spec
CONSTANTS
 Urls = {%s}
 Modes = {%s}
 Faults = {%s}
 Depth = %d
 WithDamage = %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
INVS = "NeverStale OnlineWorks OfflineIsLast DamageNotTrusted"


def q(xs):
    return ", ".join('"%s"' % x for x in xs)


def hist_of(g):
    return [dict(h) for h in g["hist"]]


def check(ctx):
    r = ctx.rng
    ctx.model("ZipCache", CFG % ("1, 2", q(["tag", "date", "bare"]), q(["neterr", "trunc", "notzip"]), ctx.pick(4, 5), "FALSE", INVS), "ZipCache")
    scs = []
    one = ctx.generate("CacheGen", CFG % ("1", q(cache.MODES), q(FAULTS), ctx.pick(3, 4), "FALSE", "Emit"), "CacheGen/one")
    two = ctx.generate("CacheGen", CFG % ("1, 2", q(["tag", "date"]), q(["notzip"]), 4, "FALSE", "Emit"), "CacheGen/two")
    deep = ctx.generate("CacheGen", CFG % ("1", q(cache.MODES), q(["notzip"]), ctx.pick(4, 5), "FALSE", "Emit"), "CacheGen/deep")
    deep = [g for g in deep if g["hist"][-1]["op"] != "change"]
    for g in deep:
        scs.append(cache.scenario(r, modes(g), hist_of(g), "history/deep"))
    k1, k2 = ctx.pick((500, 700), (6000, 9000))
    for g in r.sample(one, min(k1, len(one))):
        scs.append(cache.scenario(r, modes(g), hist_of(g), "history/one"))
    for g in r.sample(two, min(k2, len(two))):
        scs.append(cache.scenario(r, modes(g), hist_of(g), "history/two"))
    n_spec = len(scs)
    for _ in range(ctx.pick(700, 6000)):
        scs.append(cache.scenario(r, [r.choice(cache.MODES) for _ in range(2)],
                                  cache.random_history(r, r.randint(3, ctx.pick(12, 25)), FAULTS, False), "sampled"))
    # archives of several megabytes
    for bulk in ctx.pick([7_000_000, 20_000_000], [7_000_000, 20_000_000, 60_000_000]):
        for m in ("tag", "date"):
            scs.append(cache.scenario(r, [m, "both"], [dict(op=o, u=1) for o in ("online", "offline", "online", "change", "online", "offline")], "bulk", bulk=bulk))
    suite.run(ctx, "CacheTrace", scs)
    ctx.extra.update(histories_from_spec=n_spec, spec_histories_total=len(one) + len(two) + len(deep), sampled=len(scs) - n_spec)
    return ["server changes and runs are at least a second apart (HTTP dates)", "one run at a time uses the stored copies"]


def modes(g):
    m = g["modes"]
    return m if isinstance(m, list) else [m[k] for k in sorted(m)]
