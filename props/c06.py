"""C06: a damaged or half-written archive copy is never trusted."""
import cache, suite
from c05 import CFG, INVS, q, hist_of, modes, FAULTS


def check(ctx):
    r = ctx.rng
    ctx.model("ZipCache", CFG % ("1, 2", q(["tag", "date"]), q(["neterr"]), ctx.pick(4, 6), "TRUE", INVS), "ZipCache/damage")
    gs = ctx.generate("CacheGen", CFG % ("1", q(["tag", "date", "both", "bare"]), q(["neterr", "trunc"]), ctx.pick(4, 5), "TRUE", "Emit"), "CacheGen/damage")
    gs = [g for g in gs if any(h["op"] == "damage" for h in g["hist"])]
    k = ctx.pick(500, 6000)
    scs = [cache.scenario(r, modes(g), hist_of(g), "history") for g in r.sample(gs, min(k, len(gs)))]
    n_spec = len(scs)
    # every kind of damage, followed by every kind of run
    on = {"op": "online", "u": 1, "fault": "none"}
    dam = {"op": "damage", "u": 1}
    tails = [[{"op": "offline", "u": 1}], [on, {"op": "offline", "u": 1}], [{"op": "change", "u": 1}, on, {"op": "offline", "u": 1}],
             [dict(on, fault="neterr"), {"op": "offline", "u": 1}, on]]
    for m in ("tag", "date", "both"):
        for t in tails:
            for c in cache.CORRUPT[3:]:
                scs.append(cache.scenario(r, [m], [on, dam] + t, "damage", damages=c, wds=["", "a"]))
    # crash points: byte positions of the stored copy, counted from both ends
    pos = ctx.pick(list(range(0, 12)) + [-1, -2, -3, -4, -5, -10] + [r.randrange(12, 2000) for _ in range(40)], list(range(0, 2400)) + list(range(-60, 0)))
    for i, p in enumerate(pos):
        t = tails[i % len(tails)]
        scs.append(cache.scenario(r, [("tag", "date", "both")[i % 3]], [on, dam] + t, "crash point", damages=("truncb", None), damage_at=p, wds=[""]))
    for _ in range(ctx.pick(200, 3000)):
        scs.append(cache.scenario(r, [r.choice(cache.MODES) for _ in range(2)],
                                  cache.random_history(r, r.randint(4, 14), FAULTS, True), "sampled"))
    suite.run(ctx, "CacheTrace", scs)
    ctx.extra.update(histories_from_spec=n_spec, crash_points=len(pos), damage_kinds=len(cache.CORRUPT), sampled=len(scs) - n_spec)
    return ["damage that leaves a different but complete archive in place cannot be told from a good copy and is not covered"]
