"""C04: a failing API never yields partial or misattributed results."""
import api, suite


def check(ctx):
    r = ctx.rng
    api.models(ctx, "TypeOK AllOrNothing ResultsBelong")
    scheds = api.schedules(ctx, ctx.pick(2, 4), ctx.pick(2, 3))
    scheds = [g for g in scheds if g["bfail"] or g["dfail"]]
    k = ctx.pick(500, 100000)
    if len(scheds) > k:
        scheds = r.sample(scheds, k)
    scs = [api.from_spec(g, r, "schedule") for g in scheds]
    n_spec = len(scs)
    # every kind of fault in every position, for a few sizes
    for f in api.BFAULTS:
        for size in (1, 2, 4):
            pk = api.small_pkgs()
            for b in range(0, 4, size):
                scs.append(api.scenario(pk, size, api.WORLD, {i: "about " + i for a in api.WORLD for i in a},
                                        bfaults={api.key(pk[b]): f}, tag="fault " + f, cli=r.random() < 0.5))
    for f in api.DFAULTS:
        for i in ("OSV-A", "OSV-B", "OSV-C"):
            scs.append(api.scenario(api.small_pkgs(), 2, api.WORLD, {i: "about " + i for a in api.WORLD for i in a},
                                    dfaults={i: f}, tag="detail fault " + f, cli=r.random() < 0.5))
    for _ in range(ctx.pick(200, 2500)):
        n = r.choice([1, 2, 3, 5, 8, 13, 21])
        scs.append(api.sampled(r, n, r.choice([1, 2, 3, 4, 7, 1000]), faults=r.choice([0, 1, 1, 2, 3]), lost=r.choice([0, 0.3, 0.7]),
                               gated=r.random() < 0.7, cli=r.random() < 0.3, tag="sampled"))
    for _ in range(ctx.pick(2, 8)):
        scs.append(api.sampled(r, 240, 2, faults=1, lost=0.1, n_ids=260, gated=False, tag="large"))
    # a failure among the last of more batches than are sent at once
    for i in range(ctx.pick(4, 20)):
        n = r.randint(120, 320)
        scs.append(api.sampled(r, n, 1, faults=1, late=r.randint(101, n - 1), n_ids=30, gated=i % 2 == 0, cli=i % 4 == 3, tag="late"))
    suite.run(ctx, "ApiTrace", scs)
    ctx.extra.update(fault_schedules_from_spec=n_spec, sampled=len(scs) - n_spec)
    return ["faults are those listed in the statement, as seen by the HTTP client"]
