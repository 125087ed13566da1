"""C03: API results belong to the package they were asked for, in any schedule."""
import api, suite


def check(ctx):
    r = ctx.rng
    api.models(ctx, "TypeOK Partition ResultsBelong")
    scheds = [g for g in api.schedules(ctx, 0, 0)]
    scs = [api.from_spec(g, r, "schedule") for g in scheds]
    n_spec = len(scs)
    for _ in range(ctx.pick(450, 3000)):
        n = r.choice([1, 2, 3, 5, 8, 13, 21])
        scs.append(api.sampled(r, n, r.choice([1, 2, 3, 4, 7, n, n + 1, 1000]), lost=r.choice([0, 0, 0.2]), tag="sampled"))
    for _ in range(ctx.pick(80, 600)):
        n = r.choice([1, 2, 3, 5, 8, 13])
        scs.append(api.sampled(r, n, r.choice([1, 2, 3, 4, 7, n, n + 1, 1000]), cli=True, tag="cli"))
    # beyond the limits on concurrent requests
    for n, b, ids in ctx.pick([(230, 2, 40), (330, 3, 450), (1030, 1000, 60), (r.randint(440, 520), 1, 60)], [(460, 1, 50), (2300, 3, 80), (230, 2, 40), (330, 3, 450), (1200, 4, 700), (2500, 1000, 300), (205, 1, 900)]):
        scs.append(api.sampled(r, n, b, n_ids=ids, gated=False, tag="large"))
        scs.append(api.sampled(r, n, b, n_ids=ids, gated=True, tag="large"))
    # answers of several megabytes
    scs += [api.sampled(r, 5, 2, pad=n, tag="bulk") for n in ctx.pick([70_000, 1_200_000, 11_000_000], [70_000, 1_200_000, 11_000_000, 40_000_000])]
    scs.append(api.sampled(r, 1010, 1000, n_ids=50, gated=False, cli=True, tag="large"))
    # many ids for one package
    scs += [api.sampled(r, r.choice([1, 3, 8]), r.choice([1, 2, 1000]), n_ids=m + 10, most=m, gated=r.random() < 0.5, cli=i % 3 == 0, tag="many ids")
            for m in (30, 70, 150) for i in range(ctx.pick(4, 20))]
    suite.run(ctx, "ApiTrace", scs)
    ctx.extra.update(schedules_from_spec=n_spec, sampled=len(scs) - n_spec)
    return ["the scripted API answers as the documented osv.dev API does",
            "schedules are those of answers arriving; the Go scheduler below that is not controlled"]
