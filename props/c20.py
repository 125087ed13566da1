"""C20: manifests resolve to the versions they declare."""
import locks, manifests as mf, suite

CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Fmt = "%s"\n MaxItems = %d\nINVARIANTS GoOrderIrrelevant GoLocal GoNeverMore ReqReach ReqLocal PomOnce PomResolved Emit\n'


def scenario(r, d, tag):
    if d["fmt"] == "gomod":
        return locks.scenario(r, d, mf.render_gomod(r, d), tag)
    if d["fmt"] == "maven":
        return locks.scenario(r, d, mf.render_maven(r, d), tag)
    return locks.scenario(r, d, "", tag, tree=mf.requirements_tree(r, d))


def check(ctx):
    r = ctx.rng
    scs = []
    todo = [("gomod", ctx.pick(2, 3)), ("requirements", 3), ("maven", 0)]
    for f, gs in ctx.parallel(lambda x: (x[0], ctx.generate("MCManifests", CFG % x, "MCManifests/%s%d" % x, workers=4)), todo):
        ctx.extra.setdefault("documents_of_spec", {})[f] = len(gs)
        for g in r.sample(gs, min(len(gs), ctx.pick(512, 8000))):
            scs.append(scenario(r, g, f + "/composed"))
    n_spec = len(scs)
    for _ in range(ctx.pick(350, 3500)):
        scs.append(scenario(r, mf.gen_gomod(r), "gomod/sampled"))
        scs.append(scenario(r, mf.gen_maven(r), "maven/sampled"))
        scs.append(scenario(r, mf.fix_backslashes(mf.gen_requirements(r)), "requirements/sampled"))
    # lines that do not fit the usual buffers: read completely, or refused
    for _ in range(ctx.pick(25, 300)):
        d = mf.fix_backslashes(mf.gen_requirements(r))
        fs = r.choice(d["files"])
        at = [i for i in range(len(fs["lines"]) + 1) if i == 0 or not fs["lines"][i - 1].endswith("\\")]
        i = r.choice(at)
        tree = mf.requirements_tree(r, {"files": [f if f is not fs else dict(f, lines=f["lines"][:i] + ["# " + "a" * r.choice([65000, 65533, 65534, 65535, 70000, 200000])] + f["lines"][i:]) for f in d["files"]]})
        scs.append(locks.scenario(r, dict(d, must="either"), "", "requirements/long", tree=tree))
    # several manifests in one run, also ones that include the same files or each other
    for _ in range(ctx.pick(60, 800)):
        parts, tree = [], []
        for i in range(r.choice([1, 2])):
            d = mf.fix_backslashes(mf.gen_requirements(r, r.choice([2, 3, 4])))
            tree += [dict(t, p="r%d/%s" % (i, t["p"])) for t in mf.requirements_tree(r, d)]
            for k in range(len(d["files"])):
                if k == 0 or r.random() < 0.7:
                    parts.append((dict(d, files=[d["files"][k]] + d["files"][:k] + d["files"][k + 1:]), "r%d/%s" % (i, d["files"][k]["path"])))
        for i in range(r.choice([0, 1, 2])):
            d = r.choice([mf.gen_gomod, mf.gen_maven])(r)
            fn = "m%d/%s" % (i, locks.FILE[d["fmt"]])
            tree.append({"p": fn, "c": mf.render_gomod(r, d) if d["fmt"] == "gomod" else mf.render_maven(r, d)})
            parts.append((d, fn))
        scs += locks.together(r, parts, tree, "together")
    suite.run(ctx, "ManifestTrace", scs)
    ctx.extra.update(composed_by_spec=n_spec, sampled=len(scs) - n_spec)
    return ["no manifest declares the same dependency of its own with two different versions, and include paths are relative",
            "lines ending in an even number of backslashes are not covered"]
