"""C25: commands that only inform touch nothing and tell the truth."""
import suite, world
from suite import Scenario

UNKNOWN = ["nope", "package-lock", "Package-lock.json", "csv", "go.sum", " go.mod", "csv-File", "yarn.lock ", "."]


def told(sc, runs):
    """adds what was listed to the observations of a scenario"""
    at = [i for i, s in enumerate(sc.case["steps"]) if s["op"] == "run"]

    def rec(outs):
        d = sc.rec(outs)
        for ob, i, w in zip(d["obs"], at, runs):
            o = outs[i] if i < len(outs) else {}
            unknown = w["flags"]["parseAs"] in UNKNOWN and not w["flags"]["info"]
            src = (o.get("stdout") if w.get("text") and not unknown else o.get("stderr")) or ""
            ob["said"] = [l.strip() for l in src.split("\n") if l.startswith("  ")]
            ob["lines"] = len((o.get("stdout") or "").splitlines())
        return d
    return Scenario(sc.case, rec, sc.tag, sc.env)


def check(ctx):
    r = ctx.rng
    scs = []
    for g in world.family(ctx, "exit", 1)[:ctx.pick(60, 2000)]:
        wd, w = world.from_spec(r, g)
        runs = [dict(w, text=t, flags=dict(w["flags"], list=True, update=r.random() < 0.5)) for t in (True, False)]
        scs.append(told(wd.scenario(runs, [], "family exit", tree_check=True), runs))
    for _ in range(ctx.pick(450, 6000)):
        f = r.choice([0, 0.1, 0.3])
        wd = world.gen_world(r, r.randint(1, 4), r.randint(0, 3), r.randint(0, 3), fail=f)
        args = world.gen_args(r, wd, missing=f)
        runs = []
        for _ in range(2):
            fl = world.gen_flags(r, wd, offline=0.2, update=0.4)
            if r.random() < 0.15:
                fl["config"] = "no-such.yml"
            k = r.random()
            if k < 0.6:
                fl["list"] = True
            elif k < 0.75:
                fl["info"] = "version"
            elif k < 0.9:
                fl["info"] = "list-ecosystems"
            else:
                fl["parseAs"] = r.choice(UNKNOWN)
            if "info" in fl and r.random() < 0.3:
                fl["parseAs"] = r.choice(UNKNOWN)
            if k >= 0.6 and r.random() < 0.3:
                fl["list"] = True
            a = args if r.random() < 0.9 else []
            runs.append(wd.run(a, text=r.random() < 0.6, **fl))
        scs.append(told(wd.scenario(runs, [], "world", tree_check=True), runs))
    suite.run(ctx, "AuxTrace", scs, cfg="SPECIFICATION AuxSpec\nCHECK_DEADLOCK FALSE\n")
    return []
