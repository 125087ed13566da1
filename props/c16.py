"""C16: the same inputs always give the same output."""
import hashlib, json
import gen, locks, manifests, suite, world
import api as apimod
from suite import Scenario, crash_of

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Entries <- MCEntries\n IdsFor <- MCIds\n Updated <- MCUpdated\nINVARIANTS AlwaysTheSame AlwaysInOrder Total\n"


def lists_of(o):
    try:
        res = json.loads(o.get("stdout") or "")["results"]
    except Exception:
        return []
    return [[{"name": p["name"], "version": p["version"]} for p in x.get("packages") or []] for x in res]


def one(o):
    c = crash_of(o)
    t = o.get("stdout") or ""
    return {"exit": "crash" if c else str(o.get("exit", -1)), "out": hashlib.sha256(t.encode()).hexdigest(), "lists": [] if c else lists_of(o), "t": t}


def repeat(tree, steps, tag, cwd="cwd", env=None):
    """steps: those whose op is run are the repetitions"""
    marks = [i for i, s in enumerate(steps) if s["op"] == "run"]

    def rec(outs):
        runs = [one(outs[i] if i < len(outs) else {"died": True, "log": ""}) for i in marks]
        for x in runs:
            # where it starts to differ from the first one, for whoever reads the report
            k = next((i for i, (a, b) in enumerate(zip(x["t"], runs[0]["t"])) if a != b), min(len(x["t"]), len(runs[0]["t"])))
            x["hint"] = "..." + x["t"][max(0, k - 40):k + 60]
        return {"runs": [{k: v for k, v in x.items() if k != "t"} for x in runs]}
    return Scenario({"cwd": cwd, "tree": tree, "steps": steps}, rec, tag, env)


def shuffled(r, q):
    q = list(q)
    r.shuffle(q)
    return q


def reorder(r, rules, keys):
    """the same answers in another order of arrival"""
    out = []
    for x in rules:
        if x["kind"] == "api" and r.random() < 0.8:
            ids = list(x["details"]) + [i for a in x["answers"].values() for i in a]
            x = dict(x, order=shuffled(r, keys), dorder=shuffled(r, sorted(set(ids))))
        out.append(x)
    return out


def listing(r, fmt, n):
    """one lockfile, listed again and again"""
    if fmt in locks.STRUCTURED:
        g, w = locks.STRUCTURED[fmt]
        d = dict(g(r), fmt=fmt)
        text, name = w(r, d), locks.FILE[fmt]
    else:
        text, name = locks.join_lines(r, locks.LINES[fmt](r)), locks.FILE[fmt]
    js = r.random() < 0.8
    step = {"op": "run", "args": (["--json"] if js else []) + ["--list-packages", name], "http": {"rules": []}}
    return repeat([{"p": "cwd/" + name, "c": text}], [step] * n, fmt + "/listing")


def ties(r, n):
    """entries that only differ in what is compared last, or not at all"""
    names, vs, cs = ["a", "b"], ["1.0.0", "2.0.0"], ["%040x" % r.getrandbits(160) for _ in range(3)]
    k = r.choice(["npm2", "npm1", "pnpm", "bun", "pubspec", "nuget", "maven"])
    items = [(r.choice(names), r.choice(vs), r.choice(cs + [""])) for _ in range(r.randint(2, 14))]
    if k == "npm2":
        name, text = "package-lock.json", json.dumps({"lockfileVersion": 2, "packages": {
            "node_modules/x%d/node_modules/%s" % (i, a): {"version": v, "resolved": "git+ssh://git@github.com/o/r.git#" + c if c else ""} for i, (a, v, c) in enumerate(items)}})
    elif k == "npm1":
        name, text = "package-lock.json", json.dumps({"lockfileVersion": 1, "dependencies": {
            "x%d" % i: {"version": "1.0.0", "dependencies": {a: {"version": "github:o/r#" + c if c else r.choice([v, "file:" + v, "npm:b@" + v])}}} for i, (a, v, c) in enumerate(items)}})
    elif k == "pnpm":
        name, text = "pnpm-lock.yaml", "lockfileVersion: 5.4\npackages:\n" + "".join(
            "\n  github.com/o/r%d/%s:\n    resolution: {tarball: https://codeload.github.com/o/r/tar.gz/%s}\n    name: %s\n    version: %s\n" % (i, c or "abc", c or "abc", a, v) for i, (a, v, c) in enumerate(items))
    elif k == "bun":
        name, text = "bun.lock", json.dumps({"lockfileVersion": 1, "packages": {"x%d/%s" % (i, a): ["%s@%s" % (a, "github:o/r#" + c if c else v), {}, "x"] for i, (a, v, c) in enumerate(items)}})
    elif k == "pubspec":
        name, text = "pubspec.lock", "packages:\n" + "".join("  n%d:\n    version: \"%s\"\n    source: git\n    description:\n      resolved-ref: %s\n      url: x\n" % (i, v, c or "abc") for i, (a, v, c) in enumerate(items))
    elif k == "nuget":
        name, text = "packages.lock.json", json.dumps({"version": 1, "dependencies": {"net%d.0" % i: {a: {"type": "Direct", "resolved": v}, "c": {"resolved": v}} for i, (a, v, c) in enumerate(items)}})
    else:
        name, text = "pom.xml", "<project><dependencies>%s</dependencies></project>" % "".join(
            "<dependency><groupId>%s</groupId><artifactId>x%d</artifactId><version>%s</version></dependency>" % (a, i % 3, v) for i, (a, v, c) in enumerate(items))
    step = {"op": "run", "args": r.choice([["--json"], []]) + ["--list-packages", name], "http": {"rules": []}}
    return repeat([{"p": "cwd/" + name, "c": text}], [step] * n, k + "/ties")


def whole(r, n, **kw):
    wd = world.gen_world(r, r.randint(1, 4), r.randint(0, 3), r.randint(0, 3), fail=r.choice([0, 0, 0.1]), n_adv=r.choice([4, 8, 12]), pkgs=r.choice([4, 8]), **kw)
    fl = dict(world.DEFAULT_FLAGS, **world.gen_flags(r, wd, update=0.3, offline=0.03))
    if r.random() < 0.6:
        fl["useApi"], fl["batch"] = "true", r.choice([1, 1, 2, 3])
    args = world.flag_args(fl, json_out=r.random() < 0.5) + world.gen_args(r, wd)
    keys = sorted({q for x in wd.rules if x["kind"] == "api" for q in x["answers"]} | {apimod.key(p) for p in wd.pkgs})
    cfgs = [c["path"][len(world.ROOT) + 1:] for c in wd.configs]
    steps = []
    fresh = r.random() < 0.3
    for i in range(n):
        if fl["update"] and i:
            steps += [{"op": "write", "content": t} for t in wd.tree if t["p"] in cfgs]
        if fresh:
            steps.append({"op": "tmpclear"})
        steps.append({"op": "run", "args": args, "http": {"rules": reorder(r, wd.rules, keys)}})
    return repeat(wd.tree, steps, "world")


def updates(r, n):
    """several configs to be updated in one run"""
    dirs = r.sample(["a", "b", "c/d", "e", "f"], r.randint(2, 5))
    tree = [{"p": "db/X-%d.json" % i, "c": gen.adv_json(gen.adv("X-%d" % i, [gen.entry("p", "npm", ["1.0.0"])]))} for i in range(r.randint(1, 4))]
    cfg = lambda d: {"p": "cwd/%s/.osv-detector.yml" % d, "c": "extra-databases:\n  - url: file:///../db\n"}
    for d in dirs:
        tree += [{"p": "cwd/%s/package-lock.json" % d, "c": world.lock_text("package-lock.json", [gen.pkg("p", "1.0.0", "npm")])}, cfg(d)]
    args = shuffled(r, ["%s/package-lock.json" % d for d in dirs])
    steps = []
    for _ in range(n):
        steps += [{"op": "write", "content": cfg(d)} for d in dirs]
        steps.append({"op": "run", "args": ["--use-dbs=false", "--update-config-ignores"] + args, "http": {"rules": []}})
    return repeat(tree, steps, "updates")


def schedule(r, n):
    """an API asked in many batches, answered in as many orders"""
    m = r.randint(2, 12)
    pkgs = [gen.pkg(r.choice("abcdef") + str(i), "1.0.%d" % r.randint(0, 3), "npm") for i in range(m)]
    ids = ["OSV-%d" % i for i in range(r.randint(1, 8))]
    ans = {apimod.key(p): r.sample(ids, r.randint(0, min(4, len(ids)))) for p in pkgs}
    al = lambda i: [r.choice(ids)] if r.random() < 0.4 else []
    det = {i: json.loads(gen.adv_json(gen.adv(i, [], False, [a for a in al(i) if a != i]))) for i in ids}
    for i in ids:
        det[i]["summary"] = "about " + i
    bf = {r.choice(list(ans)): r.choice(apimod.BFAULTS) for _ in range(r.choice([0, 0, 0, 1, 2]))}
    df = {r.choice(ids): r.choice(apimod.DFAULTS) for _ in range(r.choice([0, 0, 1]))}
    b = r.choice([1, 1, 2, 3])
    nb = (m + b - 1) // b
    nd = len({i for a in ans.values() for i in a})
    steps = []
    js = r.random() < 0.5
    for k in range(n):
        keys, dk = sorted(ans), sorted(ids)
        if k:
            r.shuffle(keys)
            r.shuffle(dk)
        if k == 1:
            keys, dk = sorted(ans)[::-1], sorted(ids)[::-1]
        rule = {"kind": "api", "u": "https://api.osv.dev/v1", "answers": ans, "details": det, "bfaults": bf, "dfaults": df, "order": keys, "dorder": dk, "expect": nb, "dexpect": nd}
        steps.append({"op": "run", "args": (["--json"] if js else []) + ["--use-dbs=false", "--use-api", "--batch-size", str(b), "--parse-as", "csv-file", "in.csv"], "http": {"rules": [rule]}})
    return repeat([{"p": "cwd/in.csv", "c": apimod.csv(pkgs)}], steps, "schedule")


def manifest(r, n):
    k = r.choice(["gomod", "requirements", "maven"])
    if k == "requirements":
        tree, name = manifests.requirements_tree(r, manifests.fix_backslashes(manifests.gen_requirements(r))), "p/requirements.txt"
    elif k == "gomod":
        tree, name = [{"p": "go.mod", "c": manifests.render_gomod(r, manifests.gen_gomod(r))}], "go.mod"
    else:
        tree, name = [{"p": "pom.xml", "c": manifests.render_maven(r, manifests.gen_maven(r))}], "pom.xml"
    step = {"op": "run", "args": ["--json", "--list-packages", name], "http": {"rules": []}}
    return repeat(tree, [step] * n, k + "/listing", cwd="")


def check(ctx):
    r = ctx.rng
    ctx.model("MCRepeat", CFG)
    n = ctx.pick(5, 10)
    scs = []
    for f in sorted(locks.STRUCTURED) + sorted(locks.LINES):
        for _ in range(ctx.pick(20, 200)):
            scs.append(listing(r, f, n))
    for _ in range(ctx.pick(60, 800)):
        scs.append(manifest(r, n))
    for _ in range(ctx.pick(300, 3000)):
        scs.append(ties(r, ctx.pick(8, 12)))
    for _ in range(ctx.pick(300, 3000)):
        scs.append(whole(r, n))
    for _ in range(ctx.pick(30, 300)):
        scs.append(updates(r, n))
    for _ in range(ctx.pick(150, 2000)):
        scs.append(schedule(r, n))
    for a in (["--list-ecosystems"], ["--version"], ["--json", "--version"], ["--parse-as", "nope", "x"], ["nothing-here"], ["."], ["--json"]):
        scs.append(repeat([{"p": "cwd/x", "c": ""}], [{"op": "run", "args": a, "http": {"rules": []}}] * n, "other"))
    suite.run(ctx, "RepeatTrace", scs)
    ctx.extra["repetitions_per_scenario"] = n
    return ["repetitions run in one process, one after another; Go chooses a fresh map order for every iteration"]
