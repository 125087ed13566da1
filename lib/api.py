"""Scenarios for API databases (C03, C04)."""
import json
import gen
from suite import Scenario, crash_of

API = "https://api.example/v1"
WORLD = [["OSV-A", "OSV-B"], [], ["OSV-B", "OSV-C"], ["OSV-A"]]
BFAULTS = ["neterr", "status:500", "status:404", "status:429", "status:204", "status:203", "status:201", "status:206", "status:304", "trunc", "tail", "garbage", "trailing", "empty", "short", "extra", "none", "null", "list", "typed-results", "typed-result", "typed-vulns", "typed-vuln", "typed-id"]
DFAULTS = ["neterr", "status:500", "status:404", "trunc", "garbage"]

CFG = """SPECIFICATION Spec
CONSTANTS
 World <- %s
 BatchSizes = {%s}
 MaxFaults = %d
 MaxLost = %d
INVARIANTS %s
CHECK_DEADLOCK FALSE
%s
"""


def query(p):
    if p["name"] and p["eco"] and p["version"]:
        return {"name": p["name"], "eco": p["eco"], "version": p["version"], "commit": ""}
    return {"name": "", "eco": "", "version": "", "commit": p["commit"]}


def key(p):
    q = query(p)
    return "commit|" + q["commit"] if q["commit"] else "%s|%s|%s" % (q["eco"], q["name"], q["version"])


def seen_queries(reqs):
    out = []
    for r in reqs or []:
        if r["m"] == "POST" and r["u"].endswith("/querybatch"):
            qs = json.loads(r["body"]).get("queries") or []
            out.append([{"name": (q.get("package") or {}).get("name", ""), "eco": (q.get("package") or {}).get("ecosystem", ""),
                         "version": q.get("version", ""), "commit": q.get("commit", "")} for q in qs])
    return out


def scenario(pkgs, batch, answers, details, order=(), dorder=(), bfaults=None, dfaults=None, tag="", cli=False, url=API, pad=0):
    """answers: per package index; order/dorder: keys of the first query of a batch / ids; bfaults: key -> fault"""
    bfaults, dfaults = bfaults or {}, dfaults or {}
    table = {}
    for p, a in zip(pkgs, answers):
        table[key(p)] = a
    answers = [table[key(p)] for p in pkgs]
    nb = (len(pkgs) + batch - 1) // batch
    nd = len({i for a in answers for i in a})
    rule = {"kind": "api", "u": url, "answers": table,
            "details": {i: {"id": i, "summary": s, "details": "d"} for i, s in details.items()},
            "bfaults": bfaults, "dfaults": dfaults, "order": list(order), "dorder": list(dorder), "pad": pad}
    if order:
        rule["expect"] = nb
    if dorder:
        rule["dexpect"] = nd
    lost = [i for i in {i for a in answers for i in a} if i in dfaults or i not in details]
    base = {"pkgs": pkgs, "batch": batch, "answers": answers,
            "details": [{"id": i, "summary": s} for i, s in sorted(details.items())], "lost": sorted(lost), "bfail": bool(bfaults)}
    if not cli:
        case = {"cwd": "cwd", "tree": [], "steps": [{"op": "db", "config": {"Name": "a", "Type": "api", "URL": url}, "batch": batch,
                                                     "pkgs": [gen.pkg_real(p) for p in pkgs], "http": {"rules": [rule]}}]}

        def rec(outs):
            o = outs[-1]
            return dict(base, crash=crash_of(o), loadErr=o.get("err") or "", err=o.get("checkErr") or "", reqs=seen_queries(o.get("reqs")),
                        results=[[{"id": v["id"], "summary": v["summary"]} for v in vs] for vs in (o.get("results") or [])])
    else:
        case = {"cwd": "cwd", "tree": [{"p": "cwd/in.csv", "c": csv(pkgs)},
                                       {"p": "cwd/conf.yml", "c": "extra-databases:\n  - url: %s\n" % url}],
                "steps": [{"op": "run", "args": ["--json", "--use-dbs=false"] + (["--batch-size", str(batch)] if batch != 1000 else []) + ["--config", "conf.yml",
                                                 "--parse-as", "csv-file", "in.csv"], "http": {"rules": [rule]}}]}

        def rec(outs):
            o = outs[-1]
            r = dict(base, crash=crash_of(o), loadErr="", err="", reqs=seen_queries(o.get("reqs")), results=[])
            if r["crash"]:
                return r
            try:
                ps = json.loads(o["stdout"])["results"][0]["packages"] or []
            except Exception as e:
                return dict(r, crash="no report: %r" % e)
            vulns = sum(len(p["vulnerabilities"]) for p in ps)
            if o["exit"] not in (0, 1) or "an api error occurred" in o["stderr"]:
                r["err"] = "exit %d %s" % (o["exit"], o["stderr"][-200:])
            if not r["err"] and o["exit"] != (1 if vulns else 0):
                r["loadErr"] = "exit code %d with %d vulnerabilities" % (o["exit"], vulns)
            # the report is in its own order; put it back into ours
            res, pool = [], list(ps)
            for p in pkgs:
                m = [x for x in pool if (x["name"], x["version"], x.get("ecosystem", ""), x.get("commit", "")) == (p["name"], p["version"], p["eco"], p["commit"])]
                if not m:
                    return dict(r, loadErr="package missing in the report: %s" % json.dumps(p))
                pool.remove(m[0])
                res.append([{"id": v["id"], "summary": v["summary"]} for v in m[0]["vulnerabilities"]])
            return dict(r, results=res)
    return Scenario(case, rec, tag)


def csv(pkgs):
    return "".join(",".join(gen.csv_field(f) for f in ((p["eco"], "", p["name"], p["version"]) if p["eco"] else ("", "", p["name"], p["commit"]))) + "\n"
                   for p in pkgs)


def small_pkgs():
    return [gen.pkg("p%d" % i, "1.%d.0" % i, "npm") for i in range(1, len(WORLD) + 1)]


def from_spec(g, r, tag):
    """a schedule emitted by ApiGen"""
    pkgs = small_pkgs()
    size = g["size"]
    first = lambda b: key(pkgs[(b - 1) * size])
    details = {i: "about " + i for a in WORLD for i in a}
    return scenario(pkgs, size, WORLD, details, [first(b) for b in g["order"]], g["dorder"],
                    {first(b): r.choice(BFAULTS) for b in g["bfail"]}, {i: r.choice(DFAULTS) for i in g["dfail"]}, tag)


def sampled(r, n, batch, faults=0, lost=0.0, n_ids=None, gated=True, cli=False, tag="", pad=0, most=3, late=0):
    n_ids = n_ids or max(1, n // 2)
    ids = ["%s-%04d" % (r.choice(["GHSA", "OSV", "CVE"]), i) for i in range(n_ids)]
    # ids that are easily taken for another one
    for i in r.sample(ids, min(len(ids), r.choice([0, 1, 2]))):
        ids += [v for v in r.sample([i.lower(), i + "0", i[:-1], i + "-" + i], r.randint(1, 2)) if v not in ids]
    pkgs = []
    seen = set()
    while len(pkgs) < n:
        i = len(pkgs)
        k = r.random()
        e = r.choice(gen.ECOS)
        if k < 0.75:
            p = gen.pkg("p%d" % r.choice([i, i, i % 3, i // 2]), r.choice(gen.FLAT[e]), e)
        elif k < 0.9 and not cli:
            p = gen.pkg("p%d" % i, r.choice(["", "1.0.0"]), r.choice(["", e]), commit="%040x" % r.getrandbits(160) if r.random() < 0.8 else "")
        elif k < 0.8:
            p = gen.pkg("p%d" % i, "", e)
        elif k < 0.9:
            p = gen.pkg("p%d" % i, "", "", commit="%040x" % r.getrandbits(160))
        elif pkgs and not cli:
            p = dict(r.choice(pkgs))
        else:
            p = gen.pkg("q%d" % i, "2.0.0", e)
        if r.random() < 0.1 and not cli:
            p["commit"] = "%040x" % r.getrandbits(160)
        pkgs.append(p)
    answers = [r.sample(ids, min(len(ids), r.choice([0, 0, 1, 1, 2, most]))) for _ in pkgs]
    if not cli:
        for a in answers:
            if a and r.random() < 0.1:
                a.append(a[0])
    details = {i: "about " + i for i in ids if r.random() > lost / 4}
    keys = [key(p) for p in pkgs]
    table = dict(zip(keys, answers))
    firsts = [keys[i] for i in range(0, n, batch)]
    bf = {}
    for _ in range(faults):
        bf[r.choice(firsts[late:])] = r.choice(BFAULTS)
    df = {i: r.choice(DFAULTS) for i in ids if r.random() < lost}
    order, dorder = [], []
    if gated:
        order = sorted(set(firsts))
        r.shuffle(order)
        dorder = sorted({i for k in keys for i in table[k]})
        r.shuffle(dorder)
    return scenario(pkgs, batch, answers, details, order, dorder, bf, df, tag, cli, pad=pad)


def models(ctx, invs):
    import tempfile
    ctx.model("MCApi", CFG % ("SmallWorld", ctx.pick("1, 2, 3, 4", "1, 2, 3, 4"), ctx.pick(2, 4), ctx.pick(1, 3), invs, "PROPERTY Terminates"), "ApiDb")


def schedules(ctx, faults, lost):
    return ctx.generate("MCApi", CFG % ("SmallWorld", "1, 2, 3, 4", faults, lost, "Emit", ""), "ApiGen")
