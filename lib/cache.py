"""Histories of archive loads (C05, C06): rendering of ZipCache behaviours."""
import base64, json
import gen
from suite import Scenario, crash_of

URLSETS = [["https://db.example/all.zip", "https://db.example/All.zip"],
           ["https://db.example/npm/all.zip", "https://db.example/PyPI/all.zip"],
           ["https://db.example/all.zip", "https://db2.example/all.zip"],
           ["https://db.example/all.zip?v=1", "https://db.example/all.zip?v=2"],
           ["https://db.example/all.zip", "https://db.example/all.zip?"],
           ["https://db.example/a/b.zip", "https://db.example/a-b.zip"],
           ["http://db.example/all.zip", "https://db.example/all.zip"]]
MODES = ["tag", "date", "both", "never", "bare", "same", "tagonly"]
EPOCH = 1704067200     # 2024-01-01


def date(t):
    import time
    return time.strftime("%a, %d %b %Y %H:%M:%S GMT", time.gmtime(EPOCH + 3600 * t))


def etag(style, c):
    """what identifies content c; all of them differ exactly"""
    return ['"t%d"' % c, 'W/"t%d"' % c, '"%s"' % "".join("xX"[int(b)] for b in bin(c)[2:]), "t%d" % c, '"t,%d"' % c, '"%s"' % ("t" * c)][style]


def content(u, c, r):
    """advisory files of content c of url u"""
    fs = [{"id": "U%d-%d-root" % (u, c), "path": "U%d-%d-root.json" % (u, c)},
          {"id": "U%d-%d-a" % (u, c), "path": "a/U%d-%d-a.json" % (u, c)},
          {"id": "U%d-%d-ab" % (u, c), "path": "a-b/x.json"},
          {"id": "U%d-%d-deep" % (u, c), "path": "a/x/y.json"},
          {"id": "U%d-always" % u, "path": "always.json"}]
    return fs if c % 3 else fs[:-2]


def body(files, bulk=0):
    return {"isz": True, "zip": ([{"p": "a/bulk.bin", "rand": bulk}] if bulk else []) + [{"p": f["path"], "c": gen.adv_json(gen.adv(f["id"], [gen.entry("p", "npm", ["1.0.0"])]))} for f in files]}


CORRUPT = [
    ("trunc", None), ("trunc", None), ("trunc", None),
    ("tmpreplace", {"c": ""}), ("tmpreplace", {"c": "this is not json!"}), ("tmpreplace", {"c": "null"}), ("tmpreplace", {"c": "{}"}),
    ("tmpreplace", {"c": "[]"}), ("tmpreplace", {"c": "42"}), ("tmpreplace", {"c": "\"text\""}), ("tmpreplace", {"b64": base64.b64encode(b"\x00" * 64).decode()}),
    ("tmpappend", {"c": "}"}), ("tmpappend", {"c": "{\"etag\":\"x\"}"}), ("tmpappend", {"c": "garbage"}),
    ("tmpedit", ("body", 5)), ("tmpedit", ("body", "")), ("tmpedit", ("body", "AAAA")), ("tmpedit", ("body", "!!!")), ("tmpedit", ("body", None)),
    ("tmpedit", ("etag", 5)), ("tmpedit", ("date", [])), ("tmpedit", ("date", {"a": 1})), ("tmpedit", ("url", False)),
]


def damage_step(r, kind=None, at=None):
    k, a = kind or r.choice(CORRUPT)
    if k == "trunc":
        return {"op": "tmptrunc", "n": at if at is not None else r.choice([0, 1, 5, 20, 50, 100, 250, 500, 750, 900, 990, 999, r.randrange(1000)])}
    if k == "truncb":
        return {"op": "tmptruncb", "n": at}
    if k == "tmpedit":
        return {"op": "tmpedit", "path": a[0], "osv": a[1]}
    return {"op": k, "content": a}


def scenario(r, modes, hist, tag, urls=None, wds=None, damages=None, damage_at=None, told=False, bulk=0):
    """hist: [{op,u,fault}] with u in 1..; returns a Scenario judged by CacheTrace"""
    urls = urls or r.choice(URLSETS)
    contents = [[content(u + 1, c, r) for c in range(1, len(hist) + 2)] for u in range(len(modes))]
    srv = [{"content": 1, "mode": m, "modified": 1} for m in modes]
    steps, real, where = [], [], []
    style = r.choice([0, 0, 1, 2, 3, 4, 5])
    for k, h in enumerate(hist):
        now = k + 2
        u = h["u"]
        s = {"op": h["op"], "u": u, "wd": "", "fault": h.get("fault", ""), "mode": h.get("mode", "")}
        if h["op"] == "change":
            srv[u - 1] = dict(srv[u - 1], content=srv[u - 1]["content"] + 1, modified=now)
            where.append(None)
        elif h["op"] == "mode":
            srv[u - 1] = dict(srv[u - 1], mode=h["mode"])
            where.append(None)
        elif h["op"] == "damage":
            where.append(len(real))
            d = damage_step(r, damages, damage_at)
            s["fault"] = d["op"]
            real.append(d)
        else:
            s["wd"] = r.choice(wds or ["", "", "a", "a/", "a-b", "a/x", "zzz"])
            c = {"Name": "z%d" % u, "Type": "zip", "URL": urls[u - 1], "WorkingDirectory": s["wd"]}
            st = {"op": "db", "config": c, "offline": h["op"] == "offline", "http": {"rules": []}}
            for i, sv in enumerate(srv):
                f = s["fault"] if i == u - 1 else ""
                rule = {"kind": "archive", "u": urls[i], "body": body(contents[i][sv["content"] - 1], bulk)}
                if sv["mode"] in ("tag", "both", "tagonly"):
                    rule["etag"] = etag(style, sv["content"])
                if sv["mode"] == "same":
                    rule.update(etag='"same"', always=True)
                if sv["mode"] in ("date", "both"):
                    rule["modified"] = date(sv["modified"])
                if sv["mode"] not in ("bare", "tagonly"):
                    rule["date"] = date(now)
                if f == "neterr":
                    rule["fault"] = "neterr"
                elif f == "status":
                    rule.update(fault="status", status=r.choice([500, 404, 403, 503, 201, 202, 203, 204, 206, 226]))
                elif f in ("trunc", "tail"):
                    rule["fault"] = f
                elif f == "notzip":
                    rule.update(fault="notzip", body={"c": r.choice(["<html>please log in</html>", "", "{}", "PK"])})
                elif f == "cutzip":
                    rule.update(fault="cutzip", body=dict(rule["body"], cut=r.choice([1, 10, 22, 30, 100])))
                st["http"]["rules"].append(rule)
            where.append(len(real))
            real.append(st)
        steps.append(s)
    case = {"cwd": "cwd", "tree": [], "steps": real}
    base = {"modes": modes, "steps": steps, "contents": contents, "told": told}
    times = {date(t): t for t in range(0, len(hist) + 5)}

    def rec(outs):
        obs = []
        dead = ""
        for s, w in zip(steps, where):
            o = outs[w] if w is not None and w < len(outs) else {}
            if w is not None:
                dead = dead or (crash_of(o) if o else "no observation")
            obs.append({"crash": dead, "err": o.get("err") or o.get("checkErr") or "", "ids": sorted(o.get("loaded") or []),
                        "nreq": len(o.get("reqs") or []), "cond": any(q["cond"] for q in o.get("reqs") or []),
                        "at": times.get(o.get("updatedAt"), -1) if o.get("updatedAt") else 0, "count": o.get("count") or 0})
        return dict(base, obs=obs)
    return Scenario(case, rec, tag)


def random_history(r, n, faults, damage, modes=2):
    h = []
    for i in range(n):
        k = r.random()
        u = r.randint(1, modes)
        if k < 0.25:
            h.append({"op": "change", "u": u})
        elif k < 0.55:
            h.append({"op": "online", "u": u, "fault": r.choice(faults) if r.random() < 0.35 else "none"})
        elif k < 0.8:
            h.append({"op": "offline", "u": u})
        elif k < 0.88:
            h.append({"op": "mode", "u": u, "mode": r.choice(MODES)})
        elif damage:
            h.append({"op": "damage", "u": 1})
    h.append({"op": r.choice(["online", "offline"]), "u": r.randint(1, modes), "fault": "none"})
    return h
