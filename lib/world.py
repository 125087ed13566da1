"""Whole-run scenarios for the Detector specification: worlds, their rendering and what is observed."""
import json, random, re
import gen
from suite import Scenario, crash_of

ROOT = "${ROOT}"
API = "https://api.osv.dev/v1"
APIID = "api#" + API


def eco_url(e):
    return "https://osv-vulnerabilities.storage.googleapis.com/%s/all.zip" % e


DEFAULT_FLAGS = {"offline": False, "parseAs": "", "config": "", "noConfig": False, "update": False, "noIgnores": False,
                 "noDatabases": False, "list": False, "useDbs": "", "useApi": "", "batch": 1000, "ignores": [], "info": ""}


def flag_args(f, json_out=True):
    a = []
    if json_out:
        a.append("--json")
    for k, n in (("offline", "offline"), ("noConfig", "no-config"), ("update", "update-config-ignores"), ("noIgnores", "no-config-ignores"),
                 ("noDatabases", "no-config-databases"), ("list", "list-packages")):
        if f[k]:
            a.append("--" + n)
    for k, n in (("useDbs", "use-dbs"), ("useApi", "use-api")):
        if f[k]:
            a.append("--%s=%s" % (n, f[k]))
    if f["parseAs"]:
        a += ["--parse-as", f["parseAs"]]
    if f["config"]:
        a += ["--config", f["config"]]
    if f["batch"] != 1000:
        a += ["--batch-size", str(f["batch"])]
    for i in f["ignores"]:
        a += ["--ignore", i]
    if f["info"]:
        a.append("--" + f["info"])
    return a


# ------------------------------------------------------------------ lockfiles
def lock_text(kind, pkgs):
    if kind == "csv-file":
        return "".join(",".join(gen.csv_field(x) for x in ((p["eco"], p["cmp"] if p["cmp"] != p["eco"] else "", p["name"], p["version"]) if p["eco"]
                                                          else ("", "", p["name"], p["commit"]))) + "\n" for p in pkgs)
    if kind == "package-lock.json":
        return json.dumps({"lockfileVersion": 1, "dependencies": {p["name"]: {"version": p["version"]} for p in pkgs}})
    if kind == "Cargo.lock":
        return "version = 3\n\n" + "".join('[[package]]\nname = "%s"\nversion = "%s"\n\n' % (p["name"], p["version"]) for p in pkgs)
    if kind == "requirements.txt":
        return "# pinned\n" + "".join("%s==%s\n" % (p["name"], p["version"]) for p in pkgs)
    if kind == "composer.lock":
        return json.dumps({"packages": [{"name": p["name"], "version": p["version"], "dist": {"reference": ""}} for p in pkgs]})
    raise ValueError(kind)


# lockfiles that are read completely but give reason to say something about it
NOISE = [("pom.xml", "<project><dependencies><dependency><groupId>noise</groupId><artifactId>m</artifactId><version>${undefined}</version></dependency></dependencies></project>", [gen.pkg("noise:m", "0", "Maven")]),
         ("gradle.lockfile", "# gradle\nnot-a-dependency\nnoise:g:1.0=x\nempty=\n", [gen.pkg("noise:g", "1.0", "Maven")]),
         ("mix.lock", '%{\n  "odd": {:hex},\n}\n', [])]
ODDFILES = ["{", "[]", "not json", '{"id": 5}', '{"id": "X", "affected": 5}']


KIND_ECO = {"package-lock.json": "npm", "Cargo.lock": "crates.io", "requirements.txt": "PyPI", "composer.lock": "Packagist"}
NAMEPOOL = ["alpha", "beta", "gamma", "delta", "eps", "zeta"]
ODDNAMES = ["50%off", "%s", "%d%%", "a&b", "<i>", "it's", "a b", 'q"q', "a\\\\b", "$x", "@scope/p", "a,b", "#x", "*"]
BROKEN = {"csv-file": ["npm,,x\n", "npm,,,1.0.0\n", ",,x,\n", 'npm,,"x,1\n'], "package-lock.json": ["{", "[]", "not json"], "Cargo.lock": ["[[package\n", "= 3\n"],
          "composer.lock": ["{", "nope"], "requirements.txt": None}


def gen_pkgs(r, kind, n):
    out, seen = [], set()
    names = NAMEPOOL
    if kind in ("csv-file", "package-lock.json", "composer.lock") and r.random() < 0.2:
        names = NAMEPOOL[:3] + r.sample(ODDNAMES, 3)
    for _ in range(n):
        if kind == "csv-file":
            e = r.choice(["npm", "PyPI", "Go", "crates.io", "Maven"])
            p = gen.pkg(r.choice(names), r.choice(gen.FLAT[e][:8]), e)
            if r.random() < 0.08:
                p = gen.pkg(r.choice(names), "", "", "", commit="%040x" % r.getrandbits(160))
            key = (p["name"], p["version"], p["commit"], p["eco"])
        else:
            e = KIND_ECO[kind]
            vs = [v for v in gen.FLAT[e] if "!" not in v and not (kind == "composer.lock" and v.startswith("v"))][:9]
            p = gen.pkg(r.choice(names), r.choice(vs), e)
            key = p["name"]
        if key not in seen:
            seen.add(key)
            out.append(p)
    return out


class World:
    """fs, configs and databases of a history of runs"""

    def __init__(self, r, fr=None):
        self.r = r
        self.fr = fr or r     # chooses how things fail
        self.fs = {"%s/cwd" % ROOT: {"path": "%s/cwd" % ROOT, "dir": True, "reads": []}}
        self.tree = []
        self.locks = []       # (path as argument, kind, ok)
        self.configs = []
        self.cfg_text = {}
        self.dbs = {}         # id -> db record
        self.rules = []
        self.archives = {}    # url -> list of (path, adv)
        self.pkgs = []

    def add_dir(self, rel):
        p = ROOT + "/" + rel
        parts = p.split("/")
        for i in range(2, len(parts) + 1):
            q = "/".join(parts[:i])
            self.fs.setdefault(q, {"path": q, "dir": True, "reads": []})
        self.tree.append({"p": rel, "dir": True})

    def add_file(self, rel, text, reads):
        d = rel.rsplit("/", 1)[0]
        self.add_dir(d)
        q = ROOT + "/" + rel
        self.fs[q] = {"path": q, "dir": False, "reads": reads}
        self.tree.append({"p": rel, "c": text})

    def add_lock(self, d, name, kind, pkgs, ok=True):
        """d relative to the root, e.g. cwd/sub"""
        b = BROKEN.get(kind)
        if not ok and not b:
            ok = True
        text = lock_text(kind, pkgs) if ok else self.fr.choice(b)
        self.add_file("%s/%s" % (d, name), text, [{"as": kind, "ok": ok, "pkgs": pkgs if ok else []}])
        if ok:
            self.pkgs += pkgs
        self.locks.append({"dir": d, "name": name, "kind": kind, "ok": ok})

    def add_config(self, rel, ignore, dbs, ok=True):
        """dbs: list of {url,type,wd,ok,name}"""
        r = self.r
        if ok:
            t = "# config\n" if r.random() < 0.5 else ""
            order = ["i", "d"]
            r.shuffle(order)
            for o in order:
                if o == "i" and (ignore or r.random() < 0.5):
                    t += "ignore:%s\n" % ("".join("\n  - %s" % i for i in ignore) if ignore else " []")
                if o == "d" and dbs:
                    t += "extra-databases:\n"
                    for d in dbs:
                        t += "  - url: %s\n" % d["url"]
                        if d["type"]:
                            t += "    type: %s\n" % d["type"]
                        if d["wd"]:
                            t += "    working-directory: %s\n" % d["wd"]
                        if d.get("name"):
                            t += "    name: %s\n" % d["name"]
            if not t:
                t = "ignore: []\n"
        else:
            t = self.fr.choice(["ignore: [\n", "ignore: text\n", "a: b: c\n", "extra-databases: 5\n", "- x\n"])
        self.add_file(rel, t, [])
        self.configs.append({"path": ROOT + "/" + rel, "ok": ok, "ignore": ignore if ok else [],
                             "dbs": [{"url": d["url"], "type": d["type"], "wd": d["wd"], "name": d.get("name", ""), "ok": d.get("ok", True)} for d in dbs] if ok else []})
        return rel

    # --------------------------------------------------------------- databases
    def add_dir_db(self, name, placed, wd="", up=True):
        """placed: [(folder, adv)]"""
        url = "file:////%s/%s" % (ROOT, name)
        did = "dir#" + url + ("#" + wd if wd else "")
        if up and not any(t["p"].startswith(name + "/") for t in self.tree):
            self.tree.append({"p": name, "dir": True})
            self.tree += [{"p": "%s/%s%s.json" % (name, f, a["id"]), "c": gen.adv_json(a)} for f, a in placed]
        if wd and up:
            self.tree.append({"p": "%s/%s" % (name, wd.rstrip("/")), "dir": True})
            if self.fr.random() < 0.25:
                self.tree += [{"p": "%s/odd%d.json" % (name, i), "c": t} for i, t in enumerate(self.fr.sample(ODDFILES, 2))] + [{"p": name + "/read.me", "c": "x"}]
        order = sorted(placed, key=lambda x: tuple((x[0] + x[1]["id"] + ".json").split("/")))
        self.dbs[did] = self._db(did, "dir", url, up, [a for f, a in order if not wd or f.startswith(wd.rstrip("/") + "/")])
        return {"url": url, "type": "", "wd": wd}

    def add_zip_db(self, url, placed, wd="", up=True, explicit=False):
        did = "zip#" + url + ("#" + wd if wd else "")
        if url not in self.archives:
            self.archives[url] = up
            body = {"isz": True, "zip": [{"p": "%s%s.json" % (f, a["id"]), "c": gen.adv_json(a)} for f, a in placed]}
            if up and self.fr.random() < 0.25:
                body["zip"].insert(self.fr.randint(0, len(placed)), {"p": "odd.json", "c": self.fr.choice(ODDFILES)})
                body["zip"].insert(0, {"p": "read.me", "c": "x"})
            rule = {"kind": "archive", "u": url, "etag": '"%s"' % gen.re.sub(r"\W", "", url)[-20:], "date": "%s Jan 2024 00:00:00 GMT" % self.fr.choice(["Mon, 01", "Tue, 02"]), "body": body}
            # either header alone identifies an answer
            k = self.fr.choice("bbed")
            if k != "b":
                rule["date" if k == "e" else "etag"] = ""
            if not up:
                k = self.fr.choice(["neterr", "status", "notzip", "trunc"])
                rule["fault"] = k
                if k == "status":
                    rule["status"] = self.fr.choice([404, 500, 403])
                if k == "notzip":
                    rule["body"] = {"c": "<html>"}
            self.rules.append(rule)
        self.dbs[did] = self._db(did, "zip", url, up, [a for f, a in placed if not wd or f.startswith(wd.rstrip("/") + "/")])
        return {"url": url, "type": "zip" if explicit else "", "wd": wd}

    def add_api_db(self, url, answers, advs, bad=(), lost=(), up=True):
        """answers: {query-json: ids}"""
        did = "api#" + url
        key = lambda q: "commit|" + q["commit"] if q["commit"] else "%s|%s|%s" % (q["eco"], q["name"], q["version"])
        qs = [json.loads(q) for q in answers]
        rule = {"kind": "api", "u": url, "answers": {key(json.loads(q)): ids for q, ids in answers.items()},
                "details": {a["id"]: json.loads(gen.adv_json(a)) for a in advs if a["id"] not in lost},
                "bfaults": {key(q): self.fr.choice(["neterr", "status:500", "trunc", "garbage", "short"]) for q in bad},
                "dfaults": {i: "status:500" for i in lost}}
        if not up:
            rule = {"kind": "static", "u": url + "/querybatch", "status": self.fr.choice([500, 404, 503]), "body": {"c": "no"}}
        self.rules.append(rule)
        d = self._db(did, "api", url, up, [a for a in advs if a["id"] not in lost])
        d["answers"] = [{"q": json.loads(q), "ids": ids} for q, ids in answers.items()]
        d["bad"] = list(bad)
        self.dbs[did] = d
        return {"url": url, "type": "api" if url.endswith(".zip") else "", "wd": ""}

    def _db(self, did, t, url, up, advs):
        date = "".join(x["date"] for x in self.rules if x["u"] == url and x["kind"] == "archive")
        return {"id": did, "type": t, "url": url, "up": up, "advs": advs, "answers": [], "bad": [], "date": date}

    # --------------------------------------------------------------------- runs
    def run(self, args, rows=None, prefer=False, text=False, **flags):
        f = dict(DEFAULT_FLAGS, **flags)
        return {"args": args, "cwd": "cwd", "prefer": prefer, "flags": f, "fs": list(self.fs.values()), "rows": rows or {"ok": False, "pkgs": []}, "text": text,
                "dbs": list(self.dbs.values())}

    def without(self, run, ids):
        """the same run while some remote databases cannot be reached"""
        dbs = [dict(d) for d in run["dbs"]]
        urls = {d["url"] for d in dbs if d["id"] in ids and d["type"] != "dir"}
        dbs = [dict(d, up=d["up"] and d["url"] not in urls) for d in dbs]
        rules = []
        for x in self.rules:
            if x["u"] in urls and x["kind"] == "archive":
                rules.append(dict(x, fault="neterr"))
            elif x["u"] in urls and x["kind"] == "api":
                rules.append({"kind": "static", "u": x["u"] + "/querybatch", "status": 503, "body": {"c": "no"}})
            else:
                rules.append(x)
        return dict(run, dbs=dbs, rules=rules)

    def scenario(self, runs, judge, tag, cached=(), pre=(), tree_check=False, unset=None):
        """runs: list of worlds from run(); all share prefer (environment)"""
        steps, marks = list(pre), []
        env = {"OSV_DETECTOR_PREFER_API": "true"} if runs[0]["prefer"] else {"OSV_DETECTOR_PREFER_API": unset} if unset is not None else None
        cfgs = [c["path"][len(ROOT) + 1:] for c in self.configs]
        if tree_check:
            steps.append({"op": "tree", "path": ""})
            t0 = len(steps) - 1
        for w in runs:
            marks.append(len(steps))
            steps.append({"op": "run", "args": flag_args(w["flags"], json_out=not w.get("text")) + w["args"], "http": {"rules": w.get("rules", self.rules)}})
            steps.append({"op": "configs", "names": cfgs})
            if tree_check:
                steps.append({"op": "tree", "path": ""})
        case = {"cwd": "cwd", "tree": self.tree, "steps": steps}
        aruns = [{k: v for k, v in w.items() if k not in ("rules", "text")} for w in runs]
        base = {"runs": aruns, "configs": [dict(c) for c in self.configs], "cached": list(cached), "judge": list(judge)}

        def files(o):
            return {f["p"]: f["c"] for f in (o.get("files") or []) if not f["p"].startswith((".h", ".tmp")) and f["p"] not in cfgs}

        def rec(outs):
            obs = []
            for w, m in zip(runs, marks):
                o = outs[m] if m < len(outs) else {"died": True, "log": "no observation"}
                c = outs[m + 1] if m + 1 < len(outs) else {}
                ob = observe(o, c, len(cfgs), w.get("text", False), "data" in judge)
                if tree_check and m + 2 < len(outs):
                    ob["others"] = files(outs[t0]) == files(outs[m + 2])
                obs.append(ob)
            return dict(base, obs=obs)
        return Scenario(case, rec, tag, env, judge)


def report_of(o):
    d = json.loads(o["stdout"])
    reps = []
    for x in d["results"]:
        ps = []
        for p in x["packages"] or []:
            ps.append({"pkg": gen.pkg(p["name"], p["version"], p.get("ecosystem", ""), p.get("compareAs", ""), p.get("commit", "")),
                       "vulns": [v["id"] for v in p.get("vulnerabilities") or []], "ignored": [v["id"] for v in p.get("ignored") or []],
                       "data": {k: [data_of(v) for v in p.get(n) or []] for k, n in (("vulns", "vulnerabilities"), ("ignored", "ignored"))}})
        # packages with the same name and version may come in any order
        i = 0
        while i < len(ps):
            j = i
            key = lambda q: (q["pkg"]["name"], q["pkg"]["version"])
            while j < len(ps) and key(ps[j]) == key(ps[i]):
                j += 1
            ps[i:j] = sorted(ps[i:j], key=lambda q: (q["pkg"]["commit"], q["pkg"]["eco"], q["pkg"]["cmp"]))
            i = j
        reps.append({"path": x["filePath"], "as": x["parsedAs"], "packages": ps})
    return reps


def data_of(v):
    """an advisory as shown, in the specification's terms"""
    aff = []
    for e in v.get("affected") or []:
        rs = [{"type": x.get("type", ""), "events": [{"k": k if k != "last_affected" else "last", "v": ev[k]} for ev in x.get("events") or [] for k in ev]} for x in e.get("ranges") or []]
        aff.append({"name": (e.get("package") or {}).get("name", ""), "eco": (e.get("package") or {}).get("ecosystem", ""), "versions": e.get("versions") or [], "ranges": rs})
    return {"id": v.get("id"), "aliases": v.get("aliases") or [], "summary": v.get("summary", ""), "details": v.get("details", ""), "published": v.get("published", ""),
            "modified": v.get("modified", ""), "gone": v.get("withdrawn") or "", "affected": aff}


def queries_of(reqs):
    qs = []
    for q in reqs:
        if q["u"].endswith("/querybatch"):
            try:
                b = json.loads(q["body"]).get("queries") or []
            except ValueError:
                b = []
            qs.append({"url": q["u"][:-len("/querybatch")],
                       "qs": [{"name": (x.get("package") or {}).get("name", ""), "eco": (x.get("package") or {}).get("ecosystem", ""),
                               "version": x.get("version", ""), "commit": x.get("commit", "")} for x in b]})
    return qs


def text_of(out, multiline=False):
    """what a text report says: [sections, updated, stray]"""
    secs, updated, stray, cur = [], [], [], None
    blank = 0
    for ln in out.split("\n"):
        m = re.match(r"(\S.*): found (\d+) (packages?)$", ln)
        if m:
            cur = {"path": m.group(1), "count": int(m.group(2)), "config": "", "ignores": -1, "dbs": [], "uses": [], "affected": [], "total": -1, "where": "", "word": "", "ignored": 0, "listed": []}
            secs.append(cur)
            continue
        m = re.match(r"Updated (.*) with (\d+) vulnerabilit", ln)
        if m:
            updated.append({"path": m.group(1), "n": int(m.group(2))})
            continue
        if re.match(r"\s*Error|.*an api error occurred|.*contains an invalid database|.*failed: |You must provide|Don't know how", ln):
            stray.append(ln)
        gap, blank = blank, 0 if ln else blank + 1
        if cur is None or not ln:
            continue
        m = re.match(r"  Using config at (.*) \((?:(\d+) ignores?|skipping any ignores)\)$", ln)
        if m:
            cur["config"], cur["ignores"] = m.group(1), int(m.group(2)) if m.group(2) else -1
            continue
        m = re.match(r"  Using db (.*?) \((using batches of|\d+ vulnerabilit)", ln)
        if m:
            cur["dbs"].append(m.group(1))
            d = described(ln)
            cur["uses"].append(dict(d, name=m.group(1)) if d else {"name": m.group(1), "ok": True, "kind": "?", "n": -1, "at": ""})
            continue
        m = re.match(r"  (.*) is affected by the following vulnerabilities:$", ln)
        if m:
            cur["affected"].append({"label": m.group(1), "ids": [], "lines": []})
            continue
        m = re.match(r"    (\S+): (.*)", ln)
        if m and cur["affected"]:
            cur["affected"][-1]["ids"].append(m.group(1))
            cur["affected"][-1]["lines"].append({"id": m.group(1), "desc": m.group(2)})
            continue
        if multiline and cur["affected"] and cur["total"] < 0 and not ln.startswith("  "):
            cur["affected"][-1]["lines"][-1]["desc"] += "\n" * (gap + 1) + ln
            continue
        m = re.match(r"  (no|\d+) (known|new) vulnerabilit(?:y|ies) found(?: in (.*?))?(?: \((\d+) (?:was|were) ignored\))?$", ln)
        if m:
            cur.update(total=0 if m.group(1) == "no" else int(m.group(1)), word=m.group(2), where=m.group(3) or "", ignored=int(m.group(4) or 0))
            continue
        cur["listed"].append(ln)
    return {"sections": secs, "updated": updated, "stray": len(stray)}


def described(ln):
    """how a line describes a database"""
    m = re.match(r"(.*?) \((?:using batches of (-?\d+)|(\d+) vulnerabilit(?:y|ies), including withdrawn(?: - (last updated) ?(.*))?)\)$", ln)
    if not m:
        return None
    return {"head": m.group(1), "ok": True, "kind": "api" if m.group(2) else "zip" if m.group(4) else "dir", "n": int(m.group(2) or m.group(3)), "at": m.group(5) or ""}


def told_of(out, err, text):
    """the list of loaded databases, and what is said about each lockfile"""
    src = out if text else err
    lines, fails, block = [], 0, []
    if "Loaded the following OSV databases:\n" in src:
        for ln in src.split("Loaded the following OSV databases:\n", 1)[1].split("\n"):
            if not ln or re.match(r"(\S.*): found (\d+) (packages?)$", ln):
                break
            block.append(ln)
            d = described(ln)
            if d:
                lines.append(d)
            elif " failed: " in ln:
                lines.append({"head": ln.split(" failed: ")[0], "ok": False, "kind": "", "n": 0, "at": ""})
    fails = len(re.findall(r"^ failed: ", err, re.M)) if text else sum(1 for x in lines if not x["ok"])
    return {"lines": lines, "fails": fails, "block": " / ".join(block),
            "sections": [{k: x[k] for k in ("path", "count", "config", "ignores", "uses")} for x in text_of(src)["sections"]]}


def observe(o, c, ncfg, text=False, data=False):
    ob = {"crash": crash_of(o), "exit": o.get("exit", -1), "json": True, "reports": [], "nreq": len(o.get("reqs") or []), "gets": [], "queries": [],
          "stderr": bool((o.get("stderr") or "") + (o.get("oserr") or "")), "others": True,
          "configs": [{"ignore": x.get("ignore") or [], "dbs": [{"url": d["url"], "type": d["type"], "wd": d["wd"], "name": d["name"]} for d in x.get("dbs") or []]}
                      for x in (c.get("configs") or [])]}
    while len(ob["configs"]) < ncfg:
        ob["configs"].append({"ignore": ["unreadable"], "dbs": []})
    ob.update(text=text, view={"sections": [], "updated": [], "stray": 0}, errors=bool(o.get("stderr") or ""), heads=[])
    ob["told"] = {"lines": [], "fails": 0, "block": "", "sections": []}
    if ob["crash"]:
        return ob
    out = o.get("stdout") or ""
    ob["told"] = told_of(out, o.get("stderr") or "", text)
    if text:
        ob["view"] = text_of(out, data)
        if not data:
            for x in ob["view"]["sections"]:
                x["affected"] = [{"label": a["label"], "ids": a["ids"]} for a in x["affected"]]
    else:
        ob["heads"] = [{"path": x["path"], "count": x["count"]} for x in text_of(o.get("stderr") or "")["sections"]]
    reqs = o.get("reqs") or []
    ob["queries"] = queries_of(reqs)
    ob["gets"] = [q["u"] for q in reqs if q["m"] == "GET" and "/vulns/" not in q["u"]]
    if text:
        return ob
    try:
        ob["reports"] = report_of(o)
        ob["data"] = [[p.pop("data") for p in x["packages"]] for x in ob["reports"]]
        if not data:
            del ob["data"]
    except Exception:
        ob["json"] = False
    return ob


# ------------------------------------------------------------------ generation
def gen_advs(r, pkgs, n, id0="", aliases=0.5):
    """advisories that mostly concern the given packages"""
    ids = ["%s%s-%d" % (id0, r.choice(["GHSA", "CVE", "OSV"]), i) for i in range(n)]
    out = []
    for i in ids:
        aff = []
        for _ in range(r.choice([1, 1, 1, 2])):
            if pkgs and r.random() < 0.85:
                p = r.choice(pkgs)
                e = p["eco"] or "npm"
                base = gen.eco_of(p["cmp"]) or "npm"
                k = r.random()
                vs = [p["version"]] if k < 0.4 and p["version"] else []
                rg = [gen.rng_("ECOSYSTEM", [("introduced", "0")])] if k >= 0.4 and r.random() < 0.5 else ([] if vs else [gen.gen_range(r, base if base in gen.CH else "npm")])
                aff.append(gen.entry(p["name"], e, vs, rg))
            else:
                e = r.choice(["npm", "PyPI", "Go"])
                aff.append(gen.gen_entry(r, NAMEPOOL, e, e))
        al = []
        if r.random() < aliases:
            al = [r.choice(ids + ["ALIAS-1", "ALIAS-2"]) for _ in range(r.choice([1, 1, 2]))]
            al = [x for x in al if x != i]
        out.append(gen.adv(i, aff, r.random() < 0.07, al))
    return out


def query_json(p):
    if p["name"] and p["eco"] and p["version"]:
        q = {"name": p["name"], "eco": p["eco"], "version": p["version"], "commit": ""}
    else:
        q = {"name": "", "eco": "", "version": "", "commit": p["commit"]}
    return json.dumps(q, sort_keys=True)


def gen_world(r, n_locks=3, n_cfg=2, n_db=2, fail=0.0, aliases=0.5, n_adv=8, api=True, ecos=True, dirs=("", "sub", "sub/deep", "other"), pkgs=4, fail_at=None, dress=None):
    """a random world; failures are injected with probability `fail` per element"""
    fr = random.Random(r.random())
    wd = World(r, fr)
    wd.points = []

    def bad(what):
        wd.points.append(what)
        return len(wd.points) - 1 in fail_at if fail_at is not None else fr.random() < fail
    used = set()
    for i in range(n_locks):
        d = r.choice(dirs)
        d = "cwd/" + d if d else "cwd"
        kind = r.choice(["package-lock.json", "Cargo.lock", "requirements.txt", "composer.lock", "csv-file", "csv-file"])
        name = kind if kind != "csv-file" else "in%d.csv" % i
        if (d, name) in used:
            name = "x%d.lock" % i
        used.add((d, name))
        wd.add_lock(d, name, kind, gen_pkgs(r, kind, r.randint(0, pkgs)), ok=not bad("lockfile"))
    noise = []
    if fr.random() < 0.12:
        kind, text, noise = fr.choice(NOISE)
        d = "cwd/" + fr.choice(["noise", "noise/x"])
        wd.add_file("%s/%s" % (d, kind), text, [{"as": kind, "ok": True, "pkgs": noise}])
        wd.locks.append({"dir": d, "name": kind, "kind": kind, "ok": True})
    pool = gen_advs(r, wd.pkgs, n_adv, aliases=aliases)
    specs = []
    close = r.random() < 0.35     # databases whose addresses begin with those of others
    near = lambda x, i: x + "x" * i if close else x + str(i)
    for i in range(n_db):
        some = [a for a in pool if r.random() < 0.6]
        some = [variant(r, a, wd.pkgs) if r.random() < 0.2 else a for a in some]
        some = [dress(a) for a in some] if dress else some
        r.shuffle(some)
        up = not bad("extra database")
        k = r.random()
        if k < 0.35:
            placed = [(r.choice(["", "a/", "b/", "ab/"]), a) for a in some]
            name = near("db", i)
            for wdir in wdirs(r):
                specs.append(wd.add_dir_db(name, placed, wdir, up))
        elif k < 0.75 or not api:
            placed = [(r.choice(["", "a/", "b/", "ab/"]), a) for a in some]
            u = "https://db.example/all.zip" + ".zip" * i if close else "https://db%d.example/%s" % (i, r.choice(["all.zip", "x/y.zip"]))
            for wdir in wdirs(r):
                specs.append(wd.add_zip_db(u, placed, wdir, up))
        else:
            specs.append(add_api(wd, r, "https://api.example/" + near("v", i) if close else "https://api%d.example/v1" % i, some, bad, up))
    if ecos:
        es = sorted({p["eco"] for p in wd.pkgs + noise if p["eco"]})
        for e in es:
            some = [a for a in pool if r.random() < 0.5]
            some = [dress(a) for a in some] if dress else some
            wd.add_zip_db(eco_url(e), [("", a) for a in some], up=not bad("ecosystem database"))
    if api:
        add_api(wd, r, API, [dress(a) if dress else a for a in pool if r.random() < 0.5], bad, not bad("api"))
    wd.pool = pool
    wd.specs = specs
    cdirs = sorted({l["dir"] for l in wd.locks} | {"cwd"})
    r.shuffle(cdirs)
    ids = [a["id"] for a in pool] + ["OTHER-1"]
    for d in cdirs[:n_cfg]:
        wd.add_config("%s/.osv-detector.%s" % (d, r.choice(["yml", "yml", "yaml"])), uniq(r.choices(ids, k=r.randint(0, 4))), some_dbs(r, specs, bad), ok=not bad("config"))
        if r.random() < 0.15:
            e = wd.configs[-1]["path"]
            other = e[:-3] + "yaml" if e.endswith("yml") else e[:-4] + "yml"
            if not other.endswith(".yyml"):
                wd.add_config(other[len(ROOT) + 1:], uniq(r.choices(ids, k=1)), some_dbs(r, specs, lambda x: False))
    wd.add_config("cwd/conf.yml", uniq(r.choices(ids, k=r.randint(0, 3))), some_dbs(r, specs, bad), ok=not bad("config"))
    return wd


def wdirs(r):
    """the working directories one database is used with"""
    k = r.random()
    ds = [""] if k < 0.55 else ["", "a"] if k < 0.75 else ["a", "ab"] if k < 0.9 else ["ab", "", "a"]
    # a folder may be written with a slash at its end
    return [d + "/" if d and r.random() < 0.2 else d for d in ds]


def uniq(xs):
    return list(dict.fromkeys(xs))


def variant(r, a, pkgs):
    """the same advisory as another database knows it"""
    b = dict(a)
    k = r.random()
    if k < 0.3:
        b["withdrawn"] = not a["withdrawn"]
    elif k < 0.6:
        b["aliases"] = []
    elif pkgs:
        p = r.choice(pkgs)
        b["affected"] = a["affected"] + [gen.entry(p["name"], p["eco"] or "npm", [p["version"]])]
    return b


def add_api(wd, r, url, some, bad_, up):
    answers, bad = {}, []
    ids = [a["id"] for a in some]
    for p in wd.pkgs:
        q = query_json(p)
        if ids and r.random() < 0.5:
            answers[q] = r.sample(ids, min(len(ids), r.randint(1, 3)))
        elif r.random() < 0.2 and bad_("api query"):
            bad.append(json.loads(q))
    return wd.add_api_db(url, answers, some, bad, [i for i in ids if r.random() < 0.3 and bad_("api details")], up)


def some_dbs(r, specs, bad):
    k = [dict(s) for s in specs if r.random() < 0.6]
    if r.random() < 0.15 and k:
        k.append(dict(k[0]))
    n = r.randint(0, len(k))
    x = r.choice([{"url": "not-a-url", "type": "", "wd": "", "ok": False}, {"url": "https://x.example/y", "type": "nope", "wd": "", "ok": True}])
    if bad("database of a config"):
        k.insert(n, x)
    for s in k:
        if r.random() < 0.3:
            s["name"] = r.choice(["My DB", "db-%d" % r.randint(1, 9)])
    return k


def gen_args(r, wd, n=None, missing=0.0):
    """arguments for some of the lockfiles: direct paths, prefixed paths, folders"""
    out = []
    ls = list(wd.locks)
    r.shuffle(ls)
    for l in ls[:n or len(ls)]:
        rel = l["dir"][4:] if l["dir"].startswith("cwd/") else ("" if l["dir"] == "cwd" else "../" + l["dir"])
        p = (rel + "/" if rel else "") + l["name"]
        if r.random() < 0.15:
            p = "%s/%s/%s" % (ROOT, l["dir"], l["name"])
        elif r.random() < 0.15:
            p = "./" + p
        if l["name"] == l["kind"] and r.random() < 0.7:
            out.append(p if r.random() < 0.8 else ":" + p)
        else:
            out.append(l["kind"] + ":" + p)
    if r.random() < missing:
        out.insert(r.randint(0, len(out)), r.choice(["nope/package-lock.json", "missing.txt", "csv-file:gone.csv"]))
    if out and r.random() < 0.1:
        out.append(r.choice(out))
    return out


def gen_flags(r, wd, offline=0.0, update=0.0, lst=0.0):
    f = {}
    if r.random() < 0.5:
        f["useDbs"] = r.choice(["true", "false"])
    if r.random() < 0.5:
        f["useApi"] = r.choice(["true", "false"])
    if r.random() < 0.2:
        f["noConfig"] = True
    if r.random() < 0.25:
        f["config"] = "conf.yml"
    if r.random() < 0.2:
        f["noIgnores"] = True
    if r.random() < 0.2:
        f["noDatabases"] = True
    if r.random() < 0.4:
        f["ignores"] = r.choices([a["id"] for a in wd.pool] + ["NOPE-1"], k=r.randint(1, 3))
    if r.random() < 0.3:
        f["batch"] = r.choice([1, 2, 3])
    if r.random() < offline:
        f["offline"] = True
    if r.random() < update:
        f["update"] = True
    if r.random() < lst:
        f["list"] = True
    return f


# ------------------------------------------------------- worlds of the specification
def from_spec(r, g):
    """a world emitted by DetectorGen as real files and servers"""
    wd = World(r)
    for n in g["w"]["fs"]:
        rel = n["path"][len(ROOT) + 1:]
        if n["dir"]:
            wd.add_dir(rel)
        else:
            d, name = rel.rsplit("/", 1)
            rd = n["reads"][0]
            wd.add_lock(d, name, rd["as"], rd["pkgs"], rd["ok"])
    for c in g["configs"]:
        wd.add_config(c["path"][len(ROOT) + 1:], c["ignore"], c["dbs"], c["ok"])
    for d in g["w"]["dbs"]:
        if d["type"] == "dir":
            wd.add_dir_db(d["url"][len("file:////" + ROOT + "/"):], [("", a) for a in d["advs"]], "", d["up"])
        elif d["type"] == "zip":
            wd.add_zip_db(d["url"], [("", a) for a in d["advs"]], "", d["up"])
        else:
            wd.add_api_db(d["url"], {json.dumps(a["q"]): a["ids"] for a in d["answers"]}, d["advs"], d["bad"], (), d["up"])
    wd.pool = []
    return wd, dict(g["w"], dbs=[dict(d, date=wd.dbs[d["id"]]["date"]) for d in g["w"]["dbs"]])


def prime(wd, g):
    """steps that store a copy of the archives of g["cached"]"""
    rules = [dict(x, fault="", status=0) for x in wd.rules if x["kind"] == "archive"]
    for x in rules:
        for d in g["w"]["dbs"]:
            if d["url"] == x["u"]:
                x["body"] = {"isz": True, "zip": [{"p": a["id"] + ".json", "c": gen.adv_json(a)} for a in d["advs"]]}
    return [{"op": "run", "args": ["--json", "--no-config", "--parse-as", "csv-row", u.split("/")[-2] + ",,none,1.0.0"], "http": {"rules": rules}} for u in g["cached"]]


INVS = "ExitCodes NothingAskedOffline OfflineUsesStored Partition OnePerGroup UpdatesOnlyWhenComplete UpdateIsExact UpdateSettles ExactlySelected LoadedOnce Isolated EveryHealthyReported FailuresNoticed"


def family(ctx, name, runs):
    """checks Detector on a family of worlds and returns the worlds"""
    return ctx.generate("DetectorGen", "SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS Family = \"%s\" Runs = %d\nINVARIANTS %s Emit\n" % (name, runs, INVS),
                        "MCDetector/" + name)


def family_scenarios(ctx, name, judge, n, runs=1, update_rerun=False, tree_check=False):
    r = ctx.rng
    gs = family(ctx, name, runs)
    total = len(gs)
    if n < total:
        gs = r.sample(gs, n)
    out = []
    for g in gs:
        wd, w = from_spec(r, g)
        t = r.random() < 0.2
        rs = [dict(w, text=t)] + [dict(w, text=t, flags=dict(w["flags"], update=w["flags"]["update"] and i > 1)) for i in range(1, runs)]
        out.append(wd.scenario(rs, judge, "family " + name, cached=g["cached"], pre=prime(wd, g), tree_check=tree_check))
    ctx.extra.setdefault("families", {})[name] = "%d of %d worlds executed" % (len(gs), total)
    return out


# ---------------------------------------------------------------------- scale
MUCH = ["advisories", "databases", "ignores", "packages", "lockfiles"]


def bulk(r, dress=None, update=False, much=None):
    """a world with much more of something than people usually have: advisories of a package, databases of a config, ignores, packages, lockfiles"""
    wd = World(r)
    much = much or r.choice(MUCH)
    n_adv = r.choice([r.randint(60, 99), r.randint(101, 199), r.randint(101, 320)]) if much == "advisories" else r.randint(40, 120) if much == "ignores" else r.choice([5, 20, 30])
    n_db = r.randint(18, 40) if much == "databases" else r.choice([1, 1, 2])
    n_pkg = r.randint(102, 300) if much == "packages" else r.choice([2, 3, 6])
    n_lock = r.randint(30, 70) if much == "lockfiles" else r.choice([1, 1, 2])
    names = ["p%d" % i for i in range(n_pkg)]
    for i in range(n_lock):
        some = [gen.pkg(n, "1.0.0", "npm") for n in (names if i == 0 else r.sample(names, min(n_pkg, 3)))]
        r.shuffle(some)
        wd.add_lock("cwd" if r.random() < 0.6 else "cwd/sub", "in%03d.csv" % i, "csv-file", some)
    ids = ["%s-%04d" % (r.choice(["GHSA", "OSV", "CVE", "PYSEC"]), i) for i in range(n_adv)]
    r.shuffle(ids)
    # most of them concern one package
    pool = wd.pool = [gen.adv(i, [gen.entry(names[0] if r.random() < 0.85 else r.choice(names), "npm", ["1.0.0"])], r.random() < 0.03) for i in ids]
    specs = []
    for k in range(n_db):
        some = [a for a in pool if n_db <= 2 or r.random() < 0.15] or pool[:1]
        some = [dress(a) for a in some] if dress else some
        t = r.random()
        if t < 0.45:
            specs.append(wd.add_dir_db("db%d" % k, [(r.choice(["", "", "a/"]), a) for a in some]))
        elif t < 0.85:
            specs.append(wd.add_zip_db("https://z%d.example/all.zip" % k, [("", a) for a in some]))
        else:
            qs = {}
            for p in wd.pkgs:
                q = query_json(p)
                mine = [a["id"] for a in some if a["affected"][0]["name"] == p["name"] and not a["withdrawn"]]
                if mine:
                    qs[q] = mine
            specs.append(wd.add_api_db("https://a%d.example/v1" % k, qs, some))
    ig = [i for i in ids if r.random() < (0.6 if much == "ignores" else 0.2)] + ["OTHER-%d" % i for i in range(r.choice([0, 40]))]
    r.shuffle(ig)
    where = r.choice(["config", "flags"]) if not update else "config"
    wd.add_config("cwd/.osv-detector.yml", ig if where == "config" else [], specs)
    wd.add_config("cwd/conf.yml", ig[::2], specs)
    wd.specs, wd.much = specs, much
    args = ["csv-file:%s%s" % ("sub/" if l["dir"] != "cwd" else "", l["name"]) for l in wd.locks]
    if r.random() < 0.4:
        args += r.choices(args, k=r.randint(1, 3)) + args[-1:] * r.choice([0, 1, 2])
    fl = {"useDbs": "false", "ignores": ig if where == "flags" else ig[:2]}
    if any(l["dir"] != "cwd" for l in wd.locks) or r.random() < 0.3:
        fl["config"] = "conf.yml"
    if r.random() < 0.3:
        fl["batch"] = r.choice([1, 7, 50])
    return wd, args, fl


def bulk_scenarios(ctx, judge, n, modes=(False,), tree_check=False, update=False, dress=None):
    """the same worlds judged as any other"""
    r, out, kinds = ctx.rng, [], {}
    for i in range(n):
        wd, args, fl = bulk(r, dress, update, MUCH[i % len(MUCH)])
        kinds[wd.much] = kinds.get(wd.much, 0) + 1
        runs = [wd.run(args, text=t, **fl) for t in modes]
        if update:
            runs = [wd.run(args, text=t, **dict(fl, update=u)) for t, u in zip(modes * 2, (True, False))]
        out.append(wd.scenario(runs, judge, "many " + wd.much, tree_check=tree_check))
    ctx.extra["scale"] = kinds
    return out
