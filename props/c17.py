"""C17: no file content or server answer makes the detector crash."""
import base64, io, json, re, tomllib, zipfile
import gen, locks, manifests, suite, world
from suite import Scenario, crash_of

RUN = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxInputs = 3\nINVARIANTS Documented AsPromised NeverQuiet\nPROPERTIES AlwaysEnds\n"
ODD = "SPECIFICATION ESpec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxInputs = 1 MaxEdits = %d\nCONSTRAINT OneWorld\nINVARIANTS Disjoint Emit\n"
JSONISH = {"npm1", "npm2", "composer", "pipenv", "nuget", "renv"}
TOML = {"cargo", "poetry", "pdm", "pylock", "uv"}
API, ZIP = "https://api.example/v1", "https://db.example/all.zip"
H = "0123456789012345678901234567890123456789"
BASE = {
    "npm1": {"lockfileVersion": 1, "dependencies": {"a": {"version": "1.0.0", "dependencies": {"b": {"version": "github:o/r#" + H}}}}},
    "npm2": {"lockfileVersion": 2, "packages": {"": {"name": "x"}, "node_modules/a": {"name": "a", "version": "1.0.0", "resolved": "git+ssh://git@github.com/o/r.git#" + H, "dependencies": {"b": "^1"}}}},
    "bun": {"lockfileVersion": 1, "packages": {"a": ["a@1.0.0", "", {}, "sha512-x"], "b": ["b@github:o/r#abc", {}, "o-r-abc", "sha512-x"]}},
    "pnpm": {"lockfileVersion": 5.4, "packages": {"/a/1.0.0": {"resolution": {"tarball": "https://codeload.github.com/o/r/tar.gz/" + H, "commit": H}, "name": "a", "version": "1.0.0"}, "/@s/b/2.0.0_a@1.0.0": {"resolution": {}}}},
    "pnpm9": {"lockfileVersion": "9.0", "packages": {"a@1.0.0": {"resolution": {"integrity": "x"}, "name": "a", "version": "1.0.0"}}},
    "composer": {"packages": [{"name": "a/b", "version": "1.0.0", "dist": {"reference": "abc"}}], "packages-dev": [{"name": "a/c", "version": "1.0.0", "dist": {}}]},
    "pipenv": {"default": {"a": {"version": "==1.0"}}, "develop": {"b": {"version": "==1.0"}}},
    "nuget": {"version": 1, "dependencies": {"net6.0": {"A": {"type": "Direct", "resolved": "1.0.0"}}}},
    "renv": {"Packages": {"a": {"Package": "a", "Version": "1.0", "Repository": "CRAN"}}},
    "pubspec": {"packages": {"a": {"version": "1.0.0", "source": "git", "description": {"resolved-ref": H, "url": "x"}}}},
    "cargo": {"version": 3, "package": [{"name": "a", "version": "1.0.0"}]},
    "poetry": {"package": [{"name": "a", "version": "1.0.0", "source": {"type": "git", "resolved_reference": H}, "revision": H}], "metadata": {"x": "y"}},
    "pdm": {"package": [{"name": "a", "version": "1.0.0", "source": {"resolved_reference": H}, "revision": H}], "metadata": {"x": "y"}},
    "pylock": {"lock-version": "1.0", "packages": [{"name": "a", "version": "1.0.0", "vcs": {"type": "git", "commit-id": H}, "directory": {"path": "."}}]},
    "uv": {"version": 1, "package": [{"name": "a", "version": "1.0.0", "source": {"git": "https://x#" + H, "virtual": "x"}, "optional-dependencies": {"x": [{"name": "y"}]}}]},
    "config": {"ignore": ["X-1"], "extra-databases": [{"url": ZIP, "type": "zip", "name": "db", "working-directory": "a"}]},
    "advisory": {"id": "X-1", "summary": "s", "aliases": ["Y-1"], "modified": "2022-01-01T00:00:00Z", "withdrawn": "2022-01-01T00:00:00Z", "references": [{"type": "WEB", "url": "x"}],
                 "affected": [{"package": {"name": "a", "ecosystem": "npm"}, "versions": ["1.0.0"], "ranges": [{"type": "SEMVER", "events": [{"introduced": "0"}, {"fixed": "2.0.0"}]}]}]},
    "answer": {"results": [{"vulns": [{"id": "X-1", "modified": "2022-01-01T00:00:00Z"}], "next_page_token": "x"}, {}]},
    "details": {"id": "X-1", "aliases": ["Y-1"], "affected": [{"package": {"name": "a", "ecosystem": "npm"}}], "summary": "s", "withdrawn": "2022-01-01T00:00:00Z"},
}


def edit(doc, slot, value):
    """the document with what is at the slot replaced"""
    if slot == "":
        return None if value == "absent" else ("value", json.loads(value))
    doc = json.loads(json.dumps(doc))
    at = doc
    parts = [p.replace("~", "/") for p in slot.split("/")]
    for p in parts[:-1]:
        at = at[int(p) if isinstance(at, list) else p]
    k = int(parts[-1]) if isinstance(at, list) else parts[-1]
    if value == "absent":
        if isinstance(at, list):
            at.pop(k)
        else:
            at.pop(k, None)
    else:
        at[k] = json.loads(value)
    return ("value", doc)


def edited(kind, edits):
    v = ("value", BASE[kind])
    for e in edits[::-1]:      # later slots do not move earlier ones
        v = edit(v[1], e["slot"], e["value"])
        if v is None:
            return None
    return v[1]


def toml_value(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float, str)):
        return json.dumps(v).replace("1e+99", "1e99")
    if isinstance(v, list):
        return "[" + ", ".join(toml_value(x) for x in v if x is not None) + "]"
    return "{" + ", ".join("%s = %s" % (json.dumps(k), toml_value(x)) for k, x in v.items() if x is not None) + "}"


def toml(d):
    top = [(k, v) for k, v in d.items() if not (isinstance(v, list) and v and all(isinstance(x, dict) for x in v)) and v is not None]
    out = "".join("%s = %s\n" % (k, toml_value(v)) for k, v in top)
    for k, v in d.items():
        if isinstance(v, list) and v and all(isinstance(x, dict) for x in v):
            for x in v:
                out += "\n[[%s]]\n" % k + "".join("%s = %s\n" % (json.dumps(a), toml_value(b)) for a, b in x.items() if b is not None)
    return out


def text_of(kind, doc):
    return "" if doc is None else toml(doc) if kind in TOML else json.dumps(doc)


def json_broken(t):
    def no(x):
        raise ValueError(x)
    try:
        json.loads(t, parse_constant=no)
        return False
    except ValueError:
        return True
    except RecursionError:
        return False


ADV = [gen.adv("X-1", [gen.entry(n, e, ["1.0.0"], [gen.rng_("SEMVER", [("introduced", "0"), ("fixed", "2.0.0")]), gen.rng_("ECOSYSTEM", [("introduced", "0.5"), ("last", "9")])]) for n, e in
                       (("a", "npm"), ("b", "npm"), ("a/b", "Packagist"), ("a", "PyPI"), ("A", "NuGet"), ("a", "CRAN"), ("a", "crates.io"), ("a", "Pub"), ("x", "npm"), ("", "npm"))])]
DBTREE = [{"p": "db/X-1.json", "c": gen.adv_json(ADV[0])}]
CONF = {"p": "cwd/conf.yml", "c": "extra-databases:\n  - url: file:///../db\n"}


def b64(b):
    return base64.b64encode(b).decode()


def content(p, t):
    return {"p": p, "b64": b64(t)} if isinstance(t, bytes) and t else {"p": p, "c": t.decode() if isinstance(t, bytes) else t}


def scenario(tree, steps, runs, tag):
    """runs: per run step, in order: inputs and listing"""
    marks = [i for i, s in enumerate(steps) if s["op"] == "run"]

    def rec(outs):
        out = []
        for m, x in zip(marks, runs):
            o = outs[m] if m < len(outs) else None
            if o is None:
                break
            ob = {"crash": crash_of(o), "exit": o.get("exit", -1), "json": True, "said": bool((o.get("stderr") or "") + (o.get("oserr") or ""))}
            if not ob["crash"] and "--json" in steps[m]["args"]:
                try:
                    json.loads(o["stdout"])
                except Exception:
                    ob["json"] = False
            out.append(dict(x, obs=ob))
        if len(outs) == 1 and outs[0].get("died"):
            out = [dict(runs[0], obs={"crash": crash_of(outs[0]), "exit": -1, "json": True, "said": True})]
        return {"runs": out}
    return Scenario({"cwd": "cwd", "tree": tree, "steps": steps}, rec, tag)


def inputs(**kw):
    return [{"kind": k, "class": c} for k, c in kw.items()]


def lock_scenario(r, name, text, cls, tag, extra=()):
    """a lockfile, listed and checked"""
    js = ["--json"] if r.random() < 0.7 else []
    steps = [{"op": "run", "args": js + ["--list-packages", name], "http": {"rules": []}}]
    runs = [{"inputs": inputs(lock=cls), "listing": True}]
    k = r.random()
    if k < 0.6:
        steps.append({"op": "run", "args": js + ["--use-dbs=false", "--config", "conf.yml", name], "http": {"rules": []}})
    elif k < 0.8:
        steps.append({"op": "run", "args": js + ["--no-config", "--use-dbs=false", "--use-api", "--batch-size", "1", name], "http": {"rules": [{"kind": "api", "u": world.API, "answers": {}, "details": {}}]}})
    else:
        steps.append({"op": "run", "args": js + ["--config", "conf.yml", name], "http": {"rules": []}})
    runs.append({"inputs": inputs(lock=cls), "listing": False})
    if k >= 0.8 and cls != "broken":
        runs[-1]["inputs"].append({"kind": "db", "class": "odd"})
    return scenario(DBTREE + [CONF, content("cwd/" + name, text)] + list(extra), steps, runs, tag)


def from_spec(r, g):
    kind = g["kind"]
    tag = "%s/%s" % (kind, " ".join(e["slot"] + "=" + e["value"] for e in g["edits"]))
    if kind == "cache":
        return cache_scenario(r, g["edits"], tag)
    doc = edited(kind, g["edits"])
    t = text_of(kind, doc)
    if kind == "config":
        return config_scenario(r, t, "odd", tag)
    if kind == "advisory":
        return advisory_scenario(r, [t], tag)
    if kind in ("answer", "details"):
        return api_scenario(r, t if kind == "answer" else None, t if kind == "details" else None, tag)
    cls = "broken" if (kind in JSONISH or kind == "bun") and t == "" else "odd"
    return lock_scenario(r, locks.FILE["pnpm" if kind == "pnpm9" else kind], t, cls, tag)


LOCK = {"p": "cwd/package-lock.json", "c": json.dumps({"lockfileVersion": 1, "dependencies": {"a": {"version": "1.0.0"}, "b": {"version": "1.0.0"}}})}


def archive(files):
    f = io.BytesIO()
    with zipfile.ZipFile(f, "w") as z:
        for n, c in files:
            z.writestr(n, c)
    return f.getvalue()


def config_scenario(r, t, cls, tag):
    js = ["--json"] if r.random() < 0.5 else []
    rules = [{"kind": "static", "u": ZIP, "status": 200, "headers": {"ETag": "x"}, "body": {"b64": b64(archive([("a/x.json", gen.adv_json(ADV[0]))]))}},
             {"kind": "api", "u": API, "answers": {}, "details": {}}]
    steps = [{"op": "run", "args": js + ["--use-dbs=false", "package-lock.json"], "http": {"rules": rules}},
             {"op": "run", "args": js + ["--use-dbs=false", "--update-config-ignores", "package-lock.json"], "http": {"rules": rules}},
             {"op": "run", "args": js + ["--use-dbs=false", "--config", ".osv-detector.yml", "package-lock.json"], "http": {"rules": rules}}]
    x = {"inputs": inputs(lock="fine", config=cls), "listing": False}
    return scenario([LOCK, content("cwd/.osv-detector.yml", t)], steps, [x, x, x], tag)


def advisory_scenario(r, texts, tag, pkgs=None, text=None):
    """odd advisories in a folder and in an archive, next to a good one"""
    js = ["--json"] if text is False or text is None and r.random() < 0.5 else []
    tree = [content("db/o%d.json" % i, t) for i, t in enumerate(texts)] + DBTREE
    z = archive([("o%d.json" % i, t) for i, t in enumerate(texts)] + [("X-1.json", gen.adv_json(ADV[0]))])
    lock = LOCK if pkgs is None else {"p": "cwd/in.csv", "c": pkgs}
    args = ["package-lock.json"] if pkgs is None else ["csv-file:in.csv"]
    tree += [lock, CONF, {"p": "cwd/zip.yml", "c": "extra-databases:\n  - url: %s\n" % ZIP}]
    steps = [{"op": "run", "args": js + ["--use-dbs=false", "--config", "conf.yml"] + args, "http": {"rules": []}},
             {"op": "run", "args": js + ["--use-dbs=false", "--config", "zip.yml"] + args, "http": {"rules": [{"kind": "static", "u": ZIP, "status": 200, "headers": {"Date": "x"}, "body": {"b64": b64(z)}}]}}]
    x = {"inputs": inputs(lock="fine", db="odd"), "listing": False}
    return scenario(tree, steps, [x, x], tag)


def api_scenario(r, answer, details, tag, status=(200, 200), headers=None):
    js = ["--json"] if r.random() < 0.5 else []
    good = json.dumps({"results": [{"vulns": [{"id": "X-1"}, {"id": "X-2"}]}, {}]})
    rules = [{"kind": "static", "u": API + "/querybatch", "status": status[0], "headers": headers or {}, "body": content("", good if answer is None else answer)}]
    for i in ("X-1", "x", "", "@", "#", "a@b@c", "@/@", "X-2"):
        rules.append({"kind": "static", "u": API + "/vulns/" + i, "status": status[1], "headers": headers or {}, "body": content("", json.dumps({"id": i}) if details is None else details)})
    steps = [{"op": "run", "args": js + ["--use-dbs=false", "--config", "api.yml", "package-lock.json"], "http": {"rules": rules}}]
    return scenario([LOCK, {"p": "cwd/api.yml", "c": "extra-databases:\n  - url: %s\n" % API}], steps, [{"inputs": inputs(lock="fine", api="odd"), "listing": False}], tag)


def zip_scenario(r, body, tag, status=200, headers=None):
    js = ["--json"] if r.random() < 0.5 else []
    rule = {"kind": "static", "u": ZIP, "status": status, "headers": headers if headers is not None else {"ETag": "x", "Date": "Mon, 01 Jan 2024 00:00:00 GMT"}, "body": {"b64": b64(body)} if body else {"c": ""}}
    args = js + ["--use-dbs=false", "--config", "zip.yml", "package-lock.json"]
    x = {"inputs": inputs(lock="fine", db="odd"), "listing": False}
    tree = [LOCK, {"p": "cwd/zip.yml", "c": "extra-databases:\n  - url: %s\n%s" % (ZIP, r.choice(["", "    working-directory: a\n", "    working-directory: ../\n", "    working-directory: /\n"]))}]
    return scenario(tree, [{"op": "run", "args": args, "http": {"rules": [rule]}}, {"op": "run", "args": args, "http": {"rules": [rule]}}, {"op": "run", "args": ["--offline"] + args, "http": {"rules": [rule]}}], [x, x, x], tag)


def cache_scenario(r, edits, tag):
    rule = {"kind": "archive", "u": ZIP, "etag": '"x"', "date": "Mon, 01 Jan 2024 00:00:00 GMT", "body": {"b64": b64(archive([("X-1.json", gen.adv_json(ADV[0]))]))}}
    args = ["--json", "--use-dbs=false", "--config", "zip.yml", "package-lock.json"]
    run = {"op": "run", "args": args, "http": {"rules": [rule]}}
    steps = [run]
    for e in edits:
        if e["slot"] == "":
            steps.append({"op": "tmpreplace", "content": {"c": "" if e["value"] == "absent" else e["value"]}})
        else:
            steps.append({"op": "tmpedit", "path": e["slot"], "osv": None if e["value"] == "absent" else json.loads(e["value"])})
    steps += [dict(run, args=["--offline"] + args), run, dict(run, args=["--offline"] + args)]
    x = {"inputs": inputs(lock="fine", db="odd"), "listing": False}
    return scenario([LOCK, {"p": "cwd/zip.yml", "c": "extra-databases:\n  - url: %s\n" % ZIP}], steps, [x] * 4, tag)


# ------------------------------------------------------------------ mutations
ODDBITS = [b"", b"\x00", b"\xff\xfe", b"\xef\xbb\xbf", b"\r", b"\n", b"\t", b" ", b'"', b"'", b"@", b"/", b"#", b":", b"{", b"}", b"[", b"]", b"(", b")", b",", b"=", b"-", b"\\", b"<", b">", b"&", b"!", b"*", b"%", b"|", b"0", b"999999999999999999999999",
           b"null", b"\\u0000", b"\xe2\x80\xa8", b"-r requirements.txt", b"${", b"node_modules", b"npm:", b"file:", b"git+ssh://", b"codeload.github.com", b"#commit="]


def mutate(r, b, n=None):
    for _ in range(n or r.choice([1, 1, 2, 3, 6])):
        i = r.randint(0, len(b))
        j = min(len(b), i + r.choice([0, 1, 1, 2, 5, 20]))
        k = r.random()
        if k < 0.35:
            b = b[:i] + r.choice(ODDBITS) + b[j:]
        elif k < 0.5:
            b = b[:i] + b[j:]
        elif k < 0.6:
            b = b[:i]
        elif k < 0.75:
            a = r.randint(0, len(b))
            b = b[:i] + b[a:a + r.randint(0, 60)] + b[j:]
        elif k < 0.85:
            ls = b.split(b"\n")
            x = r.randint(0, len(ls) - 1)
            ls[x:x + 1] = r.choice([[], [ls[x], ls[x]], [ls[x].strip()], [b"  " + ls[x]], [r.choice(ls)]])
            b = b"\n".join(ls)
        elif k < 0.95:
            b = b[:i] + bytes(r.getrandbits(8) for _ in range(r.randint(1, 4))) + b[j:]
        else:
            b = b[i:] + b[:i]
    return b


def any_lock(r):
    k = r.choice(sorted(locks.STRUCTURED) + sorted(locks.LINES) + ["gomod", "maven", "requirements"])
    if k in locks.STRUCTURED:
        g, w = locks.STRUCTURED[k]
        return k, w(r, dict(g(r), fmt=k))
    if k in locks.LINES:
        return k, locks.join_lines(r, locks.LINES[k](r))
    if k == "gomod":
        return k, manifests.render_gomod(r, manifests.gen_gomod(r))
    if k == "maven":
        return k, manifests.render_maven(r, manifests.gen_maven(r))
    return k, manifests.requirements_tree(r, manifests.gen_requirements(r, 1))[0]["c"]


def pieces(r):
    """line-oriented files whose lines have lost or repeated some of their parts, most of them several times"""
    k = r.choice(sorted(locks.LINES) + ["gomod", "requirements"])
    while True:
        if k in locks.LINES:
            t = locks.join_lines(r, locks.LINES[k](r))
        elif k == "gomod":
            t = manifests.render_gomod(r, manifests.gen_gomod(r))
        else:
            t = manifests.requirements_tree(r, manifests.gen_requirements(r, 1))[0]["c"]
        ls = t.split("\n")
        if any(x.strip() for x in ls):
            break
    out = []
    for l in ls:
        if not l.strip() or r.random() < 0.5:
            out.append(l)
            continue
        ts = [x for x in re.split(r'([^A-Za-z0-9._-])', l) if x]
        for _ in range(r.randint(1, 8)):
            i, j = sorted(r.randint(0, len(ts)) for _ in range(2))
            e = r.random()
            out.append("".join(ts[:i] if e < 0.4 else ts[:i] + ts[j:] if e < 0.8 else ts[i:] if e < 0.9 else ts[:j] + ts[i:]))
    return lock_scenario(r, locks.FILE[k], "\n".join(out), "odd", k + "/pieces")


# values whose form is looked at
FORMS = ["npm:a@1.0.0", "npm:@s/a@1.0.0", "file:../x", "link:../x", "workspace:x", "git+ssh://git@github.com/o/r.git#" + H, "git+file:///x/y#" + H, "git@github.com:o/r.git#main", "github:o/r#" + H, "https://codeload.github.com/o/r/tar.gz/" + H, "a@github:o/r#abc",
         "https://codeload.github.com/o/r/zip/abc", "/@s/b/2.0.0_a@1.0.0", "/@s/b@2.0.0(a@1.0.0)(@s/c@2.0.0)", "@s/b@2.0.0", "/a/1.0.0", "github.com/o/r/" + H, "==1.0", "v1.0.0", "node_modules/a/node_modules/@s/b", "https://github.com/o/r?rev=x#" + H, "5.4", "9.0", "6.1-x",
         "https://x/y.git?subdirectory=z&rev=v1#" + H, "2022-01-01T00:00:00Z", "Debian:11", "GIT", "ECOSYSTEM"]


def cut(r, x):
    ts = [y for y in re.split(r'([^A-Za-z0-9_-])', x) if y]
    i, j = sorted(r.randint(0, len(ts)) for _ in range(2))
    e = r.random()
    return "".join(ts[:i] if e < 0.4 else ts[:i] + ts[j:] if e < 0.7 else ts[i:] if e < 0.9 else ts[:j] + ts[i:])


def forms(r):
    """documents in which keys and texts are parts of what could be there"""
    k = r.choice(sorted(set(BASE) - {"config", "advisory", "answer", "details"}))

    def walk(v, key=""):
        new = lambda x: cut(r, r.choice(FORMS + [x] * 5)) if r.random() < 0.4 else x
        if isinstance(v, dict):
            out = {}
            for n, x in v.items():
                free = key in ("packages", "dependencies", "default", "develop", "Packages", "net6.0") and n not in ("net6.0",)
                for _ in range(3 if free and isinstance(x, (dict, list)) else 1):
                    out[new(n) if free else n] = walk(x, n)
            return out
        if isinstance(v, list):
            return [walk(x, key) for x in v for _ in range(2 if isinstance(x, dict) else 1)]
        return new(v) if isinstance(v, str) and key != "lockfileVersion" else v
    return lock_scenario(r, locks.FILE["pnpm" if k == "pnpm9" else k], text_of(k, walk(BASE[k])), "odd", k + "/forms")


def mutated(r):
    k, t = any_lock(r)
    b = mutate(r, t.encode())
    cls = "odd"
    if k in JSONISH and all(c < 128 for c in b) and json_broken(b.decode()):
        cls = "broken"
    return lock_scenario(r, locks.FILE[k], b, cls, k + "/mutated")


BROKEN_TOML = ["[[package\n", "= 3\n", "name = \n", 'name = "x\n', "[package]]\n", "a.b.\n", 'x = "\\q"\n', "x = 1 y = 2\n", "x = 2020-13-45\n", "[]\n"]
BROKEN_YAML = ["x: [\n", 'y: "abc\n', "z: {a: b\n", "- a\nb: c\n", "\tq: 1\n", "a: b: c\n", "*x\n", "? [\n", "x: &a [*b]\n", "@x: 1\n", "%x\n"]


def broken(r):
    """documents that are certainly none"""
    k = r.choice(["json", "bun", "toml", "yaml", "xml"])
    if k == "json":
        f = r.choice(sorted(JSONISH))
        g, w = locks.STRUCTURED[f]
        t = w(r, dict(g(r), fmt=f))
        e = r.random()
        if e < 0.5:
            t = t.rstrip()
            t = t[:r.randint(0, len(t) - 1)]
        elif e < 0.8:
            i = r.randint(0, len(t))
            t = t[:i] + r.choice(["}", "]", "{", ",", '"', "x", ":", "'", "//c\n", "\x01"]) + t[i:]
        else:
            t = r.choice(["", " ", "not json", "<html></html>", t + t, t + "x", "\ufeff" + t, "{'a': 1}", "lockfileVersion: 1\n", "NaN", t + ","])
        if not json_broken(t):
            return broken(r)
        t = t.encode()
    elif k == "bun":
        f = "bun"
        t = json.dumps(BASE["bun"])
        t = r.choice([t[:r.randint(0, len(t) - 1)], t + "}", t + t, "", "not json", t.replace(":", ";", 1), "// only a comment", t + "x"])
    elif k == "toml":
        f = r.choice(sorted(TOML))
        g, w = locks.STRUCTURED[f]
        ls = w(r, dict(g(r), fmt=f)).split("\n")
        i = r.randint(0, len(ls))
        t = "\n".join(ls[:i] + [r.choice(BROKEN_TOML).rstrip("\n")] + ls[i:]) + "\n"
        if r.random() < 0.2:
            t = r.choice(["{}", "not toml", "<html>", "- a\n- b\n", '{"package": []}', "name: x\n"])
        try:
            tomllib.loads(t)
            return broken(r)        # e.g. an empty array among those of another one
        except tomllib.TOMLDecodeError:
            pass
    elif k == "yaml":
        f = r.choice(["pnpm", "pubspec"])
        t = r.choice(["packages:\n  a:\n    version: 1.0.0\n", "lockfileVersion: 5.4\npackages:\n\n  /a/1.0.0:\n    resolution: {}\n"]) + r.choice(BROKEN_YAML)
    else:
        f = "maven"
        t = manifests.render_maven(r, manifests.gen_maven(r))
        body = t[t.index("<project"):].rstrip()
        e = r.random()
        if e < 0.4:
            t = body[:r.randint(0, len(body) - 1)]
        elif e < 0.7:
            i = body.rindex("</project>")
            t = body[:i] + r.choice(["<dependency>", "</dependency>", "<x></y>", "&nope;", "<", "<a b>", "<a b='x>", "&", "<!-- "]) + body[i:]
        elif e < 0.8:
            t = r.choice(["", "not xml", "{}", "<pom></pom>", "<html></html>", "name: x"])
        else:
            t = body.replace("</project>", r.choice(["</Project>", "</projec>", "", "<project>"]))
    return lock_scenario(r, locks.FILE[f], t, "broken", k + "/broken")


def odd_version(r):
    return r.choice(["", " ", "v", ".", "-", "+", "1", "0", "00", "1.", ".1", "1..2", "1-", "1-+", "1.0-", "a", "1!", "!1", "1!1!1", "1:", ":1", "1:1:1", "~", "1~~", "^1", ">=1.0", "*", "x.y.z", "1.0.0-rc.1+b", "99999999999999999999999.1",
                     "9" * 400, "1." * 300, "-" * 50, "1_2", "r1", "1-r", "1-r1-r2", "_p", "1_alpha_beta", "1.0.0.0.0.0.0.1", "1.0.dev", "1.0.post", "1rc", "dev-main", "dev-", "1.x-dev", "#", "patch", "\u0661.\u0662", "1.\u00e9", "0x10", "1e5", "-1", "1.-1", "\x00", "1 2", "1,2", "1/2", "latest",
                     "".join(r.choice("0123456789.-+~^:!_abrcpv ") for _ in range(r.randint(1, 12)))])


def versions(r):
    e = r.choice(gen.ECOS + ["Debian:11", "Alpine:v3.18", "Unknown", "", "SwiftURL", "GIT", "Bioconductor", "npm ", "NPM", "Rocky Linux", "openSUSE"])
    texts = []
    for _ in range(r.randint(1, 3)):
        rg = [{"type": r.choice(["SEMVER", "ECOSYSTEM", "ECOSYSTEM", "GIT", "", "x"]), "events": [{r.choice(["introduced", "fixed", "last_affected", "limit", "x"]): r.choice(["0", odd_version(r), "1.0"])} for _ in range(r.choice([0, 1, 2, 3, 5]))]} for _ in range(r.choice([0, 1, 1, 2]))]
        texts.append(json.dumps({"id": "X", "affected": [{"package": {"name": "a", "ecosystem": e}, "versions": [odd_version(r) for _ in range(r.choice([0, 0, 2]))], "ranges": rg}]}))
    q = lambda s: '"%s"' % s.replace('"', '""')
    rows = "".join("%s,%s,a,%s\n" % (q(e or "npm"), q(r.choice(["", "", r.choice(gen.ECOS), "nope"])), q(odd_version(r) or "x")) for _ in range(r.randint(1, 6)))
    return advisory_scenario(r, texts, "versions/" + e, pkgs=rows)


WORDS = ["#", "##", "### Impact", "# ", "\n", "\n\n", "\r\n", " ", "\t", "-", "- ", "* a", "`", "```", "```go", "[a](b)", "[", "]", "(", ")", "<b>", "</b>", "<", "&amp;", "http://x", "https://", "word", "A", "a.", ". ", ".", ":", "Impact:", "CVE-2022-1", "GHSA-x",
         "%s", "%", "%!d", "\\", "\\n", "\u00e9", "\u2028", "\U0001F600", "\u0000", "\u001b[31m", "x" * 79, "x" * 80, "x" * 81, " " * 80, "\u00e9" * 41, "1.", "|", "|a|b|", "---", "===", "> ", "~", "\"", "'", "{", "}", "$", "@"]


def texts(r):
    """advisories that apply, and what they say about themselves"""
    out = []
    for i in range(r.randint(2, 6)):
        say = lambda: "".join(r.choice(WORDS) for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 5, 30])))
        d = {"id": r.choice(["GHSA-%d", "GHSA%d", "X-%d", "GHSA-", "", "%d", "GHSA-%d/%%s"]).replace("%d", str(i)), "affected": [{"package": {"name": "a", "ecosystem": "npm"}, "versions": ["1.0.0"]}]}
        if r.random() < 0.3:
            d["summary"] = say()
        if r.random() < 0.9:
            d["details"] = say()
        out.append(json.dumps(d))
    return advisory_scenario(r, out, "advisory/texts", text=r.random() < 0.9)


def csv_noise(r):
    base = "npm,,a,1.0.0\nPyPI,,b,1\n,,c,%s\n" % H
    b = mutate(r, base.encode())
    b = b.replace(b"\x00", b"0")
    x = {"inputs": inputs(lock="odd"), "listing": True}
    y = {"inputs": inputs(lock="odd"), "listing": False}
    rows = [s for s in b.decode(errors="replace").split("\n")]
    js = ["--json"] if r.random() < 0.5 else []
    steps = [{"op": "run", "args": js + ["--list-packages", "--parse-as", "csv-file", "in.csv"], "http": {"rules": []}},
             {"op": "run", "args": js + ["--no-config", "--use-dbs=false", "--parse-as", "csv-file", "in.csv"], "http": {"rules": []}},
             {"op": "run", "args": js + ["--list-packages", "--parse-as", "csv-row", "--"] + rows, "http": {"rules": []}}]
    return scenario([content("cwd/in.csv", b)], steps, [x, y, x], "csv/mutated")


def noise(r):
    k = r.choice(["config", "advisory", "answer", "details", "zip", "zip2", "csv"])
    if k == "csv":
        return csv_noise(r)
    if k == "config":
        t = "ignore:\n  - X-1\n  - Y-2\nextra-databases:\n  - url: https://db.example/all.zip\n    name: x\n  - url: https://api.example/v1\n    type: api\n    working-directory: a\n"
        return config_scenario(r, mutate(r, t.encode()).replace(b"file:", b"f:"), "odd", "config/mutated")
    if k == "advisory":
        return advisory_scenario(r, [mutate(r, json.dumps(BASE["advisory"]).encode()) for _ in range(3)], "advisory/mutated")
    hd = r.choice([None, {"Content-Type": "text/html"}, {"Content-Length": "5"}, {"Location": "https://x.example/"}])
    st = lambda: r.choice([200, 200, 200, 200, 204, 206, 301, 304, 400, 404, 429, 500, 503])
    if k == "answer":
        return api_scenario(r, mutate(r, json.dumps(BASE["answer"]).encode()), None, "answer/mutated", (st(), 200), hd)
    if k == "details":
        return api_scenario(r, None, mutate(r, json.dumps(BASE["details"]).encode()), "details/mutated", (200, st()), hd)
    files = [(r.choice(["X-1.json", "a/X-2.json", "../x.json", "/x.json", "a/", "a//b.json", ".json", "a/.json", "x.JSON", "a\\b.json", "a/../b.json"]), gen.adv_json(ADV[0])) for _ in range(r.randint(0, 4))]
    seen, fs = set(), []
    for n, c in files:
        if n not in seen:
            fs.append((n, "" if n.endswith("/") else c))
            seen.add(n)
    z = archive(fs)
    if k == "zip":
        z = mutate(r, z)
    elif r.random() < 0.3:
        z = r.choice([b"", b"PK", b"not a zip", z + b"x", z[:-1], z + z, z[4:]])
    return zip_scenario(r, z, "archive/mutated", r.choice([200, 200, 200, 304, 404, 500, 204]), r.choice([None, {}, {"ETag": "\u00ff"}, {"Date": "never"}]))


def bombs(r):
    """large, deep and self-referring documents"""
    n = 20000
    out = []
    for f, t in (("package-lock.json", '{"dependencies":' * n + "{}" + "}" * n), ("package-lock.json", '{"dependencies":{"a":' * 3000 + "{}" + "}}" * 3000), ("package-lock.json", "[" * 200000), ("bun.lock", '{"packages":{"a":[' + "[" * n + "]" * n + "]}}"),
                 ("composer.lock", '{"packages":[' + "{}," * n + "{}]}"), ("pnpm-lock.yaml", "a: &a [x]\n" + "".join("b%d: &b%d [%s]\n" % (i, i, ",".join(["*" + ("b%d" % (i - 1) if i else "a")] * 9)) for i in range(12)) + "packages: *b11\n"),
                 ("pnpm-lock.yaml", "packages: " + "{a: " * 5000 + "}" * 5000 + "\n"), ("pubspec.lock", "packages:\n" + "".join("  p%d:\n    version: \"1\"\n" % i for i in range(n))), ("Cargo.lock", "a = " + "[" * 5000 + "]" * 5000 + "\n"),
                 ("Cargo.lock", '[[package]]\nname = "a"\nversion = "1"\n' * 3000), ("pom.xml", "<project>" + "<a>" * n + "</a>" * n + "</project>"),
                 ("pom.xml", "<project><properties><a>${a}${a}</a><b>${c}</b><c>${b}</c></properties><dependencies><dependency><groupId>g</groupId><artifactId>a</artifactId><version>${a}</version></dependency><dependency><groupId>g</groupId><artifactId>b</artifactId><version>${b}</version></dependency></dependencies></project>"),
                 ("pom.xml", "<!DOCTYPE p [<!ENTITY a \"aaaa\"><!ENTITY b \"&a;&a;&a;\">]><project><dependencies><dependency><groupId>&b;</groupId></dependency></dependencies></project>"),
                 ("requirements.txt", "-r requirements.txt\n" * 3 + "a==1\n"), ("requirements.txt", "-r ./requirements.txt\n-r ../cwd/requirements.txt\n-r .\n"), ("requirements.txt", "-r\n-r \n--requirement\n-r x y\n"), ("requirements.txt", "a\\\n" * n), ("requirements.txt", "a" * 70000 + "==1\n"),
                 ("yarn.lock", "a@" * n + ":\n"), ("yarn.lock", "a@1:\n" * n), ("yarn.lock", '"' * n), ("Gemfile.lock", "GEM\n  specs:\n" + "    a (1)\n" * n), ("mix.lock", '  "a": {' + "," * n + "},\n"), ("gradle.lockfile", ":" * n + "\n"), ("gradle.lockfile", "a:b:" + "c" * 70000 + "\n"),
                 ("go.mod", "module x\n" + "require (\n" * 500), ("go.mod", "module x\nrequire a v1.0.0\n" * 50), ("go.mod", ""), ("go.mod", "module x\nreplace a => b\n"), ("go.mod", "require ()\n")):
        cls = "broken" if t.startswith("[[[") else "odd"
        out.append(lock_scenario(r, f, t, cls, "bomb/" + f))
    return out


def check(ctx):
    r = ctx.rng
    ctx.model("Robust", RUN, "Robust")
    gs = ctx.generate("MCRobust", ODD % ctx.pick(1, 2), "MCRobust")
    ctx.extra["odd_documents_of_spec"] = len(gs)
    one = [g for g in gs if len(g["edits"]) == 1]
    two = [g for g in gs if len(g["edits"]) == 2]
    scs = [from_spec(r, g) for g in one + r.sample(two, min(len(two), 15000))]
    n_spec = len(scs)
    for f, n in ((mutated, ctx.pick(900, 15000)), (broken, ctx.pick(500, 6000)), (pieces, ctx.pick(400, 6000)), (forms, ctx.pick(600, 8000)), (versions, ctx.pick(400, 6000)), (texts, ctx.pick(200, 4000)), (noise, ctx.pick(500, 8000))):
        scs += [f(r) for _ in range(n)]
    scs += bombs(r)
    suite.run(ctx, "RobustTrace", scs, timeout_s=60)
    ctx.extra.update(from_spec=n_spec, others=len(scs) - n_spec)
    return ["a run that does not end within 60 s, again and again, counts as hanging", "content after the root element of a pom.xml is not looked at"]
