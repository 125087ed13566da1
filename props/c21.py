"""C21: CSV input is taken row by row, completely or not at all."""
import json, re
import gen, suite, world
from suite import Scenario, crash_of

CH = {"\n": "NL", "\r": "CR"}


def scenario(text, how, tag, rows=None):
    """how: file / rows (library), runfile / runrows (the whole command)"""
    lst = ["--json", "--list-packages"]
    tree = [{"p": "in.csv", "c": text}]
    if how == "file":
        st = {"op": "csvfile", "path": "in.csv", "as": "csv-file"}
    elif how == "rows":
        st = {"op": "csvrows", "path": "-", "as": "csv-row", "rows": rows}
    elif how == "runfile":
        st = {"op": "run", "args": lst + ["csv-file:in.csv"], "http": {"rules": []}}
    else:
        st = {"op": "run", "args": lst + ["--parse-as", "csv-row", "--"] + rows, "http": {"rules": []}}

    def rec(outs):
        o = outs[0]
        ob = {"crash": crash_of(o), "err": False, "row": 0, "pkgs": []}
        if not ob["crash"]:
            if st["op"] == "run":
                err = o.get("stderr", "") if o["exit"] != 0 else ""
                ps = [p for x in json.loads(o["stdout"])["results"] for p in x["packages"] or []]
                if o["exit"] not in (0, 127):
                    err = "exit %d" % o["exit"]
            else:
                err, ps = o.get("err") or "", o.get("pkgs") or []
            ob["err"] = bool(err)
            m = re.search(r"row (\d+)", err)
            ob["row"] = int(m.group(1)) if m else 0
            ob["pkgs"] = [gen.pkg(p["name"], p["version"], p.get("ecosystem", ""), p.get("compareAs", ""), p.get("commit", "")) for p in ps]
        return {"text": [CH.get(c, c) for c in text], "obs": ob}
    return Scenario({"tree": tree, "steps": [st]}, rec, tag + "/" + how)


NAMES = ["a", "b", "B", "foo-bar", "@s/x", "a b", "x,y", 'q"r', "n\nl", " lead", "trail ", "10", "9", "#a", "-x", ";", "'a'", "\u00e9", "=a", "b;c", ""]
VERS = ["1.0.0", "", "1.10", "1.9", "v1", "1,2", '"', "0"]
ECOS = ["npm", "PyPI", "Maven", "", "", "Debian:11", "custom", "#npm", "#", " npm", "-", "//x", ";", "'npm'"]


def q(r, x, style):
    if style == 2 or re.search(r'[",\r\n]', x) or (style == 1 and r.random() < 0.5):
        return '"' + x.replace('"', '""') + '"'
    return x


def row(r, bad):
    f = [r.choice(ECOS), r.choice(["", "", "npm", "Go"]), r.choice(NAMES[:-1]), r.choice(VERS)]
    if not f[0] and not f[3]:
        f[3] = "%040x" % r.getrandbits(160)
    if r.random() < bad:
        k = r.randrange(4)
        if k == 0:
            f = f[:r.randint(1, 3)]
        elif k == 1:
            f[2] = ""
        elif k == 2:
            f[0] = f[3] = ""
        else:
            f.append("x")
    return f


def check(ctx):
    r = ctx.rng
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxRows = %d\nINVARIANTS ReadsBack AllOrNothing %s\n"
    gs = ctx.generate("MCCsv", cfg % (1, "Emit"), "MCCsv/1")
    if ctx.quick:
        ctx.model("MCCsv", cfg % (2, ""), "MCCsv/2")
        pool = [g["text"] for g in gs]
        two = [r.choice(pool) + r.choice(pool) for _ in range(250)] + [r.choice(pool) + r.choice(pool) + r.choice(pool) for _ in range(100)]
    else:
        two = [g["text"] for g in ctx.generate("MCCsv", cfg % (2, "Emit"), "MCCsv/2")]
        pool = [g["text"] for g in gs]
        two += [r.choice(two) + r.choice(pool) for _ in range(2000)]
    scs = []
    inv = {"NL": "\n", "CR": "\r"}
    for t in [g["text"] for g in gs] + two:
        text = "".join(inv.get(c, c) for c in t)
        scs.append(scenario(text, r.choice(["file", "runfile"]), "shape"))
        scs.append(scenario(text[:-1], r.choice(["rows", "runrows"]), "shape", text[:-1].split("\n")))
    n_spec = len(scs)
    for _ in range(ctx.pick(400, 8000)):
        style = r.randrange(3)
        bad = r.choice([0, 0, 0.1, 0.3])
        rows = [",".join(q(r, x, style) for x in row(r, bad)) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 13]))]
        how = r.choice(["file", "runfile", "rows", "runrows"])
        if how in ("rows", "runrows"):
            if r.random() < 0.1:
                rows.insert(r.randint(0, len(rows)), "")
            if not rows:
                continue
            scs.append(scenario("\n".join(rows), how, "sampled", rows))
        else:
            eol = r.choice(["\n", "\n", "\r\n"])
            if r.random() < 0.15:
                rows.insert(r.randint(0, len(rows)), "")
            text = eol.join(rows) + (eol if r.random() < 0.7 else "")
            scs.append(scenario(text, how, "sampled"))
    for _ in range(ctx.pick(150, 3000)):
        # any mixture of the characters that matter
        text = "".join(r.choice(["a", "n", ",", ",", ",", '"', "\n", "\r", " ", "1", "#", ";"]) for _ in range(r.randint(0, 24)))
        if r.random() < 0.5:
            text = "npm,,a,1.0.0\n" + text
        scs.append(scenario(text, r.choice(["file", "runfile"]), "characters"))
    suite.run(ctx, "CsvTrace", scs)
    ctx.extra.update(texts_from_spec=n_spec, sampled=len(scs) - n_spec)
