"""Config documents (ConfigFile.tla) written down as YAML in many ways."""
import json, re

NULL = {"kind": "null", "text": "", "keys": [], "items": []}


def text(s):
    return dict(NULL, kind="text", text=s)


def lst(xs):
    return dict(NULL, kind="list", items=xs)


def mp(kv):
    return dict(NULL, kind="map", keys=[k for k, _ in kv], items=[v for _, v in kv])


PLAIN = re.compile(r"[A-Za-z0-9_./][A-Za-z0-9_./@+=:-]*( [A-Za-z0-9_./-]+)*$")
NULLISH = {"~", "null", "Null", "NULL", ""}


def plain_ok(s, flow):
    """the text can stand without quotes and still be text that is not null"""
    return bool(PLAIN.match(s)) and s not in NULLISH and not s.endswith(":") and ": " not in s and s != "---" and s != "..." and "<<" not in s


class Writer:
    """one style of writing, chosen at random"""

    def __init__(self, r):
        self.r = r
        self.quotes = r.choice(["plain", "plain", "single", "double", "mixed"])
        self.flow = r.choice([0, 0, 0.2, 1])
        self.indent = r.choice([2, 2, 4, 1, 3])
        self.dash = r.choice([0, 0, 1])     # lists as deep as their key, or deeper
        self.comments = r.choice([0, 0, 0.4])
        self.json = r.random() < 0.06
        self.eol = r.choice(["\n", "\n", "\n", "\r\n"])

    def scalar(self, s, flow):
        r = self.r
        k = self.quotes if self.quotes != "mixed" else r.choice(["plain", "single", "double"])
        if k == "plain" and plain_ok(s, flow):
            return s
        if k == "single" or (k == "plain" and "\t" not in s):
            return "'" + s.replace("'", "''") + "'"
        out = json.dumps(s, ensure_ascii=r.random() < 0.5)
        return out if "\\ud" not in out else json.dumps(s, ensure_ascii=False)

    def note(self):
        return "  # " + self.r.choice(["note", "ignore: [X]", "- OSV-1", "it's \"fine\"", "a: b"]) if self.r.random() < self.comments else ""

    def own_line(self):
        return [" " * self.r.randint(0, 1) + "# - OSV-2" if self.r.random() < 0.7 else ""] if self.r.random() < self.comments else []

    def inline(self, x):
        r = self.r
        sp = r.choice(["", " "])
        if x["kind"] == "null":
            return r.choice(["~", "null"])
        if x["kind"] == "text":
            return self.scalar(x["text"], True)
        if x["kind"] == "list":
            return "[" + sp + (", ").join(self.inline(y) for y in x["items"]) + sp + "]"
        return "{" + sp + ", ".join("%s: %s" % (self.key(k), self.inline(y)) for k, y in zip(x["keys"], x["items"])) + sp + "}"

    def key(self, k):
        return k if self.r.random() < 0.85 else self.r.choice(['"%s"', "'%s'"]) % k

    def short(self, x, in_list):
        """what fits behind a key or a dash, or None"""
        r = self.r
        if x["kind"] == "null":
            return r.choice(["", "~", "null", "Null"])
        if x["kind"] == "text":
            return self.scalar(x["text"], False)
        if not x["items"] or r.random() < self.flow:
            return self.inline(x)
        return None

    def block(self, x, ind):
        """lines of a list or map with at least one item"""
        out = []
        pad = " " * ind
        if x["kind"] == "list":
            for y in x["items"]:
                out += self.own_line()
                s = self.short(y, True)
                if s is not None:
                    if y["kind"] == "text" and self.r.random() < 0.05 and y["text"] and not y["text"].startswith(" ") and "\n" not in y["text"]:
                        out += [pad + "- " + self.r.choice(["|-", ">-"]), pad + "  " + y["text"]]
                    else:
                        out.append(pad + "-" + (" " + s if s else "") + self.note())
                else:
                    sub = self.block(y, ind + 2)
                    first = next(i for i, l in enumerate(sub) if l.strip() and not l.strip().startswith("#"))
                    sub[first] = pad + "- " + sub[first][ind + 2:]
                    out += sub
            return out
        for k, y in zip(x["keys"], x["items"]):
            out += self.own_line()
            s = self.short(y, False)
            if s is not None:
                out.append(pad + self.key(k) + ":" + (" " + s if s else "") + self.note())
            else:
                out.append(pad + self.key(k) + ":" + self.note())
                out += self.block(y, ind + (self.dash * self.indent if y["kind"] == "list" else self.indent))
        return out

    def write(self, doc):
        r = self.r
        if doc["kind"] == "null":
            t = r.choice(["", "\n", "# nothing\n", "---\n", "~\n", "null\n"])
        elif self.json:
            t = json.dumps(as_json(doc), indent=r.choice([None, 2])) + "\n" if not repeats(doc) else self.inline(doc) + "\n"
        elif doc["kind"] == "text" or not doc["items"] or r.random() < 0.05:
            t = self.inline(doc) + "\n"
        else:
            t = "\n".join(self.block(doc, 0)) + ("\n" if r.random() < 0.9 else "")
        if r.random() < 0.1:
            t = "---\n" + t
        if r.random() < 0.05:
            t = "# a config\n\n" + t
        if r.random() < 0.04 and t.endswith("\n"):
            # a second document says nothing, but is not the second one where there is nothing before it
            t += r.choice(["...\n", "\n\n", "---\nignore: [OSV-1, OSV-2]\n"] if doc["kind"] != "null" else ["\n\n"])
        return t.replace("\n", self.eol)


def repeats(x):
    return len(set(x["keys"])) != len(x["keys"]) or any(repeats(y) for y in x["items"])


def as_json(x):
    if x["kind"] == "null":
        return None
    if x["kind"] == "text":
        return x["text"]
    if x["kind"] == "list":
        return [as_json(y) for y in x["items"]]
    return {k: as_json(y) for k, y in zip(x["keys"], x["items"])}
