#!/usr/bin/env python3
"""seed.py <batch.py> [id...]: makes planted changes out of a batch description and confirms them in a scratch copy.

A batch defines B = [dict(id, property, edits=[(file, old, new)...], demo="python code using h", needs, breaks)]."""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO, BASE = "/repo", "fe48217"
ENV = dict(os.environ, PATH="/opt/veriftools/go1.24.13/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, env=ENV, **kw)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = set(sys.argv[2:])
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for b in ns["B"]:
        if want and b["id"] not in want:
            continue
        w = "/tmp/seed-work"
        shutil.rmtree(w, ignore_errors=True)
        subprocess.run(["cp", "-a", REPO, w], check=True)
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT does not apply once:", f, s.count(old), repr(old[:60]))
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        diff = sh("git diff", cwd=w).stdout
        # at least one removed or neighbouring line has to be one of the original repository
        orig = set()
        for f, _, _ in b["edits"]:
            orig |= set(sh("git show %s:%s" % (BASE, f), cwd=REPO).stdout.splitlines())
        rem = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip()]
        if rem and not any(l in orig for l in rem):
            print(b["id"], "WARNING: changes only lines of own commits")
        d = os.path.join(HERE, "seeded", b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        shutil.copy(os.path.join(HERE, "tools", "seedlib", "h.py"), d)
        open(os.path.join(d, "demo.py"), "w").write("from h import *\n" + b["demo"].strip("\n") + "\nprint('ok')\n")
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        t = sh("cd %s && go build ./... && mkdir -p /tmp/seed-tmp && CI=true TMPDIR=/tmp/seed-tmp go test -json -vet=off -count=1 ./...; rm -rf /tmp/seed-tmp" % w)
        passed = set()
        for l in t.stdout.splitlines():
            if l.startswith("{"):
                j = json.loads(l)
                if j.get("Action") == "pass" and j.get("Test"):
                    passed.add(j["Package"] + "/" + j["Test"])
        fails = sorted(set(base) - passed)
        clean = sh("bash %s/demo.sh" % d, cwd=REPO)
        bad = sh("bash %s/demo.sh" % d, cwd=w)
        verdict = "OK" if clean.returncode == 0 and bad.returncode != 0 and not fails and diff else "BAD"
        if verdict == "BAD":
            shutil.rmtree(d, ignore_errors=True)
        print(b["id"], verdict, "clean", clean.returncode, "patched", bad.returncode, "failing stable tests", fails[:4],
              "" if verdict == "OK" else (clean.stdout + clean.stderr)[-600:] + " | " + (bad.stdout + bad.stderr)[-600:] + t.stderr[-500:])
        shutil.rmtree(w, ignore_errors=True)


main()
