#!/usr/bin/env python3
"""mutants.py gen DIR | tests DIR | checks DIR [n]: small mechanical changes to /repo's sources; which pass the tests, and which of these the checks notice.

DIR (scratch, outside /verif) keeps mutants.jsonl, alive.jsonl and verdicts.jsonl."""
import concurrent.futures as cf, json, os, random, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
ENV = dict(os.environ, PATH="/opt/veriftools/go1.24.13/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", CI="true")
ORDER = {
    "main.go": "C08 C13 C12 C09 C22 C25 C15 C10 C11 C14 C07 C24 C16 C17",
    "internal/reporter/": "C14 C08 C22 C23 C15 C16 C11 C25",
    "internal/configer/": "C24 C11 C12 C09 C22 C15 C17 C13 C08",
    "pkg/database/api": "C03 C04 C23 C07 C17 C12 C08",
    "pkg/database/zip": "C05 C06 C02 C22 C01 C07 C17 C16",
    "pkg/database/dir": "C02 C01 C22 C17 C15 C16",
    "pkg/database/config": "C24 C12 C22 C05 C07 C17",
    "pkg/database/": "C01 C10 C23 C02 C14 C16 C17 C03",
    "pkg/lockfile/csv": "C21 C17 C16 C13",
    "pkg/lockfile/parse.go": "C13 C18 C16 C12 C17",
    "pkg/lockfile/parse-requirements": "C20 C17", "pkg/lockfile/parse-go": "C20 C17", "pkg/lockfile/parse-maven": "C20 C17 C14",
    "pkg/lockfile/parse-yarn": "C19 C17", "pkg/lockfile/parse-gem": "C19 C17", "pkg/lockfile/parse-mix": "C19 C17 C14", "pkg/lockfile/parse-gradle": "C19 C17 C14",
    "pkg/lockfile/parse-": "C18 C17", "pkg/lockfile/": "C18 C13 C25 C12 C16 C01", "internal/": "C18 C01 C17",
}


def apply(m, w):
    p = os.path.join(w, m["file"])
    s = open(p, "rb").read()
    open(p, "wb").write(s[:m["start"]] + m["new"].encode() + s[m["end"]:])
    return p, s


def gen(d):
    os.makedirs(d, exist_ok=True)
    b = d + "/mutate"
    subprocess.run(["go", "build", "-o", b, os.path.join(HERE, "tools/mutate/main.go")], check=True, env=ENV)
    fs = sorted(subprocess.run("git ls-files '*.go' | grep -v _test.go", shell=True, cwd=REPO, capture_output=True, text=True).stdout.split())
    out = subprocess.run([b] + fs, cwd=REPO, capture_output=True, text=True).stdout
    seen, ms = set(), []
    for l in out.splitlines():
        m = json.loads(l)
        k = (m["file"], m["start"], m["end"], m["new"])
        if k not in seen:
            seen.add(k)
            m["n"] = len(ms)
            ms.append(m)
    open(d + "/mutants.jsonl", "w").write("".join(json.dumps(m) + "\n" for m in ms))
    print(len(ms), "mutants")


def tests(d):
    ms = [json.loads(l) for l in open(d + "/mutants.jsonl")]
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    import queue
    ws = queue.Queue()
    for i in range(6):
        w = d + "/w%d" % i
        shutil.rmtree(w, ignore_errors=True)
        subprocess.run(["cp", "-a", REPO, w], check=True)
        ws.put(w)

    def one(m):
        w = ws.get()
        p, s = apply(m, w)
        t = w + "-tmp"
        os.makedirs(t, exist_ok=True)
        try:
            r = subprocess.run("go build ./... && go test -json -vet=off -count=1 -timeout 60s ./...", shell=True, cwd=w, capture_output=True, text=True, env=dict(ENV, TMPDIR=t), timeout=150)
            ok = set()
            for l in r.stdout.splitlines():
                if l.startswith('{"') and '"pass"' in l:
                    j = json.loads(l)
                    if j.get("Test"):
                        ok.add(j["Package"] + "/" + j["Test"])
            return not (base - ok)
        except subprocess.TimeoutExpired:
            return False
        finally:
            open(p, "wb").write(s)
            shutil.rmtree(t, ignore_errors=True)
            ws.put(w)
    with cf.ThreadPoolExecutor(6) as ex, open(d + "/alive.jsonl", "w") as f:
        n = 0
        for m, alive in zip(ms, ex.map(one, ms)):
            if alive:
                n += 1
                f.write(json.dumps(m) + "\n")
                f.flush()
    print(n, "of", len(ms), "pass the tests")
    for i in range(6):
        shutil.rmtree(d + "/w%d" % i, ignore_errors=True)


def message(m):
    return m["kind"] == "string" and (" " in m["old"].strip('"') or "%" in m["old"] or "\\n" in m["old"])


def checks(d, limit=None):
    import queue
    ms = [m for m in map(json.loads, open(d + "/alive.jsonl")) if not message(m)]
    done = {json.loads(l)["n"] for l in open(d + "/verdicts.jsonl")} if os.path.exists(d + "/verdicts.jsonl") else set()
    random.Random(7).shuffle(ms)
    ms = [m for m in ms if m["n"] not in done][:limit]
    ws = queue.Queue()
    for i in range(3):
        w = d + "/c%d" % i
        shutil.rmtree(w, ignore_errors=True)
        subprocess.run(["cp", "-a", REPO, w], check=True)
        ws.put(w)

    def one(m):
        w = ws.get()
        p, s = apply(m, w)
        order = next(v for k, v in ORDER.items() if m["file"].startswith(k)).split()
        t, by = time.time(), ""
        try:
            r = subprocess.run([sys.executable, os.path.join(HERE, "tools/fastcheck.py"), d + "/cache"] + order, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w, VERIF_JOBS="4"), timeout=900)
            by = r.stdout.rpartition("CAUGHT ")[2][:60].strip() if r.returncode else ""
            by = by or (r.stderr[-200:] if r.returncode else "")
        except subprocess.TimeoutExpired:
            by = "timeout"
        finally:
            open(p, "wb").write(s)
            ws.put(w)
        m["by"] = by
        with open(d + "/verdicts.jsonl", "a") as f:
            f.write(json.dumps(m) + "\n")
        print(by or "SURVIVES", "%s:%d" % (m["file"], m["line"]), m["kind"], repr(m["old"][:90]), "->", repr(m["new"][:90]), "%.0fs" % (time.time() - t), flush=True)
    with cf.ThreadPoolExecutor(3) as ex:
        list(ex.map(one, ms))
    for i in range(3):
        shutil.rmtree(d + "/c%d" % i, ignore_errors=True)


if __name__ == "__main__":
    {"gen": gen, "tests": tests, "checks": checks}[sys.argv[1]](sys.argv[2], *map(int, sys.argv[3:]))
