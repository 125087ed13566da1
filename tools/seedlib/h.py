"""Helpers of the demonstrations: builds the program in the current directory and runs it in a scratch directory."""
import http.server, io, json, os, shutil, subprocess, sys, tempfile, threading, zipfile, atexit

REPO = os.getcwd()
TMP = tempfile.mkdtemp(prefix="demo-")
atexit.register(lambda: shutil.rmtree(TMP, ignore_errors=True))
ENV = dict(os.environ, PATH="/opt/veriftools/go1.24.13/bin:" + os.environ.get("PATH", "/usr/bin:/bin"), GOTOOLCHAIN="local",
           GOPROXY="off", GOFLAGS="-mod=readonly", NO_COLOR="1")
ENV.pop("OSV_DETECTOR_PREFER_API", None)
WORK = os.path.join(TMP, "w")
os.makedirs(WORK)
os.makedirs(os.path.join(TMP, "t"))
BIN = os.path.join(TMP, "osv-detector")
subprocess.run(["go", "build", "-o", BIN, "."], cwd=REPO, env=ENV, check=True)


def put(path, content):
    p = os.path.join(WORK, path)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not isinstance(content, (str, bytes)):
        content = json.dumps(content)
    with open(p, "wb") as f:
        f.write(content.encode() if isinstance(content, str) else content)
    return p


def run(*args, cwd=None, env=None):
    e = dict(ENV, TMPDIR=os.path.join(TMP, "t"))
    e.update(env or {})
    p = subprocess.run([BIN] + list(args), cwd=os.path.join(WORK, cwd or ""), env=e, capture_output=True, text=True, timeout=60)
    return p.returncode, p.stdout, p.stderr


def packages(path, *args, cwd=None):
    """(name, version, ecosystem, commit) of every package listed"""
    rc, out, err = run("--list-packages", "--json", *args, path, cwd=cwd)
    return [(p["name"], p["version"], p["ecosystem"], p.get("commit", "")) for r in json.loads(out)["results"] for p in r["packages"] or []], rc, err


def results(*args, cwd=None, env=None):
    """per lockfile: {name@version: (ids, ignored ids)}"""
    rc, out, err = run("--json", *args, cwd=cwd, env=env)
    res = []
    for r in json.loads(out)["results"]:
        res.append((r["filePath"], {p["name"] + "@" + p["version"]: ([v["id"] for v in p["vulnerabilities"]], [v["id"] for v in p["ignored"]]) for p in r["packages"]}))
    return rc, res, err


def osv(id, name, eco="npm", versions=(), ranges=None, **kw):
    a = {"package": {"name": name, "ecosystem": eco}, "versions": list(versions)}
    if ranges:
        a["ranges"] = ranges
    return dict({"id": id, "aliases": [], "affected": [a]}, **kw)


def zipped(files):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        for k, v in files.items():
            z.writestr(k, v if isinstance(v, (str, bytes)) else json.dumps(v))
    return b.getvalue()


def serve(handler):
    """handler(method, path, headers, body) -> (status, headers, body); returns (base url, log)"""
    log = []

    class H(http.server.BaseHTTPRequestHandler):
        def go(self):
            body = self.rfile.read(int(self.headers.get("Content-Length") or 0))
            log.append((self.command, self.path))
            st, hd, b = handler(self.command, self.path, self.headers, body)
            self.send_response_only(st)
            for k, v in hd.items():
                self.send_header(k, v)
            if "Content-Length" not in hd:
                self.send_header("Content-Length", str(len(b)))
            self.end_headers()
            try:
                self.wfile.write(b)
            except OSError:
                pass
        do_GET = do_POST = go

        def log_message(self, *a):
            pass
    http.server.ThreadingHTTPServer.request_queue_size = 512
    s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
    s.daemon_threads = True
    threading.Thread(target=s.serve_forever, daemon=True).start()
    return "http://127.0.0.1:%d" % s.server_address[1], log


def npm(path, *pkgs):
    return put(path, {"lockfileVersion": 3, "packages": {"node_modules/" + n: {"version": v} for n, v in pkgs}})


def config(path, ignore=(), dbs=()):
    return put(path, "ignore:%s\n%s" % ("".join("\n  - " + i for i in ignore) or " []",
               "extra-databases:\n" + "".join("  - " + "\n    ".join("%s: %s" % kv for kv in d.items()) + "\n" for d in dbs) if dbs else ""))


def expect(got, want, what=""):
    if got != want:
        print("FAIL %s\n  got:  %r\n  want: %r" % (what, got, want))
        sys.exit(1)
