#!/usr/bin/env python3
"""try.py [id...]: runs the property's quick check against a scratch copy of /repo with each planted change applied."""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
missed = []
for i in ids:
    d = os.path.join(HERE, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    w = "/tmp/try-%d" % os.getpid()
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    a = subprocess.run(["git", "-C", w, "apply", d + "/patch.diff"], capture_output=True, text=True)
    if a.returncode:
        print(i, "PATCH DOES NOT APPLY", a.stderr[:200])
        continue
    t = time.time()
    p = subprocess.run([sys.executable, os.path.join(HERE, "bin/check.py"), meta["property"], "quick"], capture_output=True, text=True,
                       env=dict(os.environ, VERIF_REPO=w))
    why = [l for l in p.stdout.splitlines() if l.startswith("rejected") or l.startswith("ERROR")]
    ok = p.returncode == 1 and "VIOLATION property=" + meta["property"] in p.stdout
    print(i, "caught" if ok else "MISSED rc=%d" % p.returncode, "%.0fs" % (time.time() - t), (why or [p.stdout[-300:] + p.stderr[-500:]])[0][:230], flush=True)
    if not ok:
        missed.append(i)
    shutil.rmtree(w, ignore_errors=True)
print("missed:", missed)
