#!/usr/bin/env python3
"""fastcheck.py CACHE PROPERTY...: the quick checks as bin/check.py runs them, for trying many changes.

What does not depend on /repo is taken from CACHE: the behaviours the specifications generate, and the
records already accepted (a record equal to an accepted one is accepted).  The first run on the unchanged
tree fills CACHE.  Prints the first property that is violated, or nothing."""
import hashlib, importlib, json, os, pickle, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "props")]
import core, suite

CACHE = sys.argv[1]
os.makedirs(CACHE, exist_ok=True)
suite.CONFIRM = 2
h = lambda x: hashlib.sha1(x.encode()).hexdigest()
_gen, _judge, _model = core.Ctx.generate, core.Ctx.judge, core.Ctx.model
skip = lambda self, *a, **k: ""


def generate(self, module, cfg, name=None, **kw):
    p = os.path.join(CACHE, "gen-" + h(module + cfg + str(kw)))
    if not os.path.exists(p):
        core.Ctx.model = _model
        json.dump(_gen(self, module, cfg, name, **kw), open(p + str(os.getpid()), "w"))
        core.Ctx.model = skip
        os.rename(p + str(os.getpid()), p)
    return json.load(open(p))


def judge(self, module, records, name=None, **kw):
    p = os.path.join(CACHE, "ok-%s-%s" % (self.prop, module))
    ok = set(open(p).read().split()) if os.path.exists(p) else set()
    hs = [h(json.dumps(r, sort_keys=True)) for r in records]
    idx = [i for i, x in enumerate(hs) if x not in ok]
    if not idx:
        return {}
    rej = _judge(self, module, [records[i] for i in idx], name, **kw)
    with open(p, "a") as f:
        f.write("".join(hs[i] + "\n" for k, i in enumerate(idx) if k not in rej))
    return {idx[k]: v for k, v in rej.items()}


core.Ctx.generate, core.Ctx.judge = generate, judge
core.Ctx.model = skip
suite.save_replay = lambda ctx, s, n, p: ""
core.finish = suite.finish = lambda ctx, v, a=(): 1 if v else 0
for prop in sys.argv[2:]:
    ctx = core.Ctx(prop, "quick", int(os.environ.get("VERIF_SEED", "1")))
    try:
        mod = importlib.import_module(prop.lower())
        mod.check(ctx)
        if suite.conclude(ctx, []):
            print("CAUGHT", prop)
            sys.exit(1)
    except core.CheckError as e:
        print("CAUGHT", prop + "!", str(e)[:300])
        sys.exit(2)
    finally:
        ctx.cleanup()
