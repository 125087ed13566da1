"""Executes scenarios on the real code, lets TLC judge the recorded behaviours, and confirms
every rejection by executing the scenario again before it counts as a violation."""
import json, os, re
from core import CheckError, save_replay, known_findings, finish

CONFIRM = 12
BIG = 150_000      # records larger than this are executed again only when nothing smaller was rejected


class Scenario:
    """case: what the driver executes; rec(outs): the abstract record TLC judges; tag: short description"""
    __slots__ = ("case", "rec", "tag", "env", "judge")

    def __init__(self, case, rec, tag="", env=None, judge=None):
        self.case, self.rec, self.tag, self.env, self.judge = case, rec, tag, env, judge


def crash_of(o):
    """'' or how the execution of a step broke down"""
    if o.get("died"):
        return "process died: " + re.sub(r"\s+", " ", o.get("log", ""))[-300:]
    if o.get("hang"):
        return "did not finish"
    return o.get("panic") or ""


def ascii_only(x):
    """TLC reads records as plain ASCII; anything else is spelled out"""
    if isinstance(x, str):
        return "".join(c if 32 <= ord(c) < 127 else "{%x}" % ord(c) for c in x)
    if isinstance(x, list):
        return [ascii_only(v) for v in x]
    if isinstance(x, tuple):
        return [ascii_only(v) for v in x]
    if isinstance(x, dict):
        return {k: ascii_only(v) for k, v in x.items()}
    return x


PROCESS_SHARE = 0.12
ONE_STREAM = {"output", "told"}      # what is judged by what is on standard error, where a process of its own mixes two sources


def as_process(r, s):
    """some runs are made by a process of its own, through main, instead of by calling run"""
    j = s.judge
    for st in s.case.get("steps") or []:
        if st.get("op") == "run" and "exec" not in st and "--json" in st["args"] and j is not None and not ONE_STREAM & set(j) and r.random() < PROCESS_SHARE:
            st["exec"] = True


def execute(ctx, scs, timeout_s=60):
    outs = {}
    envs = {}
    for i, s in enumerate(scs):
        s.case["id"] = i
        envs.setdefault(json.dumps(s.env or {}, sort_keys=True), []).append(i)
    for e, idx in envs.items():
        outs.update(ctx.execute([scs[i].case for i in idx], env=json.loads(e), timeout_s=timeout_s))
    return [outs[i] for i in range(len(scs))]


def run(ctx, module, scs, name=None, timeout_s=60, cfg=None, chunk=None):
    """Returns the number of confirmed violations; they are recorded in ctx.rejects."""
    name = name or module
    if not scs:
        raise CheckError("no scenarios for " + name)
    for s in scs:
        as_process(ctx.rng, s)
    obs = execute(ctx, scs, timeout_s)
    recs = [ascii_only(s.rec(o)) for s, o in zip(scs, obs)]
    for i in range(0, len(recs), max(1, len(recs) // 2)):
        if len(ctx.samples) < 4:
            ctx.samples.append({"suite": name, "scenario": scs[i].tag, "record": clip(recs[i])})
    rej = ctx.judge(module, recs, name=name, cfg=cfg, chunk=chunk)
    if not rej:
        return 0
    # one representative per kind of rejection, then execute them again
    kinds, chosen = {}, []
    size = {i: len(json.dumps(recs[i])) for i in rej}
    for i, (step, why) in sorted(rej.items(), key=lambda x: (size[x[0]], x[0])):
        kd = why[:24] + scs[i].tag.split("/")[0]
        if kinds.setdefault(kd, 0) < 3 and len(chosen) < 12 and (not chosen or size[i] < BIG):
            kinds[kd] += 1
            chosen.append(i)
    again, times = [], {i: CONFIRM if size[i] < BIG else 2 for i in chosen}
    for i in chosen:
        for _ in range(times[i]):
            s = scs[i]
            again.append(Scenario(dict(s.case), s.rec, s.tag, s.env))
    obs2 = execute(ctx, again, timeout_s)
    recs2 = [ascii_only(s.rec(o)) for s, o in zip(again, obs2)]
    rej2 = ctx.judge(module, recs2, name=name + "/confirm", cfg=cfg)
    confirmed, unconfirmed = 0, []
    at = 0
    for i in chosen:
        hits = [h for h in range(at, at + times[i]) if h in rej2]
        at += times[i]
        confirmed += 1
        if not hits:
            if "crash" in rej[i][1] or any(crash_of(o) for o in obs[i]):
                # e.g. a machine too busy to answer in time: only counts when it happens again
                confirmed -= 1
                unconfirmed.append((scs[i].tag, rej[i]))
                continue
            # observed once: what was recorded really happened (an outcome that depends on chance)
            ctx.rejects.append({
                "suite": name, "module": module, "tag": scs[i].tag, "step": rej[i][0], "why": rej[i][1],
                "reproduced": "0 of %d" % times[i], "case": scs[i].case, "env": scs[i].env, "record": recs[i], "raw": obs[i]})
            continue
        h = hits[0]
        ctx.rejects.append({
            "suite": name, "module": module, "tag": scs[i].tag, "step": rej2[h][0], "why": rej2[h][1],
            "reproduced": "%d of %d" % (len(hits), times[i]), "case": again[h].case, "env": scs[i].env,
            "record": recs2[h], "raw": obs2[h],
        })
    if unconfirmed:
        ctx.extra.setdefault("unconfirmed", []).append(str(unconfirmed)[:500])
    return confirmed


def clip(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def conclude(ctx, assumptions=()):
    viol, seen = [], set()
    for k, r in enumerate(ctx.rejects):
        hit = None
        for f in known_findings():
            if f["property"] == ctx.prop and re.search(f["match"], r["suite"] + " " + r["tag"] + " " + r["why"]):
                hit = f
        if hit:
            if hit["what"] not in seen:
                print("KNOWN-FINDING: property=%s %s" % (ctx.prop, hit["what"]))
                seen.add(hit["what"])
            continue
        p = save_replay(ctx, re.sub(r"\W", "_", r["suite"]), k, r)
        print("rejected by %s (%s, reproduced %s): step %s: %s" % (r["module"], r["tag"], r["reproduced"], r["step"], r["why"][:600]))
        viol.append(p)
    return finish(ctx, viol, assumptions)
