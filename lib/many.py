"""Several encoders and decoders at once (C19): groups of scripts, interleaved
step by step as the group says or run in parallel, each one's share of what
happened against CodecTrace.tla (Many.tla says why each may be judged alone)."""
import concurrent.futures as cf
import json, random, time
import core, gen, codec, cimpl
from core import blank, CheckError

def groups(r, cases, n, most):
    """n groups of up to most cases, with an order of their steps."""
    for _ in range(n):
        k = r.randrange(2, most + 1)
        g = [r.choice(cases) for _ in range(k)]
        if r.random() < 0.2: g = [g[0]] * k            # all do the same
        t = [i for i, c in enumerate(g) for _ in range(len(c["s"]) + 1)]
        x = r.random()
        if x < 0.6: r.shuffle(t)
        elif x < 0.8:                                   # in turns
            t = [i for j in range(max(len(c["s"]) for c in g) + 1) for i in range(k)]
        else:                                           # one inside the other
            a = t.index(1); cut = r.randrange(1, a + 1)
            t = t[:cut] + t[a:] + t[cut:a]
        yield {"g": g, "t": t}

def crowds(r, cases, n):
    """n groups of hundreds of users that each do little; all of them are there
    before the first one finishes."""
    tiny = [c for c in cases if len(c["s"]) <= 5 and len(json.dumps(c["s"])) < 600]
    for i in range(n):
        k = [330, 60, 130, 200, 600][i % 5]
        # half of them write a little to a storage of their own
        own = lambda: dict(gen.rt([gen.item(r, r.randrange(7, 16)) for _ in range(r.randrange(1, 4))]), id=0)
        g = [own() if r.random() < 0.5 else r.choice(tiny) for _ in range(k)]
        t = [i for i, c in enumerate(g) for _ in range(len(c["s"]))]
        r.shuffle(t)
        yield {"g": g, "t": list(range(k)) + t}

def fits(im, g):
    g = dict(g)
    if im == "c" and any(sum(s["o"] == "D" and s["k"] in (4, 5, 6) for s in c["s"]) > 6 for c in g["g"]): return None
    if len(g["g"]) > 400 and im == "c": return None
    return g if all(gen.supports(im, c) for c in g["g"]) else None

def one(im, cmd, gs, judge, envx=None):
    """Runs the groups; [trace] for validation."""
    if im == "c": res = cimpl.run(cmd, gs)
    else: res = core.run_driver(cmd, gs, envx=envx)
    traces = []
    for g in gs:
        r = res.get(g["id"])
        if r is None: continue
        if r and isinstance(r[0], dict): r = [r]        # died or hung as a whole
        for i, ev in enumerate(r): traces.append({"id": g["id"], "d": im, "j": judge, "ev": ev, "u": i})
    return traces

def run(chk, impls, families, judge):
    deep = chk.tier != "quick"
    scale = 4 if deep else 1
    budget = 600 if deep else 40
    with cf.ThreadPoolExecutor(3) as ex:
        models = [("MCMany", "MCManyThree.cfg")] + ([("MCMany", "MCMany.cfg")] if deep else [])
        mc = ex.submit(lambda: ([core.model_check(m, c, workers=3, timeout=800) for m, c in models], core.model_fails("MCMany", "MCManyShared.cfg")))
        cmds = core.build_impls(impls)
        race = {}
        if "go1" in impls:
            b = core.build_go(["codec1", "codec2"], race=True)
            race = {"go1": [b["codec1"]], "go2": [b["codec2"]]}
        runs = [(im, cmds[im], False, None) for im in impls] + \
               [(im, cmds[im], True, None) for im in impls if im in ("go1", "go2", "rs")] + \
               [(im, race[im], True, core.env(GORACE="halt_on_error=1 exitcode=66")) for im in race]
        rnd = 0
        while True:
            t0 = time.time()
            r = random.Random("%s %d %d" % (chk.pid, chk.seed, rnd)); r.round = rnd
            cases = list(families(r, scale))
            for i, c in enumerate(cases): c["id"] = i
            inter = list(groups(r, cases, 260 * scale, 5))
            small = [c for c in cases if sum(gen.supports(im, c) for im in ("rs", "c")) == 2]
            inter += list(groups(r, small, 160 * scale, 4))
            fit = [c for c in small if sum(s["o"] == "D" and s["k"] in (4, 5, 6) for s in c["s"]) <= 6]
            inter += list(groups(r, fit, 120 * scale, 6))
            par = [dict(g, t=[]) for g in groups(r, cases, 60 * scale, 16)] + [dict(g, t=[]) for g in groups(r, small, 40 * scale, 16)]
            inter += list(crowds(r, fit, 3 * scale))
            par += [dict(g, t=[]) for g in crowds(r, fit, 2 * scale)]
            inter, par = gen.number(inter), gen.number(par)
            def job(x):
                im, cmd, parallel, envx = x
                gs = [h for h in (fits(im, g) for g in (par if parallel else inter)) if h]
                return x, gs, one(im, cmd, gs, judge, envx)
            traces = []
            for (im, _, parallel, envx), gs, ts in ex.map(job, runs):
                if not gs: raise CheckError("no group for %s" % im)
                chk.extra.setdefault("groups", {})
                key = im + (" parallel" if parallel else "") + (" race" if envx else "")
                chk.extra["groups"][key] = chk.extra["groups"].get(key, 0) + len(gs)
                by = {g["id"]: g for g in gs}
                for t in ts: t["grp"] = (by[t["id"]], key)
                traces += ts
            plain = [{k: t[k] for k in ("id", "d", "j", "ev")} for t in traces]
            rej, st = core.validate("CodecTrace", "CodecTrace.cfg", plain, "CodecTraceWhere.cfg", tag=chk.pid)
            chk.traces(len(plain), sum(len(t["ev"]) for t in plain), st)
            for t in plain[:: max(1, len(plain) // 3)]:
                chk.sample({"impl": t["d"], "events": [{k: v for k, v in e.items() if v not in ([], -1, "", 0)} for e in t["ev"][:8]]}, 3)
            for i, pos in rej:
                g, how = traces[i]["grp"]
                u = traces[i]["u"]
                c = g["g"][min(u, len(g["g"]) - 1)]
                key = "%s %s" % (how, json.dumps(c["s"], sort_keys=True, separators=(",", ":"))[:1500])
                chk.violation(key, "%s, user %d of %d: %s" % (how, u + 1, len(g["g"]), codec.describe(plain[i], pos)),
                              {"impl": how, "group": g, "user": u, "trace": plain[i]["ev"], "event": pos})
            rnd += 1
            if rej or chk.left(budget) < 1.5 * (time.time() - t0): break
        chk.note("rounds", rnd)
        ms, bad = mc.result()
        for m in ms: chk.model(m)
        chk.note("refuted_variants", 1)
