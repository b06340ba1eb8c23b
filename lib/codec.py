"""Codec properties: scripts through every implementation, traces against
CodecTrace.tla, and the bounded model MCCodec."""
import concurrent.futures as cf
import json, random, time
import core, gen, cimpl

GEN_CAP = 400

def run_impl(impl, cmd, cases, timeout=150, envx=None):
    if impl == "c":
        return cimpl.run([cmd[0] + "_mem"] if envx else cmd, cases)
    return core.run_driver(cmd, cases, timeout=timeout, envx=envx)

def describe(tr, pos):
    ev = tr["ev"]
    if 0 < pos <= len(ev):
        e = ev[pos - 1]
        inp = next((x["v"] for x in reversed(ev[:pos]) if x["o"] == "L"), None)
        keep = {k: e[k] for k in ("o", "k", "a", "b", "v", "d", "n", "r", "e", "p", "c", "ok", "mem", "x")
                if e[k] not in (-1, "", [], 0) or k == "o"}
        return "%s: event %d is no step of the specification: %s%s" % (
            tr.get("im", tr["d"]), pos, json.dumps(keep)[:300], "" if inp is None else " input " + json.dumps(inp)[:160])
    return "%s: trace rejected" % tr.get("im", tr["d"])

def judge_batch(chk, cmds, impls, cases, judge, tag, memory=False, workers=8):
    """Runs the cases on every implementation that can express them and
    validates what happened."""
    traces, by = [], {c["id"]: c for c in cases}
    envx = core.env(DRV_MEM="1") if memory else None
    def one(im):
        base = im.split("_")[0]            # go1_386 is go1 where int has 32 bits
        cs = [c for c in cases if gen.supports(base, c) and ("impls" not in c or im in c["impls"])]
        return im, cs, (run_impl(im, cmds[im], cs, envx=envx) if cs else {})
    with cf.ThreadPoolExecutor(5) as ex:
        for im, cs, res in ex.map(one, impls):
            n = 0
            for c in cs:
                if res.get(c["id"]) is not None:
                    traces.append({"id": c["id"], "d": im.split("_")[0], "im": im, "j": judge, "ev": res[c["id"]]}); n += 1
            chk.extra.setdefault("traces_per_implementation", {}).setdefault(im, 0)
            chk.extra["traces_per_implementation"][im] += n
    rej, st = core.validate("CodecTrace", "CodecTrace.cfg", traces, "CodecTraceWhere.cfg", tag=tag, workers=workers)
    chk.traces(len(traces), sum(len(t["ev"]) for t in traces), st)
    for t in traces[:: max(1, len(traces) // 3)]:
        chk.sample({"impl": t["d"], "events": [{k: v for k, v in e.items() if v not in ([], -1, "", 0)} for e in t["ev"][:8]]}, 3)
    for i, pos in rej:
        t = traces[i]
        key = "%s %s" % (t.get("im", t["d"]), json.dumps(by[t["id"]]["s"], sort_keys=True, separators=(",", ":"))[:2000])
        chk.violation(key, describe(t, pos), {"impl": t.get("im", t["d"]), "case": by[t["id"]], "trace": t["ev"], "event": pos})
    return len(rej)

def script(h):
    """The script of a behaviour printed by TLC."""
    return gen.mk({k: v for k, v in h[0].items() if k != "o"} if h[0]["m"] else {}, [dict(s) for s in h[1:]] + [dict(gen.Z)])

def simulate(cfg, seed, num):
    r = core.tlc("MCCodecGen", cfg, workers=1, timeout=400, extra=("-simulate", "num=%d" % num, "-seed", str(seed), "-depth", "100"))
    hs = [json.loads(json.loads(l)[1:]) for l in r.stdout.split("\n") if l.startswith('"H[')]
    if not hs: raise core.CheckError("no behaviours simulated:\n" + r.stdout[-1500:])
    return hs

def enumerated(chk, gens):
    """Behaviours of the specification: enumerated to a depth, and long ones simulated."""
    deep = chk.tier != "quick"
    def one(g):
        if g.startswith("MCCodecSim"): return simulate(g + ".cfg", chk.seed, 3000 if deep else 250), None
        return core.behaviours("MCCodecGen", g + ("Deep.cfg" if deep else ".cfg"), 600)
    with cf.ThreadPoolExecutor(3) as ex: return list(ex.map(one, gens))

def run(chk, impls, families, judge, models, memory=False, budget=None, gens=(), shape=None):
    """families: function(random, scale) -> list of scripts; gens: generator
    specifications whose behaviours are run as well."""
    scale = 1 if chk.tier == "quick" else 4
    budget = budget or (40 if chk.tier == "quick" else 600)
    with cf.ThreadPoolExecutor(3) as ex:
        mc = ex.submit(lambda: [core.model_check(m, c, workers=4, timeout=800) for m, c in models])
        fg = ex.submit(enumerated, chk, gens)
        cmds = core.build_impls(impls)
        impls = [i for i in impls if i in cmds]
        pools = []
        for g, (hs, st) in zip(gens, fg.result()):
            if st: chk.model(st)
            random.Random("%s %s %d" % (chk.pid, g, chk.seed)).shuffle(hs)
            pools.append(hs)
        replayed = 0
        rnd, n = 0, 0
        while True:
            r = random.Random("%s %d %d" % (chk.pid, chk.seed, rnd))
            r.round = rnd
            cases = list(families(r, scale))
            for g, hs in zip(gens, pools):
                some, hs[:] = hs[:GEN_CAP * scale], hs[GEN_CAP * scale:]
                replayed += len(some)
                cases += [(shape or (lambda c: c))(script(h)) for h in some]
            cases = gen.number(cases)
            t = time.time()
            bad = judge_batch(chk, cmds, impls, cases, judge, chk.pid, memory, workers=5 if not mc.done() else 8)
            rnd += 1
            took = time.time() - t
            if bad or chk.left(budget) < 1.5 * took:
                break
        chk.note("rounds", rnd)
        if gens: chk.note("specification_behaviours_replayed", replayed); chk.note("specification_behaviours_left", sum(map(len, pools)))
        for m in mc.result():
            chk.model(m)
