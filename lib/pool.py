"""C10: histories and schedules of the pools against PoolTrace.tla."""
import concurrent.futures as cf
import json, random
import core
from gen import enc, be

BIG = [[5, 10, 136, 39] + [97 + i % 26 for i in range(5000)] + [10, 7], [4, 10, 192, 12] + [i % 251 for i in range(1600)]]
INPUTS = [[5, 10, 2, 104, 105, 10, 150, 1, 0], [4, 10, 1, 7, 13, 255, 255, 1], [], [0, 0, 5, 10, 9, 1], [10, 128, 128]]

def script(h, what, r):
    """Concrete steps for a history of operation names."""
    s, size = [], {}
    for op, g in h:
        st = {"g": g}
        if op == "T":
            st.update({"o": "TD", "v": r.choice(BIG if r.random() < 0.04 else INPUTS)} if what == "dec" else {"o": "T"})
        elif op == "F": st.update({"o": "FD"} if what == "dec" else {"o": "F", "n": r.choice([0, 1, 100, 5000, -1, -2])})
        elif op == "P": st.update(o="P")
        elif op == "w": st.update(o="W", v=[g & 255, len(s) & 255, r.randrange(256)])
        elif op == "s": st.update(o="E", k=r.choice([5, 10, 13, 0, 4]))
        elif op == "W": st.update(o="W", v=[r.randrange(256) for _ in range(r.choice([509, 513, 700]))])
        elif op == "G": st.update(o="G", n=r.choice([1, 600, 2000, 5000, 70000, 1100000]))
        elif op == "B": st.update(o="M", v=[1])
        elif op == "R": st.update(o="R")
        elif op == "d": st.update(o="D", k=5)
        elif op == "x": st.update(o="D", k=r.choice([4, 0, 13]))
        elif op == "j": st.update(o="D", k=10)
        if st["o"] == "E":
            st["v"] = {5: list(b"text"), 10: be(300 + g, 4), 13: be(-7, 8), 0: [], 4: [1, 2, 3]}[st["k"]]
        if op == "B" and not size.get(g): st = {"g": g, "o": "S"}       # nothing to take back
        size[g] = (0 if st["o"] in ("T", "F", "R") else size.get(g, 0) + len(st["v"]) if st["o"] == "W" else
                   size[g] + len(enc(st["k"], 0, 0, st["v"])) if st["o"] == "E" else size.get(g, 0) - (st["o"] == "M"))
        s.append(st)
        if op == "P" and r.random() < 0.1: s.append({"o": "PN", "g": g})
    for g in sorted({x["g"] for x in s}):   # whoever still holds something looks at it once more
        held = False
        for x in s:
            if x["g"] == g: held = x["o"] not in ("P", "PN") if x["o"] != "PN" else held
        if held: s.append({"o": "S", "g": g} if what != "dec" else {"o": "D", "g": g, "k": 5})
    return s

def long_script(r, what, n, many=4):
    """n steps of many takers; with more than a few, all of them hold something
    at once before any gives it back."""
    hold, s, names = {}, [], []
    first = list(range(1, many + 1)) if many > 4 else []
    for _ in range(n):
        g = first.pop() if first else r.randrange(1, many + 1)
        if not hold.get(g): op = "F" if r.random() < 0.1 else "T"; hold[g] = 1
        elif r.random() < 0.3: op = "P"; hold[g] = 0
        else:
            op = r.choice("dxj" if what == "dec" else "wsGWSS" if hold[g] == 1 else "wsGWBBRS")
            if op in "wsW": hold[g] = 2
            if op == "R": hold[g] = 1
            if op == "B": hold[g] = 1
        names.append((op if op != "S" else "w", g))
    return script(names, what, r)

def run(chk):
    thorough = chk.tier == "thorough"
    sfx = "Deep" if thorough else ""
    with cf.ThreadPoolExecutor(4) as ex:
        fm = ex.submit(lambda: core.model_check("MCPool", "MCPool.cfg", workers=2))
        fneg = ex.submit(lambda: [core.model_fails("MCPool", c, workers=1) for c in ("MCPoolPush.cfg", "MCPoolNoClear.cfg")])
        fb = ex.submit(core.behaviours, "MCPoolGen", "MCPoolGenBuf%s.cfg" % sfx)
        fd = ex.submit(core.behaviours, "MCPoolGen", "MCPoolGenDec%s.cfg" % sfx)
        seqbin = core.build_go(["pool"])["pool"]
        racebin = core.build_go(["pool"], race=True)["pool"]
        hb, gb = fb.result(); hd, gd = fd.result()
        chk.model(fm.result()); chk.model(gb); chk.model(gd)
        chk.note("refuted_variants", [x["config"] for x in fneg.result()])
    r = random.Random("pool %d" % chk.seed)
    cases = [{"what": w, "s": script(h, w, r)} for w in ("own", "global") for h in (hb if w == "own" else r.sample(hb, 4000 if thorough else 800))]
    cases += [{"what": "dec", "s": script(h, "dec", r)} for h in hd]
    cases += [{"what": w, "s": long_script(r, w, 60)} for w in ("own", "global", "cross", "dec") for _ in range(200 if thorough else 60)]
    cases += [{"what": w, "s": long_script(r, w, 3 * m, m)} for w in ("own", "global", "cross", "dec") for m in (20, 40, 70, 100, 150) for _ in range(8 if thorough else 1)]
    chk.note("replayed_behaviours", len(hb) + len(hd))
    for i, c in enumerate(cases): c["id"] = i
    par = []
    for i in range(240 if thorough else 64):
        par.append({"what": ["own", "global", "cross", "dec"][i % 4], "par": r.choice([2, 3, 4, 8, 16]), "rounds": r.choice([3, 10, 20]),
                    "seed": r.randrange(1 << 30), "inputs": INPUTS, "s": []})
    for c in par:      # bound the length of one trace
        c["rounds"] = max(3, min(c["rounds"], 120 // c["par"]))
    for i, c in enumerate(par): c["id"] = len(cases) + i
    traces = []
    def collect(cmd, cs, envx=None, tag=""):
        res = core.run_driver(cmd, cs, timeout=300, envx=envx)
        for c in cs:
            if res.get(c["id"]) is not None:
                ev = [{"o": e["o"], "g": e.get("g", 0), "i": e.get("i", 0), "k": e["k"], "v": e["v"], "d": e["d"], "n": e["n"], "r": e["r"], "x": e["x"]} for e in res[c["id"]]]
                traces.append({"id": c["id"], "bool": "lenient" if c["what"] == "dec" else "strict", "ev": ev, "build": tag, "case": c})
    collect([seqbin], cases, tag="plain")
    for c in par: c["build"] = "race"
    ge = core.env(GORACE="halt_on_error=1 exitcode=66", GOMAXPROCS="8")
    collect([racebin], par, ge, "race")
    more = [dict(c, id=c["id"] + 100000) for c in par]
    collect([seqbin], more, core.env(GOMAXPROCS="8"), "plain")
    chk.note("concurrent_traces", len(par) + len(more))
    js = [{k: t[k] for k in ("id", "bool", "ev")} for t in traces]
    rej, st = core.validate("PoolTrace", "PoolTrace.cfg", js, "PoolTraceWhere.cfg", tag="C10")
    chk.traces(len(traces), sum(len(t["ev"]) for t in traces), st)
    for t in (traces[0], traces[len(cases) - 1], traces[-1]):
        chk.sample({"pool": t["case"]["what"], "build": t["build"], "events": [{k: v for k, v in e.items() if v not in ([], 0, "")} for e in t["ev"][:8]]})
    for i, pos in rej:
        t = traces[i]
        e = t["ev"][pos - 1] if 0 < pos <= len(t["ev"]) else {"o": "?"}
        chk.violation("%s %s" % (t["case"]["what"], json.dumps(t["case"]["s"])[:1500]),
                      "%s pool (%s build): event %d is no step of the specification: %s" %
                      (t["case"]["what"], t["build"], pos, json.dumps({k: v for k, v in e.items() if v not in ([], "")})[:400]),
                      {"case": t["case"], "trace": t["ev"], "event": pos})
