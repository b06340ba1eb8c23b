"""C11, C12: uses of the C library against CApiTrace.tla."""
import concurrent.futures as cf
import json, random, subprocess
import core, gen
from cimpl import _pay

BLOBS = (4, 5, 6)
ALLK = [0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]

def call(o, **kw):
    return {"o": o, "h": -1, "k": 0, "a": 0, "b": 0, "v": [], "n": 0, "s": -1, "nul": False, **kw}

def closing(h):
    """The calls that give back whatever a behaviour still holds."""
    e, d, v = {}, {}, {}
    for c in h:
        if c["o"] == "ne": e[c["h"]] = 1
        elif c["o"] == "fe": e.pop(c["h"], 0)
        elif c["o"] in ("nd", "no") and not c["nul"]: d[c["h"]] = 1
        elif c["o"] == "fd": d.pop(c["h"], 0)
        elif c["o"] == "de" and c["s"] >= 0: v[c["s"]] = c["k"]
        elif c["o"] == "fr": v.pop(c["s"], 0)
    return e, d, v

def line(c):
    o = c["o"]
    if o in ("ne", "fe", "sz", "fd", "fi", "ck"): return "%s %d" % (o, c["s"] if o == "ck" else c["h"])
    if o == "en": return "en %d %d %d %d %s" % (c["h"], c["k"], c["a"], c["b"], "-1" if c["nul"] else _pay(c["v"]))
    if o == "eb": return "eb %d %d" % (c["h"], -1 if c["nul"] else c["n"])
    if o == "nd": return "nd %d %s" % (c["h"], "-1" if c["nul"] else _pay(c["v"]))
    if o == "no": return "no %d %d" % (c["h"], c["a"])
    if o == "cl": return "cl %d %d" % (c["h"], c["n"])
    if o == "de": return "de %d %d %d %d %d" % (c["h"], c["k"], c["a"], c["b"], c["s"])
    if o == "fr": return "fr %d %d" % (c["s"], c["k"])
    if o == "wr": return "wr %d %d" % (c["s"], c["n"])
    if o == "mem": return "mem"
    raise core.CheckError("no such call " + o)

def expand(h, r, mem):
    """The calls of a behaviour with their prior status, observations after
    them, the return of everything held, and the memory account."""
    out, held = [], {}
    def put(c):
        out.append(("ps %d" % r.choice([0, 1, 2, 0x77, 255]), None)); out.append((line(c), c))
    for c in h:
        if c["o"] in ("fr", "wr", "ck") and c["s"] >= 0 and c["s"] not in held: continue
        put(c)
        if c["o"] == "de" and c["s"] >= 0: held[c["s"]] = c["k"]
        if c["o"] == "fr": held.pop(c["s"], 0)
        if c["o"] in ("fd", "fe", "cl", "fi", "fr", "wr", "de"):
            for s in held: put(call("ck", s=s))
        if mem and c["o"] in ("fd", "fe", "fr") and r.random() < 0.2: put(call("mem"))
    e, d, v = closing(h)
    last = [call("fe", h=x) for x in e] + [call("fd", h=x) for x in d]
    r.shuffle(last)
    free = [call("fr", s=s, k=held[s]) for s in held]
    r.shuffle(free)
    if r.random() < 0.5: last = last + free
    else: last = free + last
    for c in last: put(c)
    if mem: put(call("mem"))
    return out

def record(cmd, cases, tool=(), timeout=400):
    """{id: events}; a call during which the process dies ends the trace with
    an event that is no step of the specification."""
    res, todo, deaths = {}, list(cases), 0
    while todo:
        text = "".join("case %d\n%s\nend\n" % (c["id"], "\n".join(l for l, _ in c["calls"])) for c in todo)
        p = subprocess.Popen([*tool, *cmd], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             text=True, errors="replace", env=core.env())
        try: out, err = p.communicate(text, timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill(); p.communicate()
            raise core.CheckError("C driver timed out")
        by = {c["id"]: c for c in todo}
        cur, ans = None, []
        for l in out.split("\n"):
            if l.startswith("BEGIN "): cur, ans = int(l[6:]), []
            elif l == "END": res[cur] = join(by[cur], ans); cur = None
            elif l.startswith("{"):
                try: ans.append(json.loads(l))
                except ValueError: pass
        if p.returncode == 0 and cur is None: return res
        if cur is None: raise core.CheckError("C driver failed (%s): %s" % (p.returncode, err[-1500:]))
        res[cur] = join(by[cur], ans) + [ev({"o": "died"}, {})]
        deaths += 1
        if deaths > 30:
            for c in todo: res.setdefault(c["id"], None)
            return res
        todo = [c for c in todo if c["id"] not in res]
    return res

def ev(c, a):
    e = {"o": c["o"], "h": c.get("h", -1), "k": c.get("k", 0), "a": c.get("a", 0), "b": c.get("b", 0), "s": c.get("s", -1),
         "v": c.get("v", []), "n": c.get("n", 0), "st": a.get("st", -1), "null": a.get("null", False), "nul": c.get("nul", False), "ok": a.get("ok", True)}
    if c["o"] in ("eb", "de", "ck"): e["v"] = a["v"]
    if c["o"] in ("sz", "no"): e["n"] = a["n"]
    if c["o"] == "mem" and not a["vg"]: raise core.CheckError("the driver does not run under the memory checker")
    if c["o"] == "mem": e.update(n=a["n"], a=a["a"], b=a["b"])
    return e

def join(case, ans):
    cs = [c for _, c in case["calls"] if c is not None]
    return [ev(c, a) for c, a in zip(cs, ans)]

# -------------------------------------------------------------- behaviours

def payload(r, k):
    if k in BLOBS:
        x = r.random()
        if x < 0.2: return [r.randrange(256) for _ in range(r.randrange(0, 12))]
        return gen.text(r, r.choice([0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 63, 64, 100, 127, 128, 200])) if k != 4 else \
               [r.randrange(256) for _ in range(r.choice([0, 1, 2, 7, 8, 9, 16, 31, 32, 33, 64, 65, 127, 128, 200, 256, 257, 500, 1025]))]
    if k in (0, 3): return []
    if k in (1, 2): return gen.be(r.choice(gen.POOL[10]), 4)
    return gen.be(r.choice(gen.POOL[k]), gen.WIDTH[k])

def some_input(r):
    """(bytes, the kinds in them)"""
    x = r.random()
    its, ks = [], []
    for _ in range(r.randrange(1, 5)):
        k = r.choice(ALLK + [4, 5, 6])
        ks.append((k, r.choice(ALLK), r.choice(ALLK)))
        its.append(gen.enc(*ks[-1], payload(r, k)))
    s = sum(its, [])
    if x < 0.3 and s: s = s[:r.randrange(len(s))]
    elif x < 0.5 and s: s[r.randrange(len(s))] = r.randrange(256)
    elif x < 0.6: s = [r.choice([4, 5, 6, 1, 2, 10]) , 10] + [r.randrange(256) for _ in range(r.randrange(8))]
    return s, ks

def long_use(r, n, most=4, vals=12):
    """A caller with several live things that keeps the ownership rules."""
    e, d, v, h, cont = {}, {}, {}, [], {}      # d: kinds still to come; cont: kinds written
    for _ in range(n):
        x = r.random()
        if x < (0.06 if most < 9 else 0.2) and len(e) < most:
            i = min(set(range(most)) - set(e)); e[i] = 0; cont[i] = []; h.append(call("ne", h=i))
        elif x < 0.38:
            i = r.choice(list(e) + ([-1] if r.random() < 0.1 or not e else []))
            k = r.choice(ALLK + [4, 5, 6]); nul = k in BLOBS and r.random() < 0.08
            if i >= 0 and e[i] > 25: continue
            if i >= 0: e[i] += 1
            h.append(call("en", h=i, k=k, a=r.choice(ALLK + [16]), b=r.choice(ALLK), v=payload(r, k), nul=nul))
            if nul: h[-1]["v"] = []
            elif i >= 0: cont[i].append((k, h[-1]["a"], h[-1]["b"]))
        elif x < 0.42: h.append(call("sz", h=r.choice(list(e) + [-1])))
        elif x < 0.46:
            i = r.choice(list(e) + [-1])
            h.append(call("eb", h=i, n=r.randrange(0, 60), nul=r.random() < 0.15))
        elif x < (0.54 if most < 9 else 0.6) and len(d) < most:
            i = min(set(range(most)) - set(d))
            if e and r.random() < 0.5: h.append(call("no", h=i, a=r.choice(list(e)))); d[i] = list(cont[h[-1]["a"]])
            elif r.random() < 0.1: h.append(call("nd", h=i, nul=True))
            else:
                x, d[i] = some_input(r); h.append(call("nd", h=i, v=x))
        elif x < 0.80 and (d or r.random() < 0.1):
            i = r.choice(list(d) + ([-1] if r.random() < 0.1 or not d else []))
            k, a, b = r.choice(ALLK), r.choice(ALLK), r.choice(ALLK)
            if i >= 0 and d[i] and r.random() < 0.75: k, a, b = d[i].pop(0)
            c = call("de", h=i, k=k, a=a, b=b)
            if k in BLOBS:
                f = set(range(vals)) - set(v)
                if not f: continue
                c["s"] = min(f)
                if i >= 0: v[c["s"]] = k
                else: c["s"] = -1
            h.append(c)
        elif x < 0.84 and d: h.append(call(r.choice(["cl", "fi"]), h=r.choice(list(d)), n=r.randrange(256)))
        elif x < 0.90 and v:
            s = r.choice(list(v)); h.append(call("fr", s=s, k=v.pop(s)))
        elif x < 0.92 and v:
            h.append(call("wr", s=r.choice(list(v)), n=r.randrange(1, 128)))
        elif x < 0.94: h.append(call("fr", s=-1, k=r.choice(BLOBS)))
        elif x < 0.97 and d:
            i = r.choice(list(d)); d.pop(i); h.append(call("fd", h=i))
        elif x < 0.98 and e:
            i = r.choice(list(e)); e.pop(i); h.append(call("fe", h=i))
        else: h.append(call(r.choice(["fd", "fe"]), h=-1))
    return h

def matrix():
    """Every function with every combination of null and valid pointers, on
    success and on failure."""
    for k in ALLK:
        r = random.Random(k)
        for v in [payload(r, k) for _ in range(3)]:
            h = [call("ne", h=0)]
            for hd in (0, -1):
                for nul in ((False, True) if k in BLOBS else (False,)):
                    h.append(call("en", h=hd, k=k, a=8, b=5, v=[] if nul else v, nul=nul))
            h += [call("sz", h=0), call("sz")]
            for n in (0, 1, 400):
                h += [call("eb", h=hd, n=n, nul=nul) for hd in (0, -1) for nul in (False, True)]
            h += [call("no", h=0, a=0), call("nd", h=1, nul=True), call("fe", h=0)]
            for q in ALLK:
                h.append(call("de", h=0, k=q, a=8, b=5, s=0 if q in BLOBS else -1))
                if q in BLOBS: h += [call("ck", s=0), call("fr", s=0, k=q)]
                h.append(call("de", k=q))
            h += [call("fd", h=0), call("fd"), call("fe")] + [call("fr", k=q) for q in BLOBS]
            yield h
    for bad in ([195], [97, 255], [237, 160, 128], [97, 0, 98], [0], [240, 144], [244, 144, 128, 128]):
        for k in BLOBS:
            yield [call("ne", h=0), call("en", h=0, k=8, v=[1]), call("en", h=0, k=k, v=bad), call("sz", h=0), call("en", h=0, k=8, v=[2]),
                   call("nd", h=0, v=[k, 10, len(bad)] + bad + [8, 7]), call("de", h=0, k=k, s=0), call("ck", s=0), call("de", h=0, k=8), call("de", h=0, k=4, s=1)]

def sim(seed, num):
    r = core.tlc("MCCApiGen", "MCCApiSim.cfg", workers=1, timeout=400, extra=("-simulate", "num=%d" % num, "-seed", str(seed), "-depth", "100"))
    hs = [json.loads(json.loads(l)[1:]) for l in r.stdout.split("\n") if l.startswith('"H[')]
    if not hs: raise core.CheckError("no behaviours simulated:\n" + r.stdout[-1500:])
    return hs

VG = ["valgrind", "-q", "--error-exitcode=0", "--leak-check=no", "--undef-value-errors=yes", "--log-file=/dev/null", "--track-origins=no", "--num-callers=4"]

def run(chk, mem):
    thorough = chk.tier == "thorough"
    r = random.Random("capi %d %d" % (chk.seed, mem))
    with cf.ThreadPoolExecutor(4) as ex:
        fm = ex.submit(core.model_check, "MCCApi", "MCCApi.cfg", 800, 4)
        fg = ex.submit(core.behaviours, "MCCApiGen", "MCCApiGenDeep.cfg" if thorough else "MCCApiGen.cfg", 600)
        fs = ex.submit(sim, chk.seed, 2000 if thorough else 300)
        cmd = [core.build_c()]
        hs, g = fg.result(); long = fs.result()
        chk.model(fm.result()); chk.model(g)
    n = len(hs)
    cap = (60000 if thorough else 8000) if mem else (120000 if thorough else 12000)
    if n > cap: hs = r.sample(hs, cap)
    use = [long_use(r, r.choice([20, 60, 120])) for _ in range((1500 if thorough else 150) if mem else (6000 if thorough else 600))]
    # many things alive at once
    use += [long_use(r, 500, 100, 200) for _ in range(40 if thorough else 6)]
    beh = list(matrix()) + hs + long + use
    r2 = random.Random("expand %d" % chk.seed)
    cases = [{"id": i, "calls": expand(h, r2, mem)} for i, h in enumerate(beh)]
    chk.note("enumerated_behaviours", n); chk.note("enumerated_replayed", len(hs))
    chk.note("simulated_behaviours", len(long)); chk.note("other_uses", len(use))
    res = {}
    if mem:
        warm = [{"id": 10 ** 8, "calls": cases[0]["calls"]}]
        parts = [warm + cases[i::8] for i in range(8)]
        with cf.ThreadPoolExecutor(8) as ex:
            for x in ex.map(lambda p: record(cmd, p, VG, 800), parts): res.update(x)
    else:
        res = record(cmd, cases)
    traces = [{"id": c["id"], "ev": res[c["id"]]} for c in cases if res.get(c["id"]) is not None]
    rej, st = core.validate("CApiTrace", "CApiTrace.cfg", traces, "CApiTraceWhere.cfg", tag="C1x")
    chk.traces(len(traces), sum(len(t["ev"]) for t in traces), st)
    for t in (traces[0], traces[len(traces) // 2], traces[-1]):
        chk.sample([{k: v for k, v in e.items() if v not in ([], False)} for e in t["ev"][:10]])
    for i, pos in rej:
        t = traces[i]
        e = t["ev"][pos - 1] if 0 < pos <= len(t["ev"]) else {"o": "?"}
        chk.violation("calls %s" % "; ".join(l for l, c in cases[t["id"]]["calls"] if c is not None)[:1500],
                      "event %d is no step of the specification: %s" % (pos, json.dumps(e)[:400]),
                      {"commands": [l for l, _ in cases[t["id"]]["calls"]], "trace": t["ev"], "event": pos})
