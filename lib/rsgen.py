"""C20: the Rust code generators (of both Go modules) and the code they generate."""
import concurrent.futures as cf
import json, os, random, re, shutil, time
import core, msg
from gen import *
from msg import MSG, KIND, E, D, field, schema, spec, encm, mutate, count, be

WORDS = """as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self
static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof
unsized virtual yield try gen union _""".split()
TAKEN = """Encode Decode Encoder Decoder Kind DecodingError Cursor HashMap TryFrom TryFromPrimitive Vec String Option Box Result Ok Err
Some None Self Sized""".split()

def snake(n):
    out, run = "", False
    for c in n:
        if "A" <= c <= "Z":
            if out and not run: out += "_"
            out += c.lower(); run = True
        else: out += c; run = False
    return out

def usable(s):
    """Names that are names in Rust too, and messages of finite size."""
    for i, m in enumerate(s["msgs"], 1):
        ns = [snake(f["n"]) for f in m["fields"]]
        if len(set(ns)) != len(ns) or any(n in WORDS for n in ns): return False
        for f in m["fields"]:
            if f["c"] == "one" and f["p"] == 11 and (f["m"] == i or msg.reach(s, f["m"], i, {f["m"]})): return False
    ts = [msg.tname(s, i) for i in range(1, len(s["msgs"]) + 1)] + [msg.ename(s, i) for i in range(1, len(s["enums"]) + 1)]
    if len(set(ts)) != len(ts) or any(t in TAKEN for t in ts): return False
    return not any(v in WORDS or v == "Self" for e in s["enums"] for v in e["values"])

# ------------------------------------------------------------------- values

def scalar(r, f):
    if f.get("en"): return be(r.randrange(f["en"]), 4)
    while True:
        v = msg.scalar(r, f)
        if f["k"] != STR or is_utf8(v): return v

def value(r, S, m, depth, many=0.0, left=None):
    left = [250] if left is None else left                            # elements still to be spent
    v = [1]
    for f in S[m - 1]:
        left[0] -= 1
        one = lambda d=depth - 1: value(r, S, f["m"], d, many, left) if f["k"] == MSG else scalar(r, f)
        if f["c"] == "one": v.append(one(depth)); continue
        n = 0 if depth <= 0 or r.random() < 0.15 else r.choice([1, 1, 2, 3, 5])
        if n and r.random() < many: n = r.choice([9, 33, 64, 127, 128, 129, 255, 256, 257])
        n = max(0, min(n, left[0]))
        left[0] -= n
        if f["c"] == "list": v.append([one() for _ in range(n)])
        else: v.append([[json.loads(k), one()] for k in {str(scalar(r, {"k": f["kk"]})): 0 for _ in range(n)}])
    return v

def small(r, S, m, depth): return value(r, S, m, depth, 0.2 if r.random() < 0.15 else 0)

def complete(S, m, v, top=True):
    """Whether no message within another is absent, and every enum value is declared."""
    if v == []: return top
    for f, x in zip(S[m - 1], v[1:]):
        for y in [x] if f["c"] == "one" else x if f["c"] == "list" else [e[1] for e in x]:
            if f["k"] == MSG and not complete(S, f["m"], y, False): return False
            if f.get("en") and num(y) >= f["en"]: return False
            if f["k"] == STR and not is_utf8(y): return False
    return True

# --------------------------------------------------------------------- glue

def conv(s, f, p=None):
    """(from a value, to a value) of one element, as closures."""
    p = f["p"] if p is None else p
    k = KIND.get(p)
    if p == 11: return "from%d" % f["m"], "to%d" % f["m"]
    if p == 14: return "efrom%d" % f["e"], "eto%d" % f["e"]
    w = {BOOL: ("conv::num(v) != 0", "conv::be(*x as u64, 1)"), I32: ("conv::num(v) as u32 as i32", "conv::be(*x as u32 as u64, 4)"),
         I64: ("conv::num(v) as i64", "conv::be(*x as u64, 8)"), U32: ("conv::num(v) as u32", "conv::be(*x as u64, 4)"),
         U64: ("conv::num(v)", "conv::be(*x, 8)"), F32: ("f32::from_bits(conv::num(v) as u32)", "conv::be(x.to_bits() as u64, 4)"),
         F64: ("f64::from_bits(conv::num(v))", "conv::be(x.to_bits(), 8)"),
         STR: ("::std::string::String::from_utf8(conv::bytes(v)).unwrap()", "conv::ints(x.as_bytes())"), BYTES: ("conv::bytes(v)", "conv::ints(x)")}[k]
    t = {BOOL: "bool", I32: "i32", I64: "i64", U32: "u32", U64: "u64", F32: "f32", F64: "f64", STR: "::std::string::String", BYTES: "::std::vec::Vec<u8>"}[k]
    return "(|v: &Value| -> %s { %s })" % (t, w[0]), "(|x: &%s| -> Value { %s })" % (t, w[1])

def glue(s):
    """Conversions for the messages of a schema.  They construct every message from exactly the declared fields."""
    o = ["use serde_json::{json, Value}; use crate::conv; use std::io::Cursor;"]
    for i, e in enumerate(s["enums"], 1):
        t = "g::" + msg.ename(s, i)
        o.append("fn efrom%d(v: &Value) -> %s { match conv::num(v) { %s _ => panic!() } }" % (i, t, " ".join("%d => %s::%s," % (j, t, x) for j, x in enumerate(e["values"]))))
        o.append("fn eto%d(x: &%s) -> Value { conv::be(*x as u32 as u64, 4) }" % (i, t))
    for i, m in enumerate(s["msgs"], 1):
        t = "g::" + msg.tname(s, i)
        a, b = [], []
        for j, f in enumerate(m["fields"], 1):
            fr, to = conv(s, f)
            n = snake(f["n"])
            if f["c"] == "one": a.append("%s: %s(&v[%d])" % (n, fr, j)); b.append("%s(&x.%s)" % (to, n))
            elif f["c"] == "list": a.append("%s: conv::list(&v[%d], %s)" % (n, j, fr)); b.append("conv::ulist(&x.%s, %s)" % (n, to))
            else:
                kf, kt = conv(s, f, f["kp"])
                a.append("%s: conv::map(&v[%d], %s, %s)" % (n, j, kf, fr)); b.append("conv::umap(&x.%s, %s, %s)" % (n, kt, to))
        o.append("fn from%d(v: &Value) -> %s { %s { %s } }" % (i, t, t, ", ".join(a)))
        o.append("fn to%d(x: &%s) -> Value { json!([1%s]) }" % (i, t, "".join(", " + y for y in b)))
    n = range(1, len(s["msgs"]) + 1)
    o.append("fn enc(m: usize, v: &Value, b: &mut Cursor<::std::vec::Vec<u8>>) -> (bool, bool) { match m { %s _ => panic!() } }" % " ".join(
        "%d => { let x = from%d(v); let was = to%d(&x); let r = g::Encode::encode(&x, b).is_ok(); (r, to%d(&x) == was) }" % (i, i, i, i) for i in n))
    o.append("fn dec(m: usize, c: &mut Cursor<&mut ::std::vec::Vec<u8>>) -> (::std::result::Result<::std::option::Option<Value>, ::std::string::String>, u64) { match m { %s _ => panic!() } }" % " ".join(
        "%d => { let m0 = conv::used(); let r = <g::%s as g::Decode>::decode(c); let n = conv::used() - m0; (r.map(|o| o.map(|x| to%d(&x))).map_err(|e| e.to_string()), n) }" % (i, msg.tname(s, i), i) for i in n))
    o.append("fn enums(m: usize) -> ::std::vec::Vec<u32> { match m { %s _ => panic!() } }" % " ".join(
        "%d => vec![%s]," % (i, ", ".join("g::%s::%s as u32" % (msg.ename(s, i), x) for x in e["values"])) for i, e in enumerate(s["enums"], 1)))
    o.append("pub fn reg() -> crate::Reg { crate::Reg { enc, dec, enums } }")
    return "\n".join(o)

# ------------------------------------------------------------------- builds

GENS = ("rs1", "rs2")                      # the generators of the two Go modules

def tools():
    with core.Lock("rsgen"):
        out = os.path.join(core.BUILD, "bin")
        os.makedirs(out, exist_ok=True)
        g, p = core._harness_copy("gen/gentool"), core._harness_copy("gen/rsplugin")
        with cf.ThreadPoolExecutor(3) as ex:
            for x in [ex.submit(core.sh, *a) for a in (
                (["go", "build", "-o", os.path.join(out, "gentool_rs"), "."], g, 600),
                (["go", "build", "-mod=readonly", "-o", os.path.join(out, "plugin_rs1"), "./protoc-gen-rs-polyglot"], core.REPO, 600),
                (["go", "build", "-o", os.path.join(out, "plugin_rs2"), "."], p, 600))]: x.result()
    return os.path.join(out, "gentool_rs")

def body(t): return re.sub(r"^\s*(//.*)?$", "", t, flags=re.M)

def build(gentool, schemas):
    """Generates with both generators, and compiles each different output once.
    Returns (driver, {(gen, id): {r, ok, x, mod}})."""
    w = os.path.join(core.BUILD, "gen", "rs")
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    for s in schemas: s["dir"] = "p%d" % s["id"]
    res, mods, texts = {}, {}, {}
    def gen(g):
        return g, core.sh([gentool, os.path.join(core.BUILD, "bin", "plugin_" + g), os.path.join(w, g)], input="".join(json.dumps(s) + "\n" for s in schemas), timeout=400)
    with cf.ThreadPoolExecutor(2) as ex:
        for g, r in ex.map(gen, GENS):
            for l in r.stdout.splitlines():
                j = json.loads(l)
                res[g, j["id"]] = {"r": "ok" if j["ok"] else "generator", "ok": j["same"], "x": j["err"][:300], "names": j["names"] or []}
                if not j["ok"]: continue
                t = open(j["files"][0]).read() if len(j["files"]) == 1 and j["files"][0].endswith(".rs") else None
                if t is None: res[g, j["id"]].update(r="generator", x="expected one Rust file, got %s" % j["files"]); continue
                k = (j["id"], body(t))
                if k not in mods:
                    mods[k] = "m%d" % len(mods)
                    texts[mods[k]] = (j["id"], j["files"][0])
                res[g, j["id"]]["mod"] = mods[k]
    with core.Lock("rsdrv"):
        d = core._harness_copy("gen/rsdrv")
        by = {s["id"]: s for s in schemas}
        for m, (i, f) in texts.items():
            shutil.copy(f, os.path.join(d, "src", m + "_gen.rs"))
            inside = not by[i]["param"] or "private" in by[i]["param"]       # private fields are seen from within only
            os.makedirs(os.path.join(d, "src", m))
            open(os.path.join(d, "src", m + ".rs"), "w").write('#![allow(warnings)]\ninclude!("%s_gen.rs");\n%s' % (m, "#[path = \"%s/glue.rs\"] pub mod glue;\n" % m if inside else ""))
            open(os.path.join(d, "src", m, "glue.rs") if inside else os.path.join(d, "src", m + "_glue.rs"), "w").write(
                "#![allow(warnings)]\nuse %s as g;\n%s\n" % ("super" if inside else "crate::reg::" + m, glue(by[i])))
            texts[m] += (inside,)
        live, bad = sorted(texts, key=lambda m: int(m[1:])), {}
        while True:
            reg = "".join('#[path = "%s.rs"]\npub mod %s;\n' % (m, m) + ("" if texts[m][2] else '#[path = "%s_glue.rs"]\nmod %s_glue;\n' % (m, m)) for m in live)
            reg += "pub fn get(m: i64) -> crate::Reg { match m { %s _ => panic!() } }\n" % " ".join(
                "%s => %s::reg()," % (m[1:], m + "::glue" if texts[m][2] else m + "_glue") for m in live)
            open(os.path.join(d, "src", "reg.rs"), "w").write(reg)
            t = os.path.join(core.BUILD, "rsdrv")
            for p in ("polyglot_rs", "rsdrv"):
                core.sh(["cargo", "clean", "--offline", "-q", "-p", p], cwd=d, envx=core.env(CARGO_TARGET_DIR=t), check=False)
            r = core.sh(["cargo", "build", "--offline", "-q", "--message-format", "short"], cwd=d, envx=core.env(CARGO_TARGET_DIR=t), check=False, timeout=600)
            if r.returncode == 0: break
            now = {}
            for l in r.stderr.splitlines():
                x = re.match(r"\s*(?:--> )?src/(m\d+)[_./]\S*: error", l)
                if x: now.setdefault(x.group(1), []).append(l)
            if not now: raise core.CheckError("cargo build of generated modules failed:\n" + r.stderr[-3000:])
            bad.update(now)
            live = [m for m in live if m not in bad]
            if not live: break
        drv = None
        if live:
            drv = os.path.join(core.BUILD, "bin", "rsdrv")
            shutil.copy2(os.path.join(t, "debug", "rsdrv"), drv)
    for v in res.values():
        if v.get("mod") in bad: v.update(r="compile", x="; ".join(bad[v["mod"]][:2])[:300])
    return drv, res

# -------------------------------------------------------------------- check

def steps(r, S, s, n):
    ms = list(range(1, len(S) + 1))
    yield from ({"o": "U", "m": i} for i in range(1, len(s["enums"]) + 1))
    if not ms: return
    total = 0                                                          # bytes to be judged, about
    def inp(m, x):
        nonlocal total
        total += len(x)
        return D(m, inp=x)
    for _ in range(n):
        if total > 15000: break
        yield {"o": "R"}
        es = []
        for _ in range(r.randrange(1, 5)):
            m, x = r.choice(ms), r.random()
            if x < 0.12: yield {"o": "X", "m": m, "in": list(r.choice([b"", b"boom", "gr\u00fc\u00df".encode(), b"x" * 200]))}; es.append(0)
            else:
                v = small(r, S, m, r.choice([0, 1, 2, 3]))
                total += 3 * len(encm(S, m, v))
                yield E(m, v); es.append(m)
            if r.random() < 0.4: yield {"o": "K", "k": r.choice([0, 5, 10, 1])}
            yield D(m, len(es), cut=r.choice([-1, 0]))
        for j, m in enumerate(es, 1):
            if r.random() < 0.6: yield D(m or r.choice(ms), j, cut=r.choice([-1, 0, 0]))
            if r.random() < 0.15: yield D(r.choice(ms), j, cut=0)
        m = r.choice(ms)
        base = encm(S, m, small(r, S, m, r.choice([1, 2, 3])), r)
        yield inp(m, base + r.choice([[], [5, 10, 0], [0], [6, 5, 10, 1, 65]]))
        if msg.endless(S): continue
        for _ in range(r.choice([2, 4, 6])):
            x = mutate(r, base)
            yield inp(m, mutate(r, x) if r.random() < 0.3 else x)
        x = encm(S, m, msg.small(r, S, m, 2, absent=0.3))              # as Go may write it: absent messages, any enum value, any bytes as text
        if len(x) < 4000: yield inp(m, x)
        if r.random() < 0.3: yield inp(m, [r.choice([0, 1, 2, 3, 4, 5, 6, 7, 10, 12, 128, 255]) for _ in range(r.randrange(0, 12))])
    yield {"o": "Z"}

def deep_case():
    s = schema("p", [("T", 0, [field("n", "one", 13), field("l", "list", 11, m=1)])])
    return "deep-nesting", s, [{"o": "P", "m": 1, "k": 1000000, "in": [U32, 0, SLICE, ANY, U32, 1]}]

def round_(chk, gentool, r, schemas, vectors, extra):
    n = 8 if chk.tier == "quick" else 25
    scripts = {}
    for s in schemas:
        S = spec(s)
        if s["id"] in extra: scripts[s["id"]] = extra[s["id"]][0]; continue
        st = []
        for m, v, b in vectors.get(s["id"], []):
            if v != [] and complete(S, m, v): st += [{"o": "R"}, E(m, v), {"o": "K", "k": 10}, D(m, 1), D(m, 1, cut=0)]
            if not msg.endless(S): st += [D(m, inp=b)] + [D(m, inp=b[:i]) for i in range(len(b))]
        scripts[s["id"]] = st or list(steps(r, S, s, n))
    drv, res = build(gentool, schemas)
    cases, evs = {}, {}
    for s in schemas:
        for g in GENS:
            v = res[g, s["id"]]
            if v["r"] == "ok" and scripts[s["id"]]: cases[v["mod"]] = {"id": int(v["mod"][1:]), "pkg": int(v["mod"][1:]), "s": scripts[s["id"]]}
    if drv: evs = core.run_driver([drv], list(cases.values()), timeout=240)
    traces, seen = [], {g: set() for g in GENS}
    for s in schemas:
        for g in GENS:
            v = res[g, s["id"]]
            ev = [msg.blank("G", r=v["r"], ok=v["ok"], x=v["x"])]
            if v["r"] == "ok": ev += msg.qnames(s, snake, seen[g])
            if v["r"] == "ok" and scripts[s["id"]]:
                got = evs.get(int(v["mod"][1:]))
                if got is None: continue
                if s["id"] not in extra and g == GENS[1] and res[GENS[0], s["id"]].get("mod") == v["mod"]: got = []     # the same code
                ev += [{k: e[k] for k in msg.blank("")} if "slot" in e else msg.blank(e["o"], r=e["r"], x=e["x"]) for e in got]
            j = {**msg.J0, "lay": True, "dec": True, "rt": True, "mem": True, "pos": True}
            traces.append({"id": s["id"], "g": g, "d": "rs", "j": j, "S": spec(s), "en": [len(e["values"]) for e in s["enums"]], "km": 4096, "want": ["gen/%s/%s_polyglot.rs" % (s["dir"], s["dir"])], "got": res[g, s["id"]]["names"], "ev": ev})
            c = chk.extra.setdefault("traces_per_implementation", {})
            c[g] = c.get(g, 0) + 1
    rej, st = core.validate("MsgTrace", "MsgTrace.cfg", traces, "MsgTraceWhere.cfg", tag="C20")
    chk.traces(len(traces), sum(len(t["ev"]) for t in traces), st)
    by = {s["id"]: s for s in schemas}
    for t in traces[:: max(1, len(traces) // 3)]:
        chk.sample({"impl": t["g"], "schema": t["S"], "events": [{k: v for k, v in e.items() if v not in ([], -1, "", 0)} for e in t["ev"][:4]]}, 3)
    for i, pos in rej:
        t = traces[i]
        s = by[t["id"]]
        e = t["ev"][pos - 1] if 0 < pos <= len(t["ev"]) else {"o": "?"}
        key = "%s %s" % (t["g"], extra[t["id"]][1]) if t["id"] in extra else \
              ("%s %s %s" % (t["g"], json.dumps([s["pkg"], s["msgs"], s["enums"]], separators=(",", ":")), json.dumps(e, separators=(",", ":"))))[:3000]
        chk.violation(key, "%s: event %d is no step of the specification: %s" % (t["g"], pos, json.dumps({k: v for k, v in e.items() if v not in ([], -1, "")})[:400]),
                      {"impl": t["g"], "schema": s, "trace": t["ev"][:pos + 1], "event": pos})

def run(chk):
    quick = chk.tier == "quick"
    budget = 40 if quick else 600
    with cf.ThreadPoolExecutor(4) as ex:
        fm = ex.submit(core.model_check, "MCMsg", "MCMsgStrict.cfg", workers=3 if quick else 5, timeout=640)
        fv = ex.submit(core.behaviours, "MCMsgGen", "MCMsgGen.cfg" if quick else "MCMsgGenDeep.cfg")
        gentool = tools()
        hs, gst = fv.result()
        chk.model(gst)
        groups = {}
        for S, v, b in hs: groups.setdefault(json.dumps(S), []).append((1, v, b))
        rnd = 0
        while True:
            r = random.Random("C20 %d %d" % (chk.seed, rnd))
            t0 = time.time()
            schemas, vectors, extra = [], {}, {}
            if rnd == 0: schemas += [s for s in msg.fixed() if usable(s)]
            for k in r.sample(sorted(groups), min(len(groups), 30 if quick else 120)):
                s = msg.fromspec(json.loads(k))
                if usable(s): schemas.append(s); s["vec"] = groups[k]
            want = len(schemas) + (24 if quick else 60)
            while len(schemas) < want:
                s = msg.randschema(r, finite=True)
                if usable(s): schemas.append(s)
            if rnd == 0:
                key, s, st = deep_case()
                s["x"] = (st, key); schemas.append(s)
            for i, s in enumerate(schemas):
                s["id"], s["param"] = i, r.choice(["", "", "privacy=public", "privacy=crate", "privacy=private"])
                if "vec" in s: vectors[i] = s.pop("vec")
                if "x" in s: extra[i] = s.pop("x")
            round_(chk, gentool, r, schemas, vectors, extra)
            rnd += 1
            chk.note("schemas", len(schemas))
            if len(chk.viol) or chk.left(budget) < 1.5 * (time.time() - t0): break
        chk.note("rounds", rnd)
        chk.model(fm.result())
