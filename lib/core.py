"""Building the drivers, running scripts through them, and checking the
recorded executions against the specification with TLC."""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
GOBIN = "/opt/veriftools/go1.24.13/bin"
ESBUILD = "/opt/veriftools/node/node_modules/.bin/esbuild"
TSC = "/opt/veriftools/node/node_modules/.bin/tsc"

class CheckError(Exception):
    """The check itself could not do its work: neither held nor violated."""

class TooSlow(CheckError):
    def __init__(self, m, out):
        super().__init__(m)
        self.out = out

def env(**kw):
    e = dict(os.environ)
    e["PATH"] = GOBIN + ":/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", CARGO_NET_OFFLINE="true",
             HOME=e.get("HOME", "/root"))
    e.update({k: str(v) for k, v in kw.items()})
    return e

def sh(cmd, cwd=None, timeout=600, input=None, envx=None, check=True):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=envx or env(), capture_output=True, text=True,
                           timeout=timeout, input=input, errors="replace")
    except subprocess.TimeoutExpired:
        raise CheckError("timed out after %ds: %s" % (timeout, cmd))
    if check and r.returncode != 0:
        raise CheckError("%s failed (%d):\n%s\n%s" % (cmd, r.returncode, r.stdout[-4000:], r.stderr[-4000:]))
    return r

class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")
    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN); self.f.close()

# ---------------------------------------------------------------- builds

def _harness_copy(name, subst=True):
    """Harness sources with /repo replaced by REPO, so that development runs can
    point the same drivers at another tree."""
    src, dst = os.path.join(HARNESS, name), os.path.join(BUILD, "src", name)
    if os.path.isdir(dst):
        shutil.rmtree(dst)
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns("target"))
    for f in ("go.mod", "Cargo.toml"):
        p = os.path.join(dst, f)
        if os.path.exists(p):
            s = open(p).read().replace("/repo", REPO)
            open(p, "w").write(s)
    return dst

def build_go(cmds, race=False, arch=None):
    """cmds: package directories under harness/go; returns {name: binary}."""
    with Lock("go"):
        d = _harness_copy("go")
        out = os.path.join(BUILD, "bin")
        os.makedirs(out, exist_ok=True)
        res = {}
        for c in cmds:
            b = os.path.join(out, c.replace("/", "_") + ("_race" if race else "") + ("_" + arch if arch else ""))
            sh(["go", "build"] + (["-race"] if race else []) + ["-o", b, "./" + c], cwd=d, envx=env(GOARCH=arch, CGO_ENABLED=0) if arch else None)
            res[c] = b
        return res

def _cargo(d, target, pkgs):
    e = env(CARGO_TARGET_DIR=target)
    # cargo goes by mtimes: drop the crates under test so that a restored file is seen
    for p in pkgs:
        sh(["cargo", "clean", "--offline", "-q", "-p", p], cwd=d, envx=e, check=False)
    sh(["cargo", "build", "--offline", "-q"], cwd=d, envx=e)

def build_rust():
    with Lock("rust"):
        d = _harness_copy("rust")
        t = os.path.join(BUILD, "rust")
        _cargo(d, t, ["polyglot_rs", "codec_rs"])
        b = os.path.join(BUILD, "bin", "codec_rs")
        os.makedirs(os.path.dirname(b), exist_ok=True)
        shutil.copy2(os.path.join(t, "debug", "codec_rs"), b)
        return b

def build_c():
    with Lock("c"):
        d = _harness_copy("c")
        t = os.path.join(BUILD, "c")
        _cargo(d, t, ["polyglot_rs", "c_bindings"])
        o = os.path.join(BUILD, "bin", "c")
        os.makedirs(o, exist_ok=True)
        shutil.copy2(os.path.join(t, "debug", "libpolyglot.so"), o)
        v = open(os.path.join(REPO, "version/current_version")).read().strip()
        nums = (re.findall(r"\d+", v) + ["0", "0", "0"])[:3]
        h = open(os.path.join(REPO, "polyglot.h.in")).read()
        for n, x in zip(("MAJOR", "MINOR", "MICRO"), nums):
            h = h.replace("@_VERSION_%s@" % n, x)
        open(os.path.join(o, "polyglot.h"), "w").write(h)
        sh(["gcc", "-g", "-O1", "-I" + o, "-o", os.path.join(o, "cdrv"), os.path.join(d, "cdrv.c"),
            "-L" + o, "-lpolyglot", "-Wl,-rpath," + o])
        sh(["gcc", "-g", "-O1", "-DCOUNT", "-I" + o, "-o", os.path.join(o, "cdrv_mem"), os.path.join(d, "cdrv.c"),
            "-L" + o, "-lpolyglot", "-Wl,-rpath," + o])
        return os.path.join(o, "cdrv")

def build_ts():
    with Lock("ts"):
        o = os.path.join(BUILD, "bin")
        os.makedirs(o, exist_ok=True)
        f = os.path.join(o, "polyglot.mjs")
        sh([ESBUILD, os.path.join(REPO, "index.ts"), "--bundle", "--format=esm", "--platform=neutral",
            "--outfile=" + f, '--tsconfig-raw={"compilerOptions":{"target":"es2020"}}', "--log-level=warning"])
        return ["node", os.path.join(HARNESS, "ts", "driver.mjs"), f]

IMPLS = ("go1", "go2", "rs", "c", "ts")

def build_impls(impls):
    r = {}
    g = [x for x in ("codec1", "codec2") if {"codec1": "go1", "codec2": "go2"}[x] in impls]
    if g:
        b = build_go(g)
        for x in g:
            r[{"codec1": "go1", "codec2": "go2"}[x]] = [b[x]]
    w = [x for x in ("codec1", "codec2") if {"codec1": "go1_386", "codec2": "go2_386"}[x] in impls]
    if w:      # the same code where int has 32 bits, if this machine runs such programs
        b = build_go(w, arch="386")
        for x in w:
            try:
                if subprocess.run([b[x]], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, env=env(), timeout=60).returncode == 0:
                    r[{"codec1": "go1_386", "codec2": "go2_386"}[x]] = [b[x]]
            except OSError: pass
    if "rs" in impls: r["rs"] = [build_rust()]
    if "c" in impls: r["c"] = [build_c()]
    if "ts" in impls: r["ts"] = build_ts()
    return r

# ---------------------------------------------------------------- running scripts

def blank(o, **kw):
    e = {"o": o, "k": 0, "a": 0, "b": 0, "v": [], "d": [], "n": 0, "r": "ok", "e": -1, "p": -1, "c": -1,
         "ok": True, "mem": -1, "x": ""}
    e.update(kw)
    return e

def run_driver(cmd, cases, timeout=150, envx=None):
    """Returns {id: events}.  A case during which the driver dies ends in a
    'died' event; the driver is restarted for the remaining cases."""
    res, todo, t0 = {}, list(cases), time.time()
    deaths = hangs = 0
    while todo:
        data = "".join(json.dumps(c) + "\n" for c in todo)
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             text=True, errors="replace", env=envx or env())
        try:
            out, err = p.communicate(data, timeout=max(20, timeout - (time.time() - t0)))
            timed = False
        except subprocess.TimeoutExpired:
            p.kill(); out, err = p.communicate(); timed = True
        cur = None
        for line in out.split("\n"):
            if line.startswith("BEGIN "):
                cur = int(line[6:])
            elif line.startswith("{"):
                try:
                    j = json.loads(line)
                except ValueError:
                    continue
                res[j["id"]] = j["ev"]; cur = None
        if p.returncode == 0 and not timed:
            missing = [c for c in todo if c["id"] not in res]
            if missing:
                raise CheckError("driver %s gave no answer for case %s" % (cmd, missing[0]["id"]))
            return res
        if timed and cur is not None:
            one = [c for c in todo if c["id"] == cur]
            try:
                q = subprocess.run(cmd, input=json.dumps(one[0]) + "\n", capture_output=True, text=True,
                                   errors="replace", env=envx or env(), timeout=60)
                raise CheckError("driver %s timed out (case %s)" % (cmd, cur))
            except subprocess.TimeoutExpired:
                res[cur] = [blank("N"), blank("hang", r="hang", x="no answer in 60 s")]
            todo = [c for c in todo if c["id"] not in res]
            hangs += 1
            if hangs > 1:
                for c in todo: res[c["id"]] = None
                return res
            continue
        if timed:
            raise CheckError("driver %s timed out" % (cmd,))
        if p.returncode in (3,) or cur is None:
            raise CheckError("driver %s failed (%s): %s" % (cmd, p.returncode, err[-2000:]))
        deaths += 1
        res[cur] = [blank("N"), blank("died", r="died", x=("exit %s: %s" % (p.returncode, err[:300])))]
        todo = [c for c in todo if c["id"] not in res]
        if deaths > 40:
            for c in todo:
                res[c["id"]] = None        # enough evidence; not run
            return res
    return res

# ---------------------------------------------------------------- TLC

def tlc(module, cfg, workers=8, timeout=600, envx=None, mem="6g", extra=(), cwd=SPEC):
    meta = os.path.join(BUILD, "tlc", "%s-%d-%d" % (module, os.getpid(), time.time_ns()))
    os.makedirs(meta, exist_ok=True)
    e = envx or env()
    e["JAVA_TOOL_OPTIONS"] = "-Xss16m -Xmx%s -XX:+UseParallelGC" % mem
    try:
        p = subprocess.Popen(["tlc", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra, module + ".tla"],
                             cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            raise TooSlow("TLC timed out after %ds on %s/%s" % (timeout, module, cfg), out)
        r = subprocess.CompletedProcess(p.args, p.returncode, out, err)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r

def tlc_error(out):
    ls = [x for x in out.split("\n") if not x.startswith('<<"')]
    for i, x in enumerate(ls):
        if x.startswith("Error:"):
            return "\n".join(y[:300] for y in ls[i:i + 25])
    return "\n".join(ls)[-3000:]

PROGRESS = re.compile(r"([\d,]+) states generated \([^)]*\), ([\d,]+) distinct states found \([^)]*\), ([\d,]+) states left")
STATS = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left")

def tlc_stats(out):
    m = None
    for m in STATS.finditer(out):
        pass
    if not m:
        return None
    return tuple(int(x.replace(",", "")) for x in m.groups())

def model_check(module, cfg, timeout=800, workers=8, extra=()):
    """Exhaustive check of the specification itself. A failure here is an error
    of the specification, never a verdict on the code.  A model that is too large
    for its time is reported as incomplete, with the states it got to."""
    try:
        r = tlc(module, cfg, timeout=timeout, workers=workers, extra=extra)
    except TooSlow as e:
        m = PROGRESS.findall(e.out)
        if not m or "is violated" in e.out: raise
        g, d, left = (int(x.replace(",", "")) for x in m[-1])
        return {"module": module, "config": cfg, "states": d, "transitions": g, "incomplete": True, "left": left}
    if r.returncode != 0 or "No error has been found" not in r.stdout:
        raise CheckError("specification %s (%s) does not check:\n%s" % (module, cfg, r.stdout[-3000:]))
    g, d, left = tlc_stats(r.stdout)
    if left:
        raise CheckError("%s (%s): %d states left unexplored" % (module, cfg, left))
    return {"module": module, "config": cfg, "states": d, "transitions": g}

def model_fails(module, cfg, timeout=300, workers=4):
    """A deliberately wrong variant of a model, which TLC must refute: guards
    against properties that hold vacuously."""
    r = tlc(module, cfg, timeout=timeout, workers=workers)
    if "is violated" not in r.stdout:
        raise CheckError("wrong variant %s (%s) was not refuted:\n%s" % (module, cfg, r.stdout[-2000:]))
    return {"module": module, "config": cfg, "refuted": True}

def behaviours(module, cfg, timeout=300):
    """The behaviours a generator specification prints."""
    r = tlc(module, cfg, timeout=timeout, workers=1)
    if r.returncode != 0:
        raise CheckError("generator %s (%s) failed:\n%s" % (module, cfg, r.stdout[-2000:]))
    hs = [json.loads(json.loads(l)[1:]) for l in r.stdout.split("\n") if l.startswith('"H[')]
    if not hs:
        raise CheckError("generator %s (%s) printed no behaviour" % (module, cfg))
    g, d, _ = tlc_stats(r.stdout)
    return hs, {"module": module, "config": cfg, "states": d, "transitions": g, "behaviours": len(hs)}

ACC = re.compile(r'<<"ACCEPT", (\d+)')
AT = re.compile(r'<<"AT", (\d+), (\d+)')

def validate(module, cfg, traces, where_cfg=None, timeout=800, workers=8, tag="t", envx=None):
    """Checks each trace; returns (rejected [(index, position)], stats)."""
    if not traces:
        raise CheckError("no traces to validate")
    # TLC holds a whole file of traces in memory: one run per 30 MB
    size, parts = 0, [[]]
    for x in traces:
        n = len(json.dumps(x))
        if size + n > 30_000_000 and parts[-1]:
            parts.append([]); size = 0
        parts[-1].append(x); size += n
    if len(parts) > 1:
        rej, st, base = [], {"states": 0, "transitions": 0}, 0
        for q in parts:
            a, b = validate(module, cfg, q, where_cfg, timeout, workers, tag, envx)
            rej += [(i + base, pos) for i, pos in a]
            base += len(q)
            for k in st: st[k] += b[k]
        return rej, st
    d = os.path.join(BUILD, "traces")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%s-%d-%d.ndjson" % (tag, os.getpid(), time.time_ns()))
    with open(f, "w") as h:
        for x in traces:
            h.write(json.dumps(x) + "\n")
    e = envx or env()
    e["TRACES"] = f
    try:
        r = tlc(module, cfg, timeout=timeout, workers=workers, envx=dict(e))
        if r.returncode != 0 or "Model checking completed" not in r.stdout:
            raise CheckError("TLC failed on %s:\n%s" % (module, tlc_error(r.stdout + r.stderr)))
        acc = {int(x) for x in ACC.findall(r.stdout)}
        g, dist, left = tlc_stats(r.stdout)
        rej = [i for i in range(len(traces)) if i + 1 not in acc]
        res = []
        if rej:
            sub = rej[:20]
            with open(f, "w") as h:
                for i in sub:
                    h.write(json.dumps(traces[i]) + "\n")
            r2 = tlc(module, where_cfg, timeout=300, workers=1, envx=dict(e))
            far = {}
            for a, b in AT.findall(r2.stdout):
                far[int(a)] = max(far.get(int(a), 0), int(b))
            for n, i in enumerate(sub):
                res.append((i, far.get(n + 1, 1)))
            res += [(i, 0) for i in rej[20:]]
        return res, {"states": dist, "transitions": g}
    finally:
        if os.path.exists(f):
            os.remove(f)

def workdir(pid):
    d = os.path.join(BUILD, "replay", pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d
