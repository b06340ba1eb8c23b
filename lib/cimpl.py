"""Runs codec scripts through the C bindings: turns each script into commands
of harness/c/cdrv.c and its answers into the common trace format."""
import json, subprocess, time
from core import blank, env, CheckError

def _pay(v):
    return "%d %s" % (len(v), " ".join(("~%d" % -x) if x < 0 else str(x) for x in v))

def commands(case, h=0, slot=0, most=60):
    """[(command, script step or None)]; h: the handles it uses"""
    cs = [("ne %d" % h, {"o": "N"})]
    dec, slots, most = False, [], slot + most
    for s in case["s"]:
        o = s["o"]
        if o == "E":
            v = s.get("v", [])
            cs.append(("en %d %d %d %d %s" % (h, s["k"], s.get("a", 0), s.get("b", 0), _pay(v)), s))
            cs.append(("ob %d %d" % (h, next((-x for x in v if x < 0), 0)), None))
        elif o == "R":
            cs += [("fe %d" % h, None), ("ne %d" % h, s)]
        elif o in ("L", "X"):
            if dec: cs.append(("fd %d" % h, None))
            cs.append(("nd %d " % h + _pay(s.get("v", [])) if o == "L" else "no %d %d" % (h, h), s)); dec = True
        elif o == "C":
            cs.append(("cl %d %d" % (h, s["n"]), s))
            cs += [("ck %d" % x, None) for x in slots]
        elif o == "S":
            if not slots: continue
            cs.append(("sc %d %d" % (last, s["n"]), s))
            cs += [("ck %d" % x, None) for x in slots if x != last]
            cs.append(("ck %d" % last, dict(s, o="over")))
        elif o == "D":
            sl = -1
            if s["k"] in (4, 5, 6):
                sl = last = slot; slots.append(sl); slot += 1
                if slot >= most: raise CheckError("too many held values in one case")
            cs.append(("de %d %d %d %d %d" % (h, s["k"], s.get("a", 0), s.get("b", 0), sl), s))
        elif o == "Z":
            cs.append(("ob %d 0" % h, s))
            cs += [("ck %d" % x, None) for x in slots]
    cs += [("fr %d" % x, None) for x in slots]
    if dec: cs.append(("fd %d" % h, None))
    cs.append(("fe %d" % h, None))
    return cs

def events(case, cs, ans):
    """The trace; ans may be shorter than cs if the process died."""
    evs, held, order = [], {}, []
    R = {0: "ok", 1: "no"}
    cur = None
    for n, (c, s) in enumerate(cs):
        if n >= len(ans):
            evs.append(blank("died", r="died", x="at: " + c[:200])); return evs
        a = ans[n]
        r = R.get(a.get("st", 0), "st%s" % a.get("st"))
        op = c.split(" ", 1)[0]
        if s is not None and s["o"] == "over":
            h = int(c.split()[1])
            if any(x not in (s["n"], -1) for x in a["v"]): cur["ok"] = False
            if len(held[h]) <= 256 and all(x >= 0 for x in held[h]) and len(a["v"]) != len(held[h]): cur["ok"] = False
            held[h] = a["v"]
        elif s is not None:
            o = s["o"]
            cur = blank(o, k=s.get("k", 0), a=s.get("a", 0), b=s.get("b", 0))
            evs.append(cur)
            cur["r"] = r
            if o == "E":
                cur["v"] = s.get("v", []); cur["ok"] = a["ok"]
            elif o in ("N", "R", "L", "X"):
                if a["null"]: cur["r"] = "null"
                if o == "L": cur["v"] = s.get("v", [])
                if o == "X": cur["n"] = a["n"]
            elif o in ("C", "S"):
                cur["n"] = s["n"]; cur["r"] = "ok"
            elif o == "D":
                cur["n"], cur["mem"] = 0, a.get("mem", -1)
                if s["k"] == 0:
                    if r in ("ok", "no"): cur["r"] = "ok" if a["v"] == [1] else "no"
                else:
                    if cur["r"] == "ok":
                        cur["v"] = a["v"]
                        if a["null"]: cur["r"] = "null"
                    if s["k"] in (4, 5, 6):
                        held[int(c.split()[-1])] = a["v"]
                        if cur["r"] == "no" and not a["null"]: cur["r"] = "notnull"
            elif o == "Z":
                cur["n"] = a["n"]; cur["ok"] = a["ok"] and a["d"] == []
        elif op == "ob":
            cur["n"] = a["n"]; cur["d"] = a["d"]; cur["ok"] = cur["ok"] and a["ok"]
            if r != "ok": cur["r"] = "copyout " + r
        elif op == "ck":
            if a["v"] != held[int(c.split()[1])]: cur["ok"] = False
        elif op == "ne":
            pass
    return evs

def together(case):
    """The commands of a group of cases, interleaved: [(command, step, whose)].
    Commands that only look at what the one before did stay with it."""
    parts = [commands(c, i, 7 * i, 7) for i, c in enumerate(case["g"])]
    pos, cs = [0] * len(parts), []
    def step(i):
        p = parts[i]
        if pos[i] < len(p):
            cs.append((*p[pos[i]], i)); pos[i] += 1
            while pos[i] < len(p) and p[pos[i]][0].split(" ", 1)[0] in ("ob", "ck") and (p[pos[i]][1] is None or p[pos[i]][1]["o"] == "over"):
                cs.append((*p[pos[i]], i)); pos[i] += 1
    for i in case["t"]: step(i)
    for i, p in enumerate(parts):
        while pos[i] < len(p): step(i)
    return cs

def split(case, cs, ans):
    """The trace of each case of a group."""
    if len(ans) < len(cs): return [[blank("N"), blank("died", r="died", x="at: " + cs[len(ans)][0][:200])] for _ in case["g"]]
    return [events(c, [x[:2] for x in cs if x[2] == i], [a for a, x in zip(ans, cs) if x[2] == i]) for i, c in enumerate(case["g"])]

def run(cmd, cases, timeout=150, tool=()):
    res, todo, deaths = {}, list(cases), 0
    while todo:
        all_cs = [(c, together(c) if "g" in c else commands(c)) for c in todo]
        text = "".join("case %d\n%s\nend\n" % (c["id"], "\n".join(x[0] for x in cs)) for c, cs in all_cs)
        timed = False
        p = subprocess.Popen(list(tool) + cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             text=True, errors="replace", env=env())
        try:
            out, err = p.communicate(text, timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill(); out, err = p.communicate(); timed = True
        byid = {c["id"]: (c, cs) for c, cs in all_cs}
        cur, ans = None, []
        for line in out.split("\n"):
            if line.startswith("BEGIN "):
                cur, ans = int(line[6:]), []
            elif line == "END":
                c, cs = byid[cur]; res[cur] = (split if "g" in c else events)(c, cs, ans); cur = None
            elif line.startswith("{"):
                try: ans.append(json.loads(line))
                except ValueError: break
        if p.returncode == 0 and cur is None:
            break
        if timed and cur is not None and len(todo) > 1:
            # is it this case that never ends, or was everything slow?
            one = run(cmd, [byid[cur][0]], 60, tool)
            if "g" not in byid[cur][0] and one[cur][-1]["r"] != "hang":
                raise CheckError("C driver timed out")
            res.update(one)
            for x in todo: res.setdefault(x["id"], None)
            break
        if cur is None:
            raise CheckError("C driver failed: %s %s" % (p.returncode, err[-500:]))
        c, cs = byid[cur]
        res[cur] = (split if "g" in c else events)(c, cs, ans)
        if "g" not in c and res[cur] and res[cur][-1]["r"] != "died":
            res[cur].append(blank("died", r="hang" if timed else "died", x="exit %s" % p.returncode))
        if "g" not in c and timed and res[cur][-1]["r"] == "died":
            res[cur][-1]["r"] = "hang"
        deaths += 1
        if deaths > 40:
            for x in todo: res.setdefault(x["id"], None)
            break
        todo = [x for x in todo if x["id"] not in res]
    return res
