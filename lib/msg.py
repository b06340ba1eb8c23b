"""Generator properties: schemas through the code generators, their generated
code through the message driver, and everything recorded against MsgTrace."""
import concurrent.futures as cf
import json, os, random, re, shutil, subprocess, time
import core
from gen import *

IMPLS = {"go1": ("", "github.com/loopholelabs/polyglot"), "go2": ("v2", "github.com/loopholelabs/polyglot/v2")}
MSG = 16
KIND = {1: F64, 2: F32, 3: I64, 4: U64, 5: I32, 6: U64, 7: U32, 8: BOOL, 9: STR, 11: MSG, 12: BYTES, 13: U32, 14: U32, 15: I32, 16: I64, 17: I32, 18: I64}
PROTO = {U32: 13, STR: 9, BOOL: 8, MSG: 11}
SCALARS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 15, 16, 17, 18]
KEYS = [3, 4, 5, 6, 7, 8, 9, 13, 15, 16, 17, 18]
RESERVED = ("Encode", "Decode", "Error")

# ------------------------------------------------------------------ schemas
# field: {n, c, p (protobuf type), kp, m, e, no}; message: {name, in, fields}; enum: {name, in, values, nums}

def camel(s):
    """Go name of a protobuf name: words start where an underscore or a dot was."""
    if s.startswith("_"): s = s[1:]
    out, up, i = "", True, 0
    while i < len(s):
        c = s[i]
        if c == "." : up = True
        elif c == "_" and i + 1 < len(s) and s[i + 1].islower(): up = True
        elif c.isdigit(): out += c; up = True
        else:
            out += c.upper() if up else c
            up = not c.islower() and not c.isupper()
        i += 1
    return out if out[:1].isupper() else "X" + out

def fname(n):
    n = camel(n)
    return n + "_" if n in RESERVED else n

def full(s, i):
    m = s["msgs"][i - 1]
    return (full(s, m["in"]) if m["in"] else s["pkg"]) + "." + m["name"]
def efull(s, i):
    e = s["enums"][i - 1]
    return (full(s, e["in"]) if e["in"] else s["pkg"]) + "." + e["name"]
def tname(s, i): return camel(full(s, i).lstrip("."))
def ename(s, i): return camel(efull(s, i).lstrip("."))
def values(s, i):
    e = s["enums"][i - 1]
    scope = full(s, e["in"]) if e["in"] else s["pkg"]
    return [scope + "." + v for v in e["values"]]
def consts(s, i): return [camel(v.lstrip(".")) for v in values(s, i)]

def idents(s):
    r = ["NilDecode", "ErrDecodeNil", "VerifReg"]
    for i, m in enumerate(s["msgs"], 1):
        t = tname(s, i)
        r += [t, "New" + t]
        for f in m["fields"]:
            if f["c"] == "map":
                t = camel((full(s, i) + "." + f["n"]).lstrip(".")) + "Map"
                r += [t, "New" + t]
    for i in range(1, len(s["enums"]) + 1): r += [ename(s, i)] + consts(s, i)
    return r

def qnames(s, rust, seen, pkgs=()):
    """Events that say how what a schema declares is called; new ones only."""
    q = []
    for i, m in enumerate(s["msgs"], 1):
        q.append((2, full(s, i).lstrip("."), tname(s, i)))
        for f in m["fields"]: q.append((3, f["n"], rust(f["n"])) if rust else (1, f["n"], fname(f["n"])))
    for i, e in enumerate(s["enums"], 1):
        q.append((2, efull(s, i).lstrip("."), ename(s, i)))
        if not rust: q += [(2, p.lstrip("."), n) for p, n in zip(values(s, i), consts(s, i))]
    q += [(4, s["pkg"], x) for x in sorted(pkgs) if s["pkg"]]
    for k, p, n in q:
        if (k, p, n) not in seen:
            seen.add((k, p, n))
            yield blank("Q", k=k, v=[ord(c) for c in p], d=[ord(c) for c in n])

def shape(f, s=None):
    return {"c": f["c"], "k": KIND[f["p"]], "m": f["m"] if f["p"] == 11 else 0, "kk": KIND[f["kp"]] if f["c"] == "map" else 0,
            "en": len(s["enums"][f["e"] - 1]["values"]) if s and f["p"] == 14 else 0}
HOOK = {"c": "one", "k": U32, "m": 0, "kk": 0, "en": 0}        # what harness/gen/hookplugin adds to every message
def spec(s): return [[dict(HOOK)] * bool(s.get("hook")) + [shape(f, s) for f in m["fields"]] for m in s["msgs"]]

def split(r, s):
    """Spreads the types over files of one package, each of which refers to earlier ones only."""
    root = lambda i: root(s["msgs"][i - 1]["in"]) if s["msgs"][i - 1]["in"] else i
    uses = {}
    for i, m in enumerate(s["msgs"], 1):
        u = uses.setdefault(("m", root(i)), set())
        for f in m["fields"]:
            if f["p"] == 11: u.add(("m", root(f["m"])))
            if f["p"] == 14:
                e = s["enums"][f["e"] - 1]["in"]
                u.add(("m", root(e)) if e else ("e", f["e"]))
    for i, e in enumerate(s["enums"], 1):
        if not e["in"]: uses[("e", i)] = set()
    left, n, where = sorted(uses), 0, {}
    while left:
        some = {r.choice(left)}
        while True:
            more = {y for x in some for y in uses[x] if y not in where} - some
            if not more: break
            some |= more
        for x in some: where[x] = n
        left = [x for x in left if x not in where]
        n += 1
        if n == 3: break
    for x in left: where[x] = n - 1
    for i, m in enumerate(s["msgs"], 1): m["file"] = where["m", root(i)]
    for i, e in enumerate(s["enums"], 1): e["file"] = where["m", root(e["in"])] if e["in"] else where["e", i]
    s["nfiles"] = n
    return s

def names(s):
    """The files a plugin is to answer with."""
    d, p = s["dir"], s.get("param", "")
    pre = {"": "gen/%s/" % d, "paths=source_relative": s.get("path", ""), "module=gen": d + "/"}.get(p, "gen/%s/" % d)
    fs = ["%s%s%s%s.polyglot.go" % (pre, d, "_%d" % i if i else "", s.get("stem", "")) for i in range(max(1, s.get("nfiles", 0)))]
    return fs + fs[-1:]             # all, and when asked for the last only
PARAMS = ["", "", "", "paths=source_relative", "module=gen", "paths=import", "verif=1"]

def usable(s):
    """Whether the generated identifiers differ, and new messages stay small."""
    ids = idents(s)
    if len(set(ids)) != len(ids): return False
    for m in s["msgs"]:
        ns = [fname(f["n"]) for f in m["fields"]]
        if len(set(ns)) != len(ns) or len({f["n"].replace("_", "").lower() for f in m["fields"]}) != len(ns): return False
        if any(f["c"] == "map" and not f["n"].lstrip("_")[:1].isalpha() for f in m["fields"]): return False      # the protobuf library does not take such entries
        kids = [camel(f["n"]) + "Entry" for f in m["fields"] if f["c"] == "map"]
        kids += [x["name"] for x in s["msgs"] if x["in"] and s["msgs"][x["in"] - 1] is m]
        kids += [x["name"] for x in s["enums"] if x["in"] and s["msgs"][x["in"] - 1] is m] + [v for x in s["enums"] if x["in"] and s["msgs"][x["in"] - 1] is m for v in x["values"]]
        kids += [f["n"] for f in m["fields"]]
        if len(set(kids)) != len(kids): return False
    return max([fresh(s, i) for i in range(1, len(s["msgs"]) + 1)] or [0]) < 6000

def reach(s, i, j, seen):
    for f in s["msgs"][i - 1]["fields"]:
        if f["p"] == 11 and f["c"] == "one":
            if f["m"] == j: return True
            if f["m"] not in seen:
                seen.add(f["m"])
                if reach(s, f["m"], j, seen): return True
    return False
def fresh(s, i, depth=0):
    """Bytes a new message of Go v1 occupies, roughly."""
    n = 48 + 40 * len(s["msgs"][i - 1]["fields"])
    for f in s["msgs"][i - 1]["fields"]:
        if f["p"] == 11 and f["c"] == "one" and f["m"] != i and not reach(s, f["m"], i, {f["m"]}):
            n += fresh(s, f["m"], depth + 1) if depth < 6 else 10000
    return n

def hollow(S, m, inn=()):
    return m not in inn and all(f["c"] == "one" and f["k"] == MSG and hollow(S, f["m"], inn + (m,)) for f in S[m - 1])
def endless(S):
    """A list whose elements may take no bytes: its size is not bounded by the input."""
    return any(f["c"] == "list" and f["k"] == MSG and hollow(S, f["m"]) for M in S for f in M)

def field(n, c, p, kp=0, m=0, e=0): return {"n": n, "c": c, "p": p, "kp": kp, "m": m, "e": e, "no": 0}
def schema(pkg, msgs, enums=()):
    s = {"pkg": pkg, "msgs": [{"name": n, "in": i, "fields": fs} for n, i, fs in msgs],
         "enums": [{"name": n, "in": i, "values": vs, "nums": list(range(len(vs)))} for n, i, vs in enums]}
    for m in s["msgs"]:
        for i, f in enumerate(m["fields"]): f["no"] = i + 1
    return s
def with_(s, **kw): return {**s, **kw}

def fixed():
    """Every combination of cardinality and type, and the shapes that once broke."""
    one = [field("f%d" % p, "one", p) for p in SCALARS] + [field("en", "one", 14, e=1), field("ms", "one", 11, m=2)]
    lst = [field("f%d" % p, "list", p) for p in SCALARS] + [field("en", "list", 14, e=1), field("ms", "list", 11, m=2)]
    inner = ("Inner", 0, [field("a", "one", 5), field("b", "one", 9)])
    en = [("Color", 0, ["RED", "GREEN", "blue_ish"])]
    yield schema("p", [("All", 0, one), inner], en)
    yield schema("p", [("Lists", 0, lst), inner], en)
    for ps in (SCALARS[:8], SCALARS[8:] + [14, 11]):
        yield schema("p", [("Maps", 0, [field("m%d" % p, "map", p, KEYS[i % 12], m=2 * int(p == 11), e=int(p == 14)) for i, p in enumerate(ps)]), inner], en)
    yield schema("p", [("Keys", 0, [field("k%d" % p, "map", KEYS[-1 - i], p) for i, p in enumerate(KEYS)])])
    yield schema("p", [("OnlyMap", 0, [field("m", "map", 9, 9)])])
    yield schema("p", [("OnlyMsg", 0, [field("m", "one", 11, m=2)]), inner])
    yield schema("p", [("OnlyList", 0, [field("m", "list", 14, e=1)])], en)
    yield schema("p", [], en)
    yield schema("p", [("None", 0, [])])
    yield schema("p", [("Node", 0, [field("v", "one", 13), field("next", "one", 11, m=1), field("kids", "list", 11, m=1), field("by", "map", 11, 9, m=1)])])
    yield schema("p", [("Loop", 0, [field("l", "one", 11, m=1), field("r", "one", 11, m=1)])])
    yield schema("p", [("A", 0, [field("b", "one", 11, m=2)]), ("B", 0, [field("e", "one", 11, m=3), field("a", "one", 11, m=1), field("m", "map", 8, 8)]), ("E", 0, [])])
    yield schema("p", [("P", 0, [field("b", "one", 11, m=2), field("v", "one", 8)]), ("Q", 0, [field("a", "one", 11, m=1), field("n", "one", 17)])])
    yield schema("", [("_1", 0, [field("_1", "one", 13), field("_2_x", "list", 9), field("__", "list", 13), field("__B", "one", 14, e=1), field("_3", "one", 11, m=2)]), ("_7", 1, [field("_", "one", 8)]), ("_9a_B", 0, [field("x", "one", 9)])], [("_5", 0, ["_0", "__1"])])
    yield schema("a.b_c.D1", [("Out", 0, [field("snake_case", "one", 14, e=1), field("x2y_3", "one", 11, m=2)]), ("In", 1, [field("camelCase", "list", 14, e=2)]), ("Deep", 2, [field("t", "one", 14, e=2)])],
                 [("Ex", 1, ["ZERO", "one"]), ("Ey", 3, ["Aa", "b_b", "C3"])])
    yield schema("", [("Bare", 0, [field("error", "one", 9), field("encode", "list", 5), field("decode", "map", 11, 9, m=2)]), ("Buffer", 0, [field("error", "one", 8)])])
    yield schema("p", [("First", 0, [field("a", "one", 11, m=2), field("b", "one", 11, m=1)]), inner])
    yield schema("p", [("Hollow", 0, [field("e", "one", 11, m=2), field("b", "one", 11, m=1)]), ("E", 0, [])])
    yield schema("p", [("A", 0, [field("b", "one", 11, m=2)]), ("B", 0, [field("c", "one", 11, m=3)]), ("C", 0, [field("b", "one", 11, m=2)])])
    yield schema("p", [("A", 0, [field("b", "one", 11, m=2), field("x", "one", 8)]), ("B", 0, [field("c", "one", 11, m=3), field("x", "one", 9)]), ("C", 0, [field("b", "one", 11, m=2), field("x", "one", 5)])])
    n = [field("n", "one", 13)]
    yield schema("p", [("A", 0, [field("b", "one", 11, m=2), field("a", "one", 11, m=1)]), ("B", 0, [field("x", "one", 11, m=3)]), ("C", 0, n)])
    yield schema("p", [("A", 0, [field("b", "one", 11, m=2), field("a", "one", 11, m=1)]), ("B", 0, [field("x", "one", 11, m=3), field("y", "one", 11, m=4)]), ("C", 0, []), ("D", 0, n)])
    yield schema("p", [("A", 0, [field("b", "one", 11, m=2)]), ("B", 0, [field("c", "one", 11, m=3), field("d", "one", 11, m=4)]), ("C", 0, []), ("D", 0, [field("a", "one", 11, m=1)])])
    yield schema("p", [("A", 0, [field("l", "list", 11, m=2), field("a", "one", 11, m=1)]), ("B", 0, [field("m", "map", 11, 9, m=1), field("a", "one", 11, m=1)])])
    yield schema("p", [("Mixed", 0, [field("m1", "map", 9, 5), field("s1", "one", 9), field("g1", "one", 11, m=2), field("l1", "list", 11, m=2), field("s2", "one", 17),
                                     field("m2", "map", 11, 9, m=2), field("l2", "list", 12), field("g2", "one", 11, m=2), field("s3", "one", 2)]), inner])
    yield schema("p", [("Mixed2", 0, [field("g1", "one", 11, m=2), field("m1", "map", 11, 9, m=2), field("l1", "list", 9), field("g2", "one", 11, m=2), field("m2", "map", 14, 5, e=1), field("s1", "one", 14, e=1),
                                      field("m3", "map", 9, 4), field("l2", "list", 11, m=2), field("s2", "one", 1), field("g3", "one", 11, m=2), field("l3", "list", 14, e=1)]), inner], en)

def fixed_go():
    """Requests of more than one file, services, oneofs, parameters, and the generator's hooks."""
    inner = ("Inner", 0, [field("a", "one", 5), field("b", "one", 9)])
    outer = ("Outer", 0, [field("i", "one", 11, m=1), field("c", "list", 14, e=1), field("by", "map", 11, 9, m=1), field("e", "one", 14, e=1)])
    en = [("Color", 0, ["RED", "GREEN", "blue_ish"])]
    yield schema("p", [])
    yield with_(schema("p", [inner, outer], en), proto2=True, deco=True)
    two = schema("p", [inner, outer], en)
    two["msgs"][1]["file"], two["nfiles"] = 1, 2
    yield two
    three = schema("p", [inner, ("Other", 0, [field("x", "one", 8)]), outer], en)
    three["msgs"][1]["file"], three["msgs"][2]["file"], three["nfiles"] = 1, 2, 3
    yield three
    r = random.Random(1)
    for i, p in enumerate(PARAMS[3:]):
        yield with_(schema("p", [inner]), param=p, svc=True)
        yield with_(schema("p.q", [outer, inner][::-1], en), param=p, path="dir/sub.d/", stem=".v1", nopkg=i % 2 == 0, deco=True, big=[100000, 1000000][i % 2])
    wide = [field("f_%d" % i, ["one", "list", "one", "map"][i % 4], [5, 9, 11, 14, 4, 12, 13, 8][i // 2 % 8], 9, m=2, e=1) for i in range(150)]
    for f in wide:
        if f["c"] == "one" and f["p"] == 11: f["p"] = 17
    yield schema("p", [("Wide", 0, wide), inner], en)
    yield schema("p", [("M%d" % i, i - 1 if i > 1 and i % 12 else 0, [field("v", "one", 13), field("e", "list", 14, e=1 + i % 3)]) for i in range(1, 61)],
                 [("E%d" % i, 0, ["E%d_V%d" % (i, j) for j in range((3, 130, 300)[i])]) for i in range(3)])
    yield with_(oneofs(r, schema("p", [("One", 0, [field("a", "one", 9), field("b", "one", 11, m=2), field("l", "list", 5), field("c", "one", 14, e=1), field("d", "one", 12)]), inner], en)), svc=True)
    for s in list(fixed()):
        if s["msgs"] and s["msgs"][0]["name"] in ("All", "OnlyMap", "OnlyMsg", "None", "Node", "First", "A", "Mixed", "Lists"):
            yield with_(s, hook=True)
            yield with_(s, hook=True, param="verif=embed")

NAMES = ["a", "b", "c", "value", "name", "snake_case_name", "camelCase", "x1", "n_2", "len", "type", "func", "map", "err", "d", "x", "v", "k", "size", "slice_size", "nil",
         "error", "encode", "decode", "string", "range", "return", "int32", "polyglot", "errors", "ID", "URL_path", "i", "Upper", "new", "temp", "a_temp", "foo_size",
         "_lead", "__twice", "_1", "_2_x", "_", "__", "_9a_B", "trail_", "a__b", "a1b2", "x_1y", "B_c_D", "m4", "SHOUT_IT", "a0b", "x0_y9z", "Z0z", "zZ_9z0_a", "z_", "q_Q", "a_very_long_name_of_a_field_that_does_not_fit_in_thirty_two_bytes"]
TYPES = ["Msg", "Item", "node", "snake_type", "Request", "Response", "Err", "Error", "X", "Map", "Any", "T1", "inner_2", "Kind", "String", "Decoder", "_Under", "_under", "_1", "__", "_2_t", "A1b", "V2_x", "Tail_", "AVeryLongNameOfATypeWhichIsMoreThanThirtyTwoBytes"]
def oddname(r): return r.choice("abzB_Z_") + "".join(r.choice(r.choice(["abB_1_", "azyAZ_09_"])) for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6, 9])))
PKGS = ["p", "pkg.sub", "Upper.v1", "snake_pkg", "x.y.z2", "polyglot", "errors", "other.p", "", "acme.Orders", "google.type", "select", "a._", "_.b_C"]
def numbers(r, n): return r.sample(r.choice([range(1, n + 24), range(1, n + 24), range(1, 5000), range(20000, 1 << 29), [*range(1, min(n, 15)), *range(16, 19), *range(19998, 20002), *range((1 << 29) - 3, 1 << 29), *range(65533, 65540), *range(32766, 32770)]]), n)

def randschema(r, size=None, finite=False):
    while True:
        nm, ne = r.choice([1, 1, 2, 2, 3, 4, 7]) if size is None else size, r.choice([0, 1, 1, 2])
        s = {"pkg": r.choice(PKGS), "msgs": [], "enums": []}
        odd = r.random() < 0.3
        tn = r.sample([oddname(r) if odd and r.random() < 0.5 else x for x in TYPES], nm + ne)
        if len(set(tn)) != len(tn): continue
        for i in range(nm): s["msgs"].append({"name": tn[i], "in": r.randrange(1, i + 1) if i and r.random() < 0.4 else 0, "fields": []})
        for i in range(ne):
            n = r.choice([1, 2, 3, 6])
            s["enums"].append({"name": tn[nm + i], "in": r.randrange(0, nm + 1), "values": r.sample(["ZERO", "One", "two_2", "THREE_x", "f", "LAST_VALUE", "Q"], n),
                               "nums": [0] + r.sample([1, 2, 3, 7, 100, -1, 2147483647], n - 1)})
        for m in s["msgs"]:
            ns = r.sample(NAMES, r.choice([0, 1, 1, 2, 3, 4, 6, 9, 16]))
            if odd: ns = list(dict.fromkeys(oddname(r) if r.random() < 0.5 else x for x in ns))
            for n in ns:
                p = r.choice(SCALARS) if r.random() < 0.6 else r.choice([14, 11, 11]) if ne else 11
                f = field(n, r.choice(["one", "one", "list", "map"]), p, r.choice(KEYS), r.randrange(1, nm + 1), r.randrange(1, ne + 1) if ne else 0)
                if finite and p == 11 and f["c"] == "one":           # only of messages declared later
                    j = s["msgs"].index(m) + 1
                    if j < nm: f["m"] = r.randrange(j + 1, nm + 1)
                    else: f["c"] = "list"
                m["fields"].append(f)
            for f, no in zip(m["fields"], numbers(r, len(ns))): f["no"] = no
        if not usable(s): continue
        if r.random() < 0.25: s["svc"] = True
        if r.random() < 0.25:
            s["proto2"] = True
            for m in s["msgs"]:
                for f in m["fields"]: f["rq"] = r.random() < 0.4
            for i, e in enumerate(s["enums"], 1):       # one of a map starts with 0
                if not any(f["c"] == "map" and f["p"] == 14 and f["e"] == i for m in s["msgs"] for f in m["fields"]): e["nums"] = r.sample([0, 1, 2, 5, 9, 100, -3, 2147483647], len(e["values"]))
        for e in s["enums"]:
            if r.random() < 0.2: e["nums"] = [e["nums"][0]] + [r.choice(e["nums"]) for _ in e["nums"][1:]]
        if r.random() < 0.3: oneofs(r, s)
        if not finite:
            if r.random() < 0.4: split(r, s)
            s["param"], s["hook"] = r.choice(PARAMS), r.random() < 0.2
            if s["hook"] and r.random() < 0.5: s["param"] = "verif=embed"
            s["path"], s["stem"] = r.choice(["", "", "sub/", "a.b/c_d/"]), r.choice(["", "", "", ".v1", "-x", ".proto"])
            s["nopkg"], s["deco"], s["big"] = r.random() < 0.2, r.random() < 0.25, r.choice([0] * 12 + [1000, 70000, 300000])
        return s

def oneofs(r, s):
    """Runs of fields become the members of a oneof, which are laid out like all others."""
    for m in s["msgs"]:
        n, i, fs = 0, 0, m["fields"]
        while i < len(fs):
            j = i
            while j < len(fs) and fs[j]["c"] == "one" and (j == i or r.random() < 0.7): j += 1
            if j > i and r.random() < 0.6:
                n += 1
                for f in fs[i:j]: f["of"] = n
            i = max(j, i + 1)
    return s

def fromspec(S):
    """The protobuf schema of a schema printed by TLC."""
    return schema("p", [("M%d" % i, 0, [field("f%d" % j, f["c"], PROTO[f["k"]], PROTO[f["kk"]] if f["kk"] else 0, f["m"]) for j, f in enumerate(M)]) for i, M in enumerate(S, 1)])

# ------------------------------------------------------------------- values

def scalar(r, f):
    k = f["k"]
    if k in (STR, BYTES):
        x = r.random()
        if x < 0.25: return []
        if x < 0.9: return list("".join(r.choice("abcé漢 \x00Z") for _ in range(r.randrange(1, 9))).encode())
        return [r.randrange(256) for _ in range(r.choice([3, 20, 127, 128, 200, 300]))]
    if k == BOOL: return [r.randrange(2)]
    w = WIDTH[k]
    x = r.random()
    if x < 0.25: return [0] * w
    if x < 0.5: return be(r.choice([1, -1, 127, 128, 255, 256, 16383, 16384, 2**31 - 1, -2**31, 2**32 - 1, 2**63 - 1, -2**63]), w)
    if k in (F32, F64) and x < 0.6: return [127, 192, 0, 1][:w] if w == 4 else [127, 248, 0, 0, 0, 0, 0, 1]
    return [r.randrange(256) for _ in range(w)]

def value(r, S, m, depth, empty=0.15, absent=0.25, many=0.0):
    v = [1]
    for f in S[m - 1]:
        def one(elem=False):
            if f["k"] != MSG: return scalar(r, f)
            if depth <= 0 or r.random() < (0.08 if elem else absent): return []
            return value(r, S, f["m"], depth - 1, empty, absent, many)
        if f["c"] == "one": v.append(one())
        else:
            n = 0 if r.random() < empty or depth < 0 else r.choice([1, 1, 2, 3, 5])
            if n and r.random() < many and (f["k"] != MSG or depth <= 1): n = r.choice([9, 17, 33, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300])
            if f["c"] == "list": v.append([one(True) for _ in range(n)])
            else:
                kf = {"k": f["kk"]}
                es = {}
                for _ in range(n): es[str(scalar(r, kf))] = None
                v.append([[json.loads(k), one(True)] for k in es])
    return v

def count(v): return 1 if not isinstance(v, list) else 1 + sum(count(x) for x in v)

def encm(S, m, v, alt=None):
    """alt: also what decoders take but encoders do not write: nil for an empty map, a key more than once"""
    if v == []: return [NIL]
    M, out = S[m - 1], []
    one = lambda f, x: encm(S, f["m"], x, alt) if f["k"] == MSG else enc(f["k"], 0, 0, x)
    wk = lambda f: ANY if f["k"] == MSG else f["k"]
    for g in (lambda f: f["c"] == "one" and f["k"] != MSG, lambda f: f["c"] == "list", lambda f: f["c"] == "map" or f["c"] == "one" and f["k"] == MSG):
        for i, f in enumerate(M):
            if not g(f): continue
            x = v[i + 1]
            if f["c"] == "one": out += one(f, x)
            elif f["c"] == "list": out += enc(SLICE, wk(f), 0, be(len(x), 4)) + sum((one(f, y) for y in x), [])
            elif x == [] and alt and alt.random() < 0.5: out += [NIL]
            else:
                if x and alt and alt.random() < 0.3:
                    x = list(x)
                    for _ in range(alt.choice([1, 1, 2])): x.insert(alt.randrange(len(x) + 1), [alt.choice(x)[0], alt.choice(x)[1]])
                out += enc(MAP, f["kk"], wk(f), be(len(x), 4)) + sum((enc(f["kk"], 0, 0, k) + one(f, y) for k, y in x), [])
    return out

def start(S, m, v):
    """Whether the encoding of a message that is present is nothing or starts with nil."""
    e = encm(S, m, v)
    return v != [] and (e == [] or e[0] == NIL)
def ambiguous(S, m, v):
    if v == []: return False
    if start(S, m, v): return True
    for f, x in zip(S[m - 1], v[1:]):
        if f["k"] != MSG: continue
        for y in ([x] if f["c"] == "one" else x if f["c"] == "list" else [e[1] for e in x]):
            if ambiguous(S, f["m"], y): return True
    return False

def mutate(r, s):
    s = list(s)
    x = r.random()
    if not s or x < 0.05: return [r.randrange(256) for _ in range(r.randrange(0, 6))]
    i = r.randrange(len(s))
    if x < 0.3: return s[:i]
    if x < 0.5: s[i] = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 10, 127, 128, 255, (s[i] + 1) % 256, r.randrange(256)]); return s
    if x < 0.6: del s[i]; return s
    if x < 0.7: return s[:i] + [r.choice([0, 0, 5, 10, 7, 2, 1, 6, 128])] + s[i:]
    # announce another size
    js = [j for j in range(2, len(s) - 1) if s[j] == U32 and (s[j - 2] in (SLICE,) or s[j - 3:j - 2] == [MAP] or s[j - 1] in (STR, BYTES))]
    if not js: return s[:i] + s[i + 1:] + s[i:i + 1]
    j = r.choice(js)
    e = j + 1
    while e < len(s) and s[e] >= 128: e += 1
    return s[:j + 1] + r.choice([uvar(r.randrange(0, 9)), uvar(1 << r.randrange(3, 32)), uvar((1 << 32) - 1), uvar(100000), [128, 128, 0], [255, 255, 255, 255, 31]]) + s[e + 1:]

# ------------------------------------------------------------------- builds

def tools():
    with core.Lock("gen"):
        d = core._harness_copy("gen/gentool")
        out = os.path.join(core.BUILD, "bin")
        os.makedirs(out, exist_ok=True)
        jobs = [(["go", "build", "-mod=readonly", "-o", os.path.join(out, "plugin_" + im), "./protoc-gen-go-polyglot"], os.path.join(core.REPO, sub)) for im, (sub, _) in IMPLS.items()]
        jobs.append((["go", "build", "-o", os.path.join(out, "gentool"), "."], d))
        h = core._harness_copy("gen/hookplugin")
        jobs += [(["go", "build", "-o", os.path.join(out, "hook_" + im), "./" + im], h) for im in IMPLS]
        with cf.ThreadPoolExecutor(3) as ex:
            for x in [ex.submit(core.sh, c, cwd, 600) for c, cwd in jobs]: x.result()
        return {im: os.path.join(out, "plugin_" + im) for im in IMPLS}, os.path.join(out, "gentool")

def regfile(pkg, s):
    n = len(s["msgs"])
    return "package %s\n\nfunc VerifReg() ([]any, []any, [][]uint32) {\n\treturn []any{%s},\n\t\t[]any{%s},\n\t\t[][]uint32{%s}\n}\n" % (
        pkg, ", ".join("(*%s)(nil)" % tname(s, i) for i in range(1, n + 1)), ", ".join("New" + tname(s, i) for i in range(1, n + 1)),
        ", ".join("{%s}" % ", ".join("uint32(%s(%s))" % (ename(s, i), c) for c in consts(s, i)) for i in range(1, len(s["enums"]) + 1)))

def build(impl, plugin, gentool, schemas, tag):
    """Generates and compiles the packages of the schemas.  Returns the driver
    (None when no package compiles) and what became of every schema."""
    w = os.path.join(core.BUILD, "gen", "%s-%s" % (tag, impl))
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    for s in schemas: s["dir"] = "p%d" % s["id"]
    r = core.sh([gentool, plugin, w], timeout=300, input="".join(
        json.dumps({**s, "plugin": os.path.join(os.path.dirname(plugin), "hook_" + impl) if s.get("hook") else ""}) + "\n" for s in schemas))
    res = {}
    for l in r.stdout.splitlines():
        j = json.loads(l)
        res[j["id"]] = {"r": "ok" if j["ok"] else "generator", "ok": j["same"], "x": j["err"][:300], "names": (j["names"] or []) + (j["last"] or [])}
    for s in schemas:
        if res[s["id"]]["r"] != "ok": continue
        d = os.path.join(w, s["dir"])
        fs = [f for f in (os.listdir(d) if os.path.isdir(d) else []) if f.endswith(".go")]
        m = re.search(r"^package (\w+)", open(os.path.join(d, fs[0])).read(), re.M) if fs else None
        if not m:
            res[s["id"]].update(r="generator", x="no Go file in %s" % j["names"]); continue
        res[s["id"]]["pkgs"] = {x for f in fs for x in re.findall(r"^package (\S+)", open(os.path.join(d, f)).read(), re.M)[:1]}
        open(os.path.join(d, "verif_reg.go"), "w").write(regfile(m.group(1), s))
    lib = IMPLS[impl][1]
    src = os.path.join(core.HARNESS, "go")
    open(os.path.join(w, "go.mod"), "w").write(open(os.path.join(src, "go.mod")).read().replace("module verif\n", "module gen\n").replace("/repo", core.REPO))
    shutil.copy(os.path.join(src, "go.sum"), w)
    good = [s for s in schemas if res[s["id"]]["r"] == "ok"]
    b = core.sh(["go", "build"] + ["./" + s["dir"] for s in good], cwd=w, check=False) if good else None
    if b and b.returncode != 0:
        cur, err = None, {}
        for l in b.stderr.splitlines():
            m = re.match(r"# gen/(p\d+)", l)
            if m: cur = m.group(1)
            elif cur: err.setdefault(cur, []).append(l)
            else:
                m = re.match(r"(?:package gen/|)(p\d+)/\S+: ", l)       # does not even parse
                if m: err.setdefault(m.group(1), []).append(l)
        if not err: raise core.CheckError("go build of generated packages failed:\n" + b.stderr[-3000:])
        for s in good:
            if s["dir"] in err: res[s["id"]].update(r="compile", x="; ".join(err[s["dir"]][:2])[:300])
    good = [s for s in schemas if res[s["id"]]["r"] == "ok"]
    if not good: return None, res
    d = os.path.join(w, "drvmain")
    os.makedirs(d)
    open(os.path.join(d, "main.go"), "w").write(open(os.path.join(core.HARNESS, "gen/msgdrv/main.go")).read().replace('"POLYGLOT"', 'polyglot "%s"' % lib))
    open(os.path.join(d, "reg.go"), "w").write("package main\n\nimport (\n%s)\n\nfunc init() {\n%s}\n" % (
        "".join('\t%s "gen/%s"\n' % (s["dir"], s["dir"]) for s in good), "".join("\treg[%d] = %s.VerifReg\n" % (s["id"], s["dir"]) for s in good)))
    core.sh(["go", "build", "-o", "driver", "./drvmain"], cwd=w)
    return os.path.join(w, "driver"), res

# ------------------------------------------------------------------- checks

J0 = {"lay": False, "dec": False, "rt": False, "mem": False, "strict": False, "pos": False}
TYPES_STEPS = lambda s: [{"o": "T", "m": i} for i in range(1, len(s["msgs"]) + 1)] + [{"o": "U", "m": i} for i in range(1, len(s["enums"]) + 1)] + \
                        [{"o": "N", "m": i} for i in range(1, len(s["msgs"]) + 1)]

def E(m, v): return {"o": "E", "m": m, "v": v}
def D(m, at=0, inp=(), slot=0, cut=-1): return {"o": "D", "m": m, "at": at, "in": list(inp), "slot": slot, "cut": cut}

def small(r, S, m, depth=2, **kw):
    big = r.random() < 0.07
    for i in range(12):
        v = value(r, S, m, depth, many=0.25 if big and i < 8 else 0, **kw)
        if count(v) < (4000 if big else 220): return v
        depth -= 1
    return v

def s_roundtrip(r, s, S, n):
    """Messages among other values, read back into new and used messages."""
    ms = list(range(1, len(S) + 1))
    for _ in range(n):
        st, k = [{"o": "R"}], 0
        for _ in range(r.randrange(1, 6)):
            m = r.choice(ms)
            st.append(E(m, small(r, S, m, r.choice([0, 1, 2, 3]), empty=r.choice([0, .15, .6]), absent=r.choice([0, .25, .7])) if r.random() < 0.95 else [])); k += 1
            if r.random() < 0.4: st.append({"o": "K", "k": r.choice([0, 5, 10, 1])})
            st.append(D(m, k, slot=r.choice([0, 0, -1, 1, 1, 2]), cut=r.choice([-1, 0])))
        es = [x["m"] for x in st if x["o"] == "E"]
        for j, m in enumerate(es, 1):
            if r.random() < 0.6: st.append(D(m, j, slot=r.choice([0, -1, 1, 2]), cut=r.choice([-1, 0, 0])))
        yield from st
    yield {"o": "Z"}

def s_layout(r, s, S, n):
    ms = list(range(1, len(S) + 1))
    for i in range(n):
        if i % 3 == 0: yield {"o": "R"}
        m = r.choice(ms)
        if r.random() < 0.3: yield {"o": "K", "k": r.choice([0, 5, 10, 1])}
        v = small(r, S, m, r.choice([0, 1, 2, 3]), empty=r.choice([0, .15, .6]), absent=r.choice([0, .25, .7])) if r.random() < 0.95 else []
        yield E(m, v)
        if r.random() < 0.5: yield D(m, inp=encm(S, m, v, r) + r.choice([[], [], [5, 10, 0], [0]]), slot=r.choice([0, -1, 1, 1]))
    yield {"o": "Z"}

def s_hostile(r, s, S, n):
    ms = list(range(1, len(S) + 1))
    if endless(S): return
    for _ in range(n):
        m = r.choice(ms)
        base = encm(S, m, small(r, S, m, r.choice([1, 2, 3]), absent=r.choice([0, .25]), empty=r.choice([0.15, 0.5])), r)
        for _ in range(r.choice([1, 3, 5])):
            x = mutate(r, base)
            if r.random() < 0.3: x = mutate(r, x)
            yield D(m, inp=x, slot=r.choice([0, 0, -1, 1]))
        if r.random() < 0.3:
            yield D(r.choice(ms), inp=base)                     # as another type
        if r.random() < 0.3:
            yield D(m, inp=base, slot=1)
        if r.random() < 0.2:
            yield D(m, inp=[r.choice([0, 1, 2, 3, 4, 5, 6, 7, 10, 12, 128, 255]) for _ in range(r.randrange(0, 12))])
    yield {"o": "Z"}

def s_absent(r, s, S, n):
    ms = list(range(1, len(S) + 1))
    for _ in range(n):
        yield {"o": "R"}
        k = 0
        for _ in range(r.randrange(2, 6)):
            m, x = r.choice(ms), r.random()
            if x < 0.35: yield E(m, [])
            elif x < 0.65: yield {"o": "X", "m": m, "in": list(r.choice([b"", b"boom", "gr\u00fc\u00df".encode(), bytes([0, 255, 10]), b"x" * 200]))}
            else: yield E(m, small(r, S, m, 2, absent=0.6, empty=0.5))
            k += 1
            yield D(m, k, slot=r.choice([0, 0, -1, 1, 1, -2]), cut=r.choice([-1, 0]))
            if r.random() < 0.3: yield D(r.choice(ms), k, slot=r.choice([0, 1]), cut=0)
    yield {"o": "Z"}

def s_types(r, s, S, n): return []

# message with an absent message first: see known_findings.json
def blurred():
    a = ("A", 0, [field("x", "one", 13)])
    yield ("first-absent", schema("p", [("T", 0, [field("a", "one", 11, m=2), field("b", "one", 11, m=2)]), a]), 1, [1, [], [1, be(7, 4)]])
    yield ("nested-first-absent", schema("p", [("T", 0, [field("n", "one", 13), field("u", "one", 11, m=2)]), ("U", 0, [field("a", "one", 11, m=3), field("b", "one", 11, m=3)]), a]), 1,
           [1, be(1, 4), [1, [], [1, be(7, 4)]]])
    yield ("empty-before-absent", schema("p", [("T", 0, [field("n", "one", 13), field("e", "one", 11, m=2), field("a", "one", 11, m=3)]), ("E", 0, []), a]), 1, [1, be(1, 4), [1], []])

def endless_case():
    s = schema("p", [("T", 0, [field("n", "one", 13), field("l", "list", 11, m=2)]), ("E", 0, [])])
    return "endless-list", s, 1, [U32, 1, SLICE, ANY, U32] + uvar(1 << 15)

def deep_case():
    s = schema("p", [("T", 0, [field("n", "one", 13), field("t", "one", 11, m=1)])])
    return "deep-nesting", s, [{"o": "P", "m": 1, "k": 16000000, "in": [U32, 0]}]

MODES = {
 "C13": dict(j={"rt": True}, steps=s_roundtrip, n=(12, 40)),
 "C14": dict(j={"dec": True, "mem": True}, steps=s_hostile, n=(30, 90)),
 "C15": dict(j={"lay": True, "dec": True}, steps=s_layout, n=(24, 80)),
 "C16": dict(j={"lay": True, "dec": True, "rt": True}, steps=s_absent, n=(10, 40)),
 "C18": dict(j={}, steps=s_types, n=(0, 0)),
}

def gofields(s): return [[{"go": "Verif", **HOOK}] * bool(s.get("hook")) + [{"go": fname(f["n"]), **shape(f)} for f in m["fields"]] for m in s["msgs"]]

def round_(chk, pid, bins, r, schemas, vectors, extra):
    """schemas: list; vectors: {id: [(m, v, bytes)]}; extra: {id: (judge, steps, key)}."""
    mode = MODES[pid]
    n = mode["n"][0 if chk.tier == "quick" else 1]
    scripts = {}
    for s in schemas:
        S = spec(s)
        if s["id"] in extra: scripts[s["id"]] = extra[s["id"]][1]; continue
        st = TYPES_STEPS(s) if pid == "C18" else []
        if s["id"] in vectors:
            for m, v, b in vectors[s["id"]]:
                if pid in ("C13", "C16"): st += [{"o": "R"}, E(m, v), {"o": "K", "k": 10}, D(m, 1, slot=r.choice([0, -1, 1])), D(m, 1, cut=0, slot=r.choice([0, 1]))]
                elif pid == "C15": st += [E(m, v), D(m, inp=b)]
                elif pid == "C14" and not endless(S): st += [D(m, inp=b)] + [D(m, inp=b[:i], slot=r.choice([0, -1, 1])) for i in range(len(b))]
        elif S: st += list(mode["steps"](r, s, S, n))
        scripts[s["id"]] = st
    traces = []
    seen = {i: set() for i in IMPLS}
    def one(impl):
        drv, res = build(impl, bins[0][impl], bins[1], schemas, pid)
        cases = [{"id": s["id"], "pkg": s["id"], "s": scripts[s["id"]], "t": gofields(s)} for s in schemas if res[s["id"]]["r"] == "ok" and scripts[s["id"]]]
        return impl, res, (core.run_driver([drv], cases, timeout=240) if cases else {})
    with cf.ThreadPoolExecutor(2) as ex:
        for impl, res, evs in ex.map(one, IMPLS):
            for s in schemas:
                g = res[s["id"]]
                ev = [blank("G", r=g["r"], ok=g["ok"], x=g["x"])]
                if pid == "C18" and g["r"] == "ok": ev += qnames(s, None, seen[impl], g["pkgs"])
                if g["r"] == "ok" and scripts[s["id"]]:
                    got = evs.get(s["id"])
                    if got is None: continue
                    ev += [{k: e[k] for k in blank("")} if "slot" in e else blank(e["o"], r=e["r"], x=e["x"]) for e in got]
                j = {**J0, **(extra[s["id"]][0] if s["id"] in extra else mode["j"])}
                km = 2048 + 8 * max([fresh(s, i) for i in range(1, len(s["msgs"]) + 1)] or [0])
                traces.append({"id": s["id"], "d": impl, "j": j, "S": spec(s), "en": [len(e["values"]) for e in s["enums"]], "km": km,
                               "want": names(s), "got": g["names"], "ev": ev})
                chk.extra.setdefault("traces_per_implementation", {}).setdefault(impl, 0)
                chk.extra["traces_per_implementation"][impl] += 1
    rej, st = core.validate("MsgTrace", "MsgTrace.cfg", traces, "MsgTraceWhere.cfg", tag=pid)
    chk.traces(len(traces), sum(len(t["ev"]) for t in traces), st)
    by = {s["id"]: s for s in schemas}
    for t in traces[:: max(1, len(traces) // 3)]:
        chk.sample({"impl": t["d"], "schema": t["S"], "events": [{k: v for k, v in e.items() if v not in ([], -1, "", 0)} for e in t["ev"][:4]]}, 3)
    for i, pos in rej:
        t = traces[i]
        s = by[t["id"]]
        e = t["ev"][pos - 1] if 0 < pos <= len(t["ev"]) else {"o": "?"}
        key = "%s %s" % (t["d"], extra[t["id"]][2]) if t["id"] in extra else \
              "%s %s %s" % (t["d"], json.dumps([s["pkg"], s["msgs"], s["enums"]], separators=(",", ":")), json.dumps(e, separators=(",", ":")))[:3000]
        chk.violation(key, "%s: event %d is no step of the specification: %s" % (t["d"], pos, json.dumps({k: v for k, v in e.items() if v not in ([], -1, "")})[:400]),
                      {"impl": t["d"], "schema": s, "trace": t["ev"][:pos + 1], "event": pos})
    return len(rej)

def blank(o, **kw):
    e = {"o": o, "m": 0, "k": 0, "v": [], "d": [], "n": 0, "at": 0, "slot": 0, "r": "ok", "ok": True, "mem": -1, "x": ""}
    e.update(kw)
    return e

def run(pid):
    def f(chk):
        quick = chk.tier == "quick"
        budget = 45 if quick else 600
        with cf.ThreadPoolExecutor(4) as ex:
            fm = ex.submit(lambda: [core.model_check("MCMsg", "MCMsgSmall.cfg" if quick else "MCMsg.cfg", workers=3 if quick else 5, timeout=640),
                                    core.model_fails("MCMsg", "MCMsgBlurred.cfg", workers=1)] +
                                   ([core.model_check("MCNames", "MCNames.cfg", workers=1), core.model_fails("MCNames", "MCNamesLoose.cfg", workers=1)] if pid == "C18" else []))
            fv = ex.submit(core.behaviours, "MCMsgGen", "MCMsgGen.cfg" if quick else "MCMsgGenDeep.cfg")
            bins = tools()
            hs, gst = fv.result()
            chk.model(gst)
            groups = {}
            for S, v, b in hs: groups.setdefault(json.dumps(S), []).append((1, v, b))
            rnd = 0
            while True:
                r = random.Random("%s %d %d" % (pid, chk.seed, rnd))
                t0 = time.time()
                schemas, vectors, extra = [], {}, {}
                if rnd == 0: schemas += list(fixed()) + list(fixed_go())
                for k in r.sample(sorted(groups), min(len(groups), 14 if quick else 60)):
                    s = fromspec(json.loads(k)); schemas.append(s)
                    s["vec"] = groups[k]
                schemas += [randschema(r) for _ in range(30 if quick else 90)]
                if rnd == 0:
                    if pid == "C13":
                        for key, s, m, v in blurred():
                            s["x"] = ({"rt": True, "strict": True}, [E(m, v), D(m, 1)], key); schemas.append(s)
                    if pid == "C14":
                        key, s, m, inp = endless_case()
                        s["x"] = ({"mem": True}, [D(m, inp=inp)], key); schemas.append(s)
                        key, s, st = deep_case()
                        s["x"] = ({}, st, key); schemas.append(s)
                for i, s in enumerate(schemas):
                    s["id"] = i
                    if "vec" in s: vectors[i] = s.pop("vec")
                    if "x" in s: extra[i] = s.pop("x")
                bad = round_(chk, pid, bins, r, schemas, vectors, extra)
                rnd += 1
                chk.note("schemas", len(schemas))
                if len(chk.viol) or chk.left(budget) < 1.5 * (time.time() - t0): break
            chk.note("rounds", rnd)
            for m in fm.result():
                if "refuted" in m: chk.extra.setdefault("refuted_variants", []).append(m["config"])
                else: chk.model(m)
    return f
