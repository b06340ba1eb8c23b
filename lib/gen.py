"""Script generators for the codec drivers.  Nothing here judges anything: the
encoder and decoder below only serve to build interesting inputs and to guide
the choice of the next operation."""
import random

NIL, SLICE, MAP, ANY, BYTES, STR, ERR, BOOL, U8, U16, U32, U64, I32, I64, F32, F64 = range(16)
WIDTH = {BOOL: 1, U8: 1, U16: 2, U32: 4, I32: 4, F32: 4, SLICE: 4, MAP: 4, U64: 8, I64: 8, F64: 8}
KINDS = [k for k in range(16) if k != ANY]
VARINTS = [U16, U32, U64, I32, I64]
MAXVAR = {1: 2, 2: 3, 4: 5, 8: 10}

def be(n, w): return list((n % (1 << (8 * w))).to_bytes(w, "big"))
def num(v): return int.from_bytes(bytes(v), "big")

def uvar(n):
    r = []
    while n >= 128:
        r.append(n & 127 | 128); n >>= 7
    return r + [n]

def zig(n, w):
    b = 8 * w
    s = n - (1 << b) if n >> (b - 1) else n
    return (2 * s if s >= 0 else -2 * s - 1)

def blobpat(x): return 0 if -x < 17 << 24 else (-x >> 24) - 16
def bloblen(x): return -x if -x < 17 << 24 else -x & (1 << 24) - 1
def size(v): return sum(bloblen(x) if x < 0 else 1 for x in v)
def pattern(p, n): return -n if p == 0 or n >= 1 << 24 else -((16 + p) << 24 | n)

def enc(k, a, b, v):
    ln = lambda: [U32] + uvar(size(v))
    if k in (NIL, ANY): return [k]
    if k == SLICE: return [k, a, U32] + uvar(num(v))
    if k == MAP: return [k, a, b, U32] + uvar(num(v))
    if k in (BYTES, STR): return [k] + ln() + v
    if k == ERR: return [k, STR] + ln() + v
    if k in (I32, I64): return [k] + uvar(zig(num(v), WIDTH[k]))
    if k in (U16, U32, U64): return [k] + uvar(num(v))
    return [k] + v

def dec_len(k, s, p):
    """Bytes consumed by a plausible item at p, or 0 (guidance only)."""
    def var(q, w):
        for i in range(MAXVAR[w]):
            if q + i >= len(s) or s[q + i] < 0: return 0
            if s[q + i] < 128: return i + 1
        return 0
    def size(q):
        n = var(q, 4)
        if not n: return 0, 0
        return n, sum((s[q + i] & 127) << (7 * i) for i in range(n))
    if p >= len(s) or s[p] != k: return 0
    if k in (NIL, ANY): return 1
    if k in VARINTS: 
        n = var(p + 1, WIDTH[k]); return n and n + 1
    if k in (BOOL, U8, F32, F64): return WIDTH[k] + 1 if p + 1 + WIDTH[k] <= len(s) else 0
    h = {SLICE: 3, MAP: 4, BYTES: 2, STR: 2, ERR: 3}[k]
    if p + h > len(s) or s[p + h - 1] != U32: return 0
    n, z = size(p + h)
    if not n: return 0
    if k in (SLICE, MAP): return h + n
    if p + h + n < len(s) and s[p + h + n] < 0: return h + n + 1
    return h + n + z if p + h + n + z <= len(s) else 0

# ------------------------------------------------------------------ values

def int_pool(w, signed=False):
    b = 8 * w
    r = {0, 1, 2, 3, (1 << b) - 1, (1 << b) - 2, 1 << (b - 1), (1 << (b - 1)) - 1, (1 << (b - 1)) + 1}
    for i in range(b):
        r |= {1 << i, (1 << i) - 1, ((1 << b) - 1) ^ (1 << i), ((1 << b) - 1) << i}
    for g in range(0, b + 1, 7):
        r |= {(1 << g) - 1, 1 << g, (1 << g) + 1, 0x55 << g, (1 << (g + 7)) - (1 << g)}
        if signed:   # neighbours of the points where the zigzag form gains a byte
            for d in (-2, -1, 0, 1, 2):
                r |= {(1 << g) // 2 + d, -((1 << g) // 2) + d}
    return sorted({x % (1 << b) for x in r})

F32_POOL = [0, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 1, 0x80000001,
            0x007fffff, 0x00800000, 0x7f7fffff, 0xff7fffff, 0x01020304, 0x80ff7f01, 0x3eaaaaab, 0x7fc00001, 0xffc12345]
F64_POOL = [0, 1 << 63, 0x3ff0000000000000, 0xbff0000000000000, 0x7ff0000000000000, 0xfff0000000000000,
            0x7ff8000000000000, 1, (1 << 63) + 1, 0x000fffffffffffff, 0x0010000000000000, 0x7fefffffffffffff,
            0x0102030405060708, 0x807fff80ff01fe02, 0x3fd5555555555555, 0x7ff8000000000001]
POOL = {k: int_pool(WIDTH[k], k in (I32, I64)) for k in (U8, U16, U32, U64, I32, I64, SLICE, MAP)}
POOL[F32], POOL[F64], POOL[BOOL] = F32_POOL, F64_POOL, [0, 1]

CHARS = ["a", "Z", "0", " ", "\n", "\x7f", "\u0080", "\u00e9", "\u07ff", "\u0800", "\u20ac", "\ud7ff", "\ue000",
         "\ufeff", "\ufffd", "\uffff", "\U00010000", "\U0001f600", "\U0010ffff"]
LENS = [0, 1, 2, 3, 7, 31, 63, 64, 126, 127, 128, 129, 200, 254, 255, 256]
def blob(r):
    """a length that is no literal in a script: around powers of two, or any"""
    x = r.random()
    if x < 0.4: return r.choice(BLOBS)
    if x < 0.75: return max(257, (1 << r.randrange(8, 18)) + r.choice([-4, -3, -2, -1, 0, 1, 2, 3, 4, 5]))
    return int(257 * 2 ** (r.random() * (9 if r.random() < 0.8 else 12)))
BLOBS = [257, 300, 500, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 600, 1023, 1024, 1025, 2048, 5000, 16383, 16384, 16385]

def text(r, n, nul=False):
    """about n bytes of UTF-8"""
    t = ""
    while len(t.encode()) < n:
        x = r.random()
        if nul and x < 0.05: t += "\x00"
        elif x < 0.5: t += chr(r.randrange(32, 127))
        else: t += r.choice(CHARS)
    b = t.encode()
    if len(b) > n:          # trim to n with ASCII
        while len(b) > n:
            t = t[:-1]; b = t.encode()
        b += b"x" * (n - len(b))
    return list(b)

def length(r):
    x = r.random()
    if x < 0.75: return r.choice(LENS[:8]) if x < 0.5 else r.randrange(0, 40)
    return r.choice(LENS)

def value(r, k, big=0.0, raw=False, nul=False):
    if k in (NIL, ANY): return []
    if k in (BYTES, STR, ERR):
        if r.random() < big: return [pattern(r.choice([0, 0, 0, 1, 1, 2, 3, 4] if k == BYTES or raw else [0, 0, 1, 1, 4] if nul else [0, 0, 0, 1, 1]), blob(r))]
        n = length(r)
        if k == BYTES or raw:
            return [r.choice([0, 1, 5, 10, 127, 128, 129, 192, 255, r.randrange(256)]) for _ in range(n)]
        return text(r, n, nul)
    w = WIDTH[k]
    x = r.random()
    if x < 0.6: return be(r.choice(POOL[k]), w)
    if k == BOOL: return [r.randrange(2)]
    if k in (F32, F64): return be(r.getrandbits(8 * w) & ~(0x7f800000 if k == F32 else 0x7ff << 52) | (r.randrange(0, 200) << (23 if k == F32 else 52)), w)
    return be(r.getrandbits(r.randrange(1, 8 * w + 1)), w)

def item(r, k=None, **kw):
    if k is None: k = r.choice(KINDS)
    a = r.choice(KINDS + [ANY]) if k in (SLICE, MAP) else 0
    b = r.choice(KINDS + [ANY]) if k == MAP else 0
    return (k, a, b, value(r, k, **kw))

# ------------------------------------------------------------------ steps

def E(it): return {"o": "E", "k": it[0], "a": it[1], "b": it[2], "v": it[3]}
def D(k, a=0, b=0, dst=None):
    s = {"o": "D", "k": k, "a": a, "b": b}
    if dst: s["dl"], s["dc"] = dst
    return s
def L(v): return {"o": "L", "v": v}
X, Z, R = {"o": "X"}, {"o": "Z"}, {"o": "R"}
def C(x): return {"o": "C", "n": x}

def S(r): return {"o": "S", "n": r.choice([65, 255, 1])}

def wrong_ops(r, it, n):
    """decode attempts that do not match item it"""
    res = []
    for _ in range(n):
        if it[0] in (SLICE, MAP) and r.random() < 0.5:
            a, b = it[1], it[2]
            while (a, b) == (it[1], it[2]): a, b = r.choice(KINDS), (r.choice(KINDS) if it[0] == MAP else 0)
            if it[0] == MAP and r.random() < 0.5: a = it[1]; b = r.choice([k for k in KINDS if k != it[2]])
            res.append(D(it[0], a, b))
        else:
            k = r.choice([k for k in KINDS if k != it[0]])
            a = it[1] if it[0] in (SLICE, MAP) else r.choice(KINDS)
            res.append(D(k, a if k in (SLICE, MAP) else 0, (it[2] if it[0] == MAP else r.choice(KINDS)) if k == MAP else 0))
    return res

def battery(r, s, p, ks=None):
    """one attempt of every kind; element kinds as found in the input"""
    at = lambda i: s[p + i] if p + i < len(s) and 0 <= s[p + i] < 16 else r.choice(KINDS)
    ops = [D(k, at(1) if k in (SLICE, MAP) else 0, at(2) if k == MAP else 0) for k in (ks or KINDS)]
    r.shuffle(ops)
    return ops

def op_at(s, p, r):
    """the operation that fits the bytes at p"""
    k = s[p] if p < len(s) and 0 <= s[p] < 16 and s[p] != ANY else r.choice(KINDS)
    at = lambda i: s[p + i] if p + i < len(s) and 0 <= s[p + i] < 16 else r.choice(KINDS)
    return D(k, at(1) if k in (SLICE, MAP) else 0, at(2) if k == MAP else 0)

def walk(r, s, steps, full=2):
    """decode attempts over input s: mostly fitting ones, a few others; a full
    battery after each of the first `full` failures"""
    ops, p = [], 0
    fails = 0
    for _ in range(steps):
        if r.random() < 0.2:
            ops += r.sample(battery(r, s, p), 2)
            # the guide may have guessed wrong; recompute below
        o = op_at(s, p, r); ops.append(o)
        n = dec_len(o["k"], s, p)
        if n == 0:
            fails += 1
            if fails <= full: ops += battery(r, s, p) + [dict(o)]
            if p >= len(s): break
            break
        p += n
    return ops

def mk(init, steps): return {"init": init or {}, "s": steps}

# ------------------------------------------------------------------ inits

def inits(r, impl=None):
    x = r.random()
    if x < 0.25: return {}
    if x < 0.6: return {"m": "size", "n": r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 20, 32, 64, 100, 512])}
    n = r.choice([0, 1, 2, 3, 5, 8, 16, 33, 64])
    return {"m": "from", "n": n, "cap": n + r.choice([0, 0, 1, 2, 3, 7, 8, 9, 16, 64]), "off": r.choice([0, 1, 8, 13])}

# ------------------------------------------------------------------ families

def rt(its, init=None):
    """write everything, read everything"""
    return mk(init, [E(x) for x in its] + [dict(X)] + [D(x[0], x[1], x[2]) for x in its] + [dict(Z)])

def wr(its, init=None):
    return mk(init, [E(x) for x in its] + [dict(Z)])

def isolate(c):
    """the same attempts, each on a fresh decoder: nothing depends on where an
    earlier failed attempt left the decoder"""
    s, pre = None, []
    out = []
    for st in c["s"]:
        if st["o"] == "L": s, pre = st, []; continue
        if st["o"] != "D": return c
        out += [dict(s)] + [dict(x) for x in pre] + [st]
        ins = s["v"]
        p = 0
        for x in pre: p += dec_len(x["k"], ins, p)
        n = dec_len(st["k"], ins, p)
        if n and not (st["k"] in (SLICE, MAP) and (ins[p + 1] != st["a"] or st["k"] == MAP and ins[p + 2] != st["b"])):
            pre = pre + [st]
        if len(out) > 150 or sum(x['o'] == 'D' and x['k'] in (BYTES, STR, ERR) for x in out) > 48: break
    return mk(c.get("init"), out)


def fam_exhaustive_values(r, ks, per_case=40):
    """every pool value of every kind, encoded and read back"""
    for k in ks:
        vs = [be(x, WIDTH[k]) for x in POOL[k]] if k in POOL else None
        if vs is None:
            vs = [[]] if k in (NIL, ANY) else [text(r, n) for n in LENS] + [[-b] for b in BLOBS]
        for i in range(0, len(vs), per_case):
            its = [(k, r.choice(KINDS) if k in (SLICE, MAP) else 0, r.choice(KINDS) if k == MAP else 0, v) for v in vs[i:i + per_case]]
            steps = []
            for it in its: steps.append(E(it))
            steps.append(X)
            for it in its: steps.append(D(it[0], it[1], it[2]))
            steps += [D(k, its[-1][1], its[-1][2]), Z]
            yield mk({}, steps)

def fam_roundtrip(r, n, big=0.08, raw=False, nul=False, wrong=0.3, maxitems=9):
    for _ in range(n):
        its = [item(r, big=big, raw=raw, nul=nul) for _ in range(r.randrange(1, maxitems))]
        steps = [E(x) for x in its] + [X]
        for it in its:
            if r.random() < wrong: steps += wrong_ops(r, it, r.randrange(1, 4))
            steps.append(D(it[0], it[1], it[2]))
            if it[0] == BYTES and r.random() < 0.3: steps.append(S(r))
        steps += r.sample(battery(r, [], 0), 3) + [Z]
        yield mk(inits(r), steps)

def similar(r, it):
    """a value of the same kind and length that differs in little"""
    k, a, b, v = it
    if not v: return it
    if v[0] < 0:
        n = bloblen(v[0])
        return (k, a, b, [pattern(r.choice([0, 2, 3, 4] if k == BYTES else [0, 1, 0]), n)]) if n < 1 << 24 else it
    v = list(v)
    i = r.choice([0, len(v) - 1, len(v) // 2, r.randrange(len(v))])
    if k in (STR, ERR):
        if not all(32 <= x < 127 for x in v): return it
        v[i] = 32 + (v[i] - 32 + r.randrange(1, 95)) % 95
    elif k == BOOL: v[i] ^= 1
    else: v[i] ^= 1 << r.randrange(8)
    if k == F32 and v[0] & 127 == 127 and v[1] >= 128 or k == F64 and v[0] & 127 == 127 and v[1] >= 240: return it      # no new NaN
    return (k, a, b, v)

def fam_similar(r, n, maxitems=10):
    """one value after the other, hardly different, with one decoder or several"""
    for _ in range(n):
        it = item(r, r.choice([STR, BYTES, STR, BYTES, ERR, None]), big=0.12)
        if it[0] in (STR, ERR) and it[3] and it[3][0] >= 0: it = (it[0], it[1], it[2], [r.randrange(32, 127) for _ in it[3]])
        its, steps = [it], []
        while len(its) < r.randrange(2, maxitems): its.append(similar(r, r.choice(its)))
        own = r.random() < 0.5          # the values are written to by whoever got them
        read = lambda x: [D(x[0], x[1], x[2])] + ([S(r)] if own and x[0] == BYTES else [])
        if r.random() < 0.5: steps = [E(x) for x in its] + [dict(X)] + [d for x in its for d in read(x)]
        else:
            for x in its: steps += [E(x), dict(X), *read(x), dict(R)]
        yield mk(inits(r), steps + [dict(Z)])

def nested(r, depth=0):
    """a container with its elements: what applications actually write"""
    if depth > 2 or r.random() < 0.4: return [item(r, r.choice([k for k in KINDS if k not in (SLICE, MAP)]))]
    n = r.randrange(0, 4)
    if r.random() < 0.5:
        ek = r.choice([k for k in KINDS if k not in (SLICE, MAP)])
        return [(SLICE, ek, 0, be(n, 4))] + [item(r, ek) for _ in range(n)]
    res = [(MAP, STR, ANY, be(n, 4))]
    for _ in range(n): res += [item(r, STR)] + nested(r, depth + 1)
    return res

def fam_nested(r, n):
    for _ in range(n):
        its = nested(r) + nested(r)
        yield mk(inits(r), [E(x) for x in its] + [X] + [D(x[0], x[1], x[2]) for x in its] + battery(r, [], 0)[:2] + [Z])

def fam_varint(r, reps=1, kinds=None):
    """every shape of variable-length integer: number of bytes, final byte,
    truncation, trailing data; standalone and as a size"""
    heads = [(k, [k], WIDTH[k], (0, 0)) for k in VARINTS]
    heads += [(SLICE, [SLICE, U16, U32], 4, (U16, 0)), (MAP, [MAP, STR, I64, U32], 4, (STR, I64)),
              (BYTES, [BYTES, U32], 4, (0, 0)), (STR, [STR, U32], 4, (0, 0)), (ERR, [ERR, STR, U32], 4, (0, 0))]
    for k, h, w, (a, b) in heads:
        if kinds and k not in kinds: continue
        m = MAXVAR[w]
        for n in range(0, m + 2):
            finals = [None, 0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 126, 127]
            for f in finals:
                for _ in range(reps):
                    mode = r.randrange(3)
                    body = [{0: 0x80, 1: 0xff, 2: r.randrange(128, 256)}[mode] for _ in range(n)] + ([] if f is None else [f])
                    tail = [] if r.random() < 0.3 else r.choice([[NIL], [U8, 9], [BOOL, 1, 0], [r.randrange(256) for _ in range(r.randrange(1, 12))]])
                    if f is None: tail = []
                    s = h + body + tail
                    ops = [D(k, a, b)]
                    if r.random() < 0.5: ops = [D(r.choice(KINDS), a, b)] + ops
                    yield mk({}, [L(s)] + ops + battery(r, s, 0) + [D(k, a, b)])

def fam_sizes(r, n):
    """size fields that disagree with the data that follows"""
    for _ in range(n):
        k = r.choice([BYTES, STR, ERR])
        have = r.choice([0, 1, 2, 3, 5, 20, 127, 128, 130])
        x = (1 << r.randrange(7, 32)) + r.choice([-2, -1, 0, 0, 1, 2])
        z = r.choice([x, x, x, have, have, max(0, have - 1), have + 1, have + 2, 2 * have + 1, 127, 128, 255, 16383, 1 << 20,
                      (1 << 28) - 1, 1 << 28, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, r.getrandbits(32)])
        body = text(r, have) if k != BYTES else [r.randrange(256) for _ in range(have)]
        pre = r.choice([[], [], [NIL], [U8, 7]])
        s = pre + ([ERR] if k == ERR else []) + [k if k != ERR else STR, U32] + uvar(z) + body
        ops = []
        if pre: ops.append(D(pre[0]))
        ops += [D(k)] + battery(r, s, len(pre)) + [D(k)]
        yield mk({}, [L(s)] + ops)

def fam_truncate(r, n):
    for _ in range(n):
        its = [item(r) for _ in range(r.randrange(1, 4))]
        its = [x if len(x[3]) < 40 else (x[0], x[1], x[2], x[3][:7] if x[0] == BYTES else list(b"trimmed")) for x in its]
        s = sum((enc(*x) for x in its), [])
        for cut in ([len(s) - 1] + [r.randrange(len(s)) for _ in range(2)]):
            t = s[:cut]
            ops, p = [], 0
            for it in its:
                ln = len(enc(*it))
                if r.random() < 0.2: ops += wrong_ops(r, it, 2)
                ops.append(D(it[0], it[1], it[2]))
                if p + ln > len(t):
                    ops += battery(r, t, p) + [D(it[0], it[1], it[2])]
                    break
                p += ln
            yield mk({}, [L(t)] + ops)

def fam_mutate(r, n):
    for _ in range(n):
        its = [item(r) for _ in range(r.randrange(1, 6))]
        s = sum((enc(*x) for x in its), [])[:300]
        for _ in range(r.randrange(1, 4)):
            x = r.random()
            i = r.randrange(len(s)) if s else 0
            if x < 0.5 and s: s[i] = r.choice([0, 1, 4, 5, 6, 10, 127, 128, 255, s[i] ^ 1 << r.randrange(8), r.randrange(16)])
            elif x < 0.7 and s: del s[i]
            elif x < 0.9: s.insert(i, r.choice([0, 10, 128, 255, r.randrange(16)]))
            else: s = s[i:] + s[:i]
        yield mk({}, [L(s)] + walk(r, s, 12))

def fam_junk(r, n):
    tags = list(range(16))
    for _ in range(n):
        ln = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 20])
        s = [r.choice(tags + [10, 10, 128, 255, 129, 1, 2]) if r.random() < 0.85 else r.randrange(256) for _ in range(ln)]
        yield mk({}, [L(s)] + walk(r, s, 10))

def fam_matrix(r):
    """every kind of value against every kind of attempt"""
    for k in KINDS:
        for variant in range(3):
            it = item(r, k)
            if k in (BYTES, STR, ERR) and variant == 0: it = (k, 0, 0, [])
            s = enc(*it)
            for tail in ([], [r.randrange(16) for _ in range(6)]):
                ops = []
                for o in battery(r, s, 0):
                    if o["k"] != k: ops.append(o)
                if k in (SLICE, MAP): ops += wrong_ops(r, it, 8)
                yield mk({}, [L(s + tail)] + ops + [D(it[0], it[1], it[2])] + battery(r, tail, 0)[:4])

def fam_headers(r, n=None):
    """encodings with one byte of their head replaced, inserted, doubled or
    removed; many per script"""
    ss = []
    for k in KINDS:
        for its in [item(r, k, big=0) for _ in range(2)]:
            if len(its[3]) > 12 and k in (BYTES, STR, ERR): its = (its[0], its[1], its[2], its[3][:6])
            s = enc(*its)
            for i in range(min(len(s), 6)):
                for x in list(range(17)) + [127, 128, 255]:
                    if x != s[i]: ss.append((its, s[:i] + [x] + s[i + 1:]))
                    ss.append((its, s[:i] + [x] + s[i:]))
                ss.append((its, s[:i] + s[i + 1:]))
    r.shuffle(ss)
    if n: ss = ss[:n]
    for j in range(0, len(ss), 12):
        ops = []
        for its, s in ss[j:j + 12]:
            ops += [L(s), D(its[0], its[1], its[2]), op_at(s, 0, r)] + [D(r.choice(KINDS), r.choice(KINDS), r.choice(KINDS))] + ([op_at(s, 1, r)] if s else [])
            ops.append(D(its[0], its[1], its[2]))
        yield mk({}, ops)

def fam_growth(r, n, kmax=14, raw=False):
    """short and long values through every initial storage"""
    for _ in range(n):
        its = [item(r, big=0.15, raw=raw) for _ in range(r.randrange(2, kmax))]
        if r.random() < 0.3: its = [item(r, r.choice([NIL, BOOL, U8, U16, F32])) for _ in range(r.randrange(3, 30))]
        steps = []
        for it in its:
            steps.append(E(it))
        yield mk(inits(r), steps + [X] + [D(x[0], x[1], x[2]) for x in its[:12]] + [Z])

def fam_boundary(r, sizes):
    """storage of every small size, filled exactly to the brim before each kind"""
    for z in sizes:
        for k in KINDS:
            it = item(r, k)
            if k in POOL: it = (k, it[1], it[2], be(POOL[k][-1] if r.random() < .5 else r.choice(POOL[k]), WIDTH[k]))
            fill = r.choice([z, max(0, z - 1), max(0, z - 2), max(0, z - r.randrange(1, 12)), 0])
            steps = []
            left = fill
            while left >= 2 and r.random() < 0.9:
                m = min(left, r.choice([2, 3, 5])); 
                if m == 2: steps.append(E((U8, 0, 0, [r.randrange(256)])))
                elif m == 3: steps.append(E((BYTES, 0, 0, [])))
                else: steps.append(E((F32, 0, 0, be(r.choice(F32_POOL), 4))))
                left -= m
            steps += [E((NIL, 0, 0, []))] * left
            mode = r.choice([{"m": "size", "n": z}, {"m": "from", "n": z, "cap": z + r.choice([0, 1, 4, 9]), "off": r.choice([0, 5])}])
            its = steps[:]
            steps = steps + [E(it), E((U8, 0, 0, [255]))]
            yield mk(mode, steps + [X] + [D(s["k"], s["a"], s["b"]) for s in steps] + [Z])

def fam_buffer(r, n, move=True):
    """raw writes, Grow, MoveOffset, Reset and values interleaved"""
    for _ in range(n):
        steps, ln, can = [], 0, move
        for _ in range(r.randrange(2, 16)):
            x = r.random()
            if x < 0.35:
                m = r.choice([0, 1, 2, 3, 5, 8, 13, 31, 64, 100, 250])
                if r.random() < 0.1:
                    m = blob(r); v = [-m]
                else: v = [r.randrange(256) for _ in range(m)]
                steps.append({"o": "W", "v": v}); ln += m
                if v and v[0] < 0: can = False     # blobs cannot be split by MoveOffset
            elif x < 0.5: steps.append({"o": "G", "n": r.choice([0, 1, 2, 5, 10, 30, 100, 513, 1000])})
            elif x < 0.62 and can:
                m = r.choice([-1, -2, -3, -5, 0])
                if ln + m >= 0: steps.append({"o": "M", "n": m}); ln += m
            elif x < 0.68 and can:
                g = r.choice([1, 3, 8, 40]); steps += [{"o": "G", "n": g}, {"o": "M", "n": g}]; ln += g
            elif x < 0.72 and can:       # within whatever capacity there is
                steps.append({"o": "M", "n": r.choice([1, 2, 6, 10, 60, 300])})
            elif x < 0.75: steps.append(dict(R)); ln = 0
            else:
                it = item(r); steps.append(E(it)); ln += len(enc(*it))
        yield mk(inits(r), steps + [dict(Z)])

def fam_self(r, n, raw=False):
    """what was written is written again, straight from the storage it is in"""
    for _ in range(n):
        its, steps = [], []
        for _ in range(r.randrange(2, 12)):
            if steps and r.random() < 0.45:
                its.append((BYTES, 0, 0, []))
                steps.append({**E(its[-1]), "dl": r.choice([0, 0, 1, 2, 5, 30]), "dc": r.choice([1, 2, 3, 10, 50, 200, 513, 1500])})
                if raw and r.random() < 0.4: steps[-1]["o"] = "W"; its.pop()
            else: its.append(item(r)); steps.append(E(its[-1]))
        yield mk(inits(r), steps + ([dict(Z)] if raw else [dict(X)] + [D(x[0], x[1], x[2]) for x in its] + [dict(Z)]))

def fam_own(r, n):
    """values must survive the reuse of the input memory, of the decoder, of
    the destination, and later decodes"""
    for _ in range(n):
        its = [item(r, r.choice([BYTES, STR, ERR, BYTES, STR, U8, NIL]), big=0.15) for _ in range(r.randrange(1, 6))]
        if r.random() < 0.3: its += [r.choice(its) for _ in range(2)]
        blob = any(x[3] and x[3][0] < 0 for x in its)
        steps = [E(x) for x in its] + [dict(X)]
        for it in its:
            dst = None
            if it[0] == BYTES and r.random() < 0.7:
                ln = size(it[3])
                c = r.choice([1, max(1, ln - 1), max(1, ln), ln + 1, 2 * ln + 3, 600])
                dst = (r.choice([0, c, min(c, ln), max(0, min(c, ln - 1)), min(c, ln + 1)]), c)
            if r.random() < 0.15: steps += wrong_ops(r, it, 1)
            steps.append(D(it[0], it[1], it[2], dst))
            if r.random() < 0.35: steps.append(S(r))
        steps.append(C(r.choice([255, 0x41] if blob else [0, 255, 0x41])))
        steps += [D(r.choice(KINDS)) for _ in range(2)]
        it = item(r, r.choice([BYTES, STR]))
        steps += [L(enc(*it) + [0]), D(it[0], 0, 0, (0, 8) if it[0] == BYTES else None), C(7), D(NIL)]
        steps.append(E(item(r, BYTES)))
        yield mk(inits(r), steps + [dict(Z)])

EDGES = ["\x00", "\n", "\r\n", " ", "\t", "\x0b", "\x1b", "\x7f", "\\", "\"", "'", "%", "%s", "{}", "$", "<", "&amp;", "\u0080", "\u0085", "\u00a0", "\u0301", "\u00e9", "e\u0301", "\u200b", "\u200d",
         "\u2028", "\u2029", "\u3000", "\ufeff", "\ufffd", "\uffff", "\U00010000", "\U0001f600", "\U0010ffff", "\u00df", "\u0130", "I", "null", "0", "-0", "nil", "EOF"]
def edges(r):
    """texts with something special at their start, their end or within, alone or twice, as values of all three kinds"""
    its = []
    for t in EDGES:
        for w in (t, t + "ab", "ab" + t, "a" + t + "b", t + t, t + "x" * r.choice([30, 61, 125, 126, 127, 128]) + t):
            its.append((r.choice([STR, ERR]), 0, 0, list(w.encode())))
        its.append((STR, 0, 0, list((t + "a").encode()))); its.append((STR, 0, 0, list(("a" + t).encode())))
        its.append((ERR, 0, 0, list((t + "a").encode()))); its.append((ERR, 0, 0, list(("a" + t).encode())))
    for b in (0, 1, 5, 10, 13, 32, 127, 128, 0xbf, 0xc0, 0xc2, 0xe0, 0xed, 0xf0, 0xf4, 0xf5, 0xfe, 255):
        for w in ([b], [b, 65, 66], [65, 66, b], [65, b, 66], [b, b], [b] * r.choice([64, 127, 128])): its.append((BYTES, 0, 0, w))
    its.sort(key=lambda x: 0 in x[3])              # not all implementations write text with NUL
    k = sum(0 not in x[3] for x in its)
    for part in (its[:k], its[k:]):
        r.shuffle(part)
        for i in range(0, len(part), 12): yield part[i:i + 12]

def fam_twins(r, reps=1):
    """equal values of every length are different values: one is written over"""
    for _ in range(reps):
        ls = list(range(0, 66)) + [100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025]
        r.shuffle(ls)
        for i in range(0, len(ls), 6):
            steps = []
            for n in ls[i:i + 6]:
                it = (BYTES, 0, 0, [r.randrange(256) for _ in range(n)])
                dst = r.choice([(0, n + 1), (n, n + 1), (0, 1), (1, 1), (n, n + 40), (0, max(1, n - 1))])
                steps += [E(it)] * 4 + [dict(X), D(BYTES), S(r), D(BYTES), D(BYTES, dst=dst), S(r), D(BYTES), dict(R)]
            yield mk({}, steps + [dict(Z)])

def number(cases):
    res = []
    for i, c in enumerate(cases):
        c["id"] = i + 1
        res.append(c)
    return res

def is_utf8(v):
    try:
        bytes(x for x in v if x >= 0).decode(); return all(x >= 0 or blobpat(x) in (0, 1, 4) for x in v)
    except UnicodeDecodeError:
        return False

def supports(impl, c):
    if impl == "c" and sum(s["o"] == "D" and s["k"] in (BYTES, STR, ERR) for s in c["s"]) > 55: return False
    for s in c["s"]:
        if s["o"] == "E":
            if s.get("dc") and impl not in ("go1", "go2", "ts"): return False
            k, v = s["k"], s.get("v", [])
            if k == ANY and impl != "ts": return False
            if k in (STR, ERR):
                if impl == "c" and (0 in v or any(x < 0 and blobpat(x) == 4 for x in v)): return False
                if impl in ("rs", "c", "ts") and not is_utf8(v): return False
        if s["o"] == "D" and s["k"] == ANY and impl != "ts": return False
        if s["o"] in ("W",) and impl not in ("go1", "go2"): return False
        if s["o"] in ("G", "M") and impl != "go2": return False
        if s["o"] == "C" and impl == "rs": return False
    return True
