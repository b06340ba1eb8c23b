"""What each property's check consists of."""
import os
import gen, codec, core, pool, capi, msg, many, rsgen
from gen import *

ALL = list(core.IMPLS)
GO = ["go1", "go2"]
ALL32 = ALL + ["go1_386", "go2_386"]
J0 = {"err": False, "len": False, "mem": False}
def J(**kw): return {**J0, **kw}

MODEL = ("MCCodec", "MCCodecSmall.cfg")
JUNK = ("MCCodec", "MCCodecJunk.cfg")
DEEP = [("MCCodec", "MCCodec.cfg"), JUNK]

# ------------------------------------------------------------------ codec

def first(r):
    """whether this is the first round of a run: enumerated scripts need no repetition"""
    return getattr(r, "round", 0) == 0

def attempts(r, its):
    ops = []
    for it in its:
        if r.random() < 0.25: ops += wrong_ops(r, it, r.randrange(1, 3))
        ops.append(D(it[0], it[1], it[2]))
    return ops

def reuse(r, big=0.05):
    """the same encoder and decoder used again and again"""
    steps = []
    for _ in range(r.randrange(2, 6)):
        its = [item(r, big=big) for _ in range(r.randrange(0, 7))]
        steps += [E(x) for x in its] + [dict(X)] + (attempts(r, its) if r.random() < 0.8 else attempts(r, its)[:r.randrange(1, 4)])
        if r.random() < 0.4:        # read while more is written
            more = [item(r) for _ in range(2)]
            steps += [E(x) for x in more] + [dict(X)] + attempts(r, its + more)
        steps.append(dict(R))
    return mk(inits(r), steps + [dict(Z)])

def wear(r):
    """hundreds of uses, each like the first"""
    steps, every = [], r.choice([1, 1, 4])
    for i in range(r.choice([70, 140, 280])):
        it = item(r, r.choice([NIL, BOOL, U8, U16, U32, I64, F32, BYTES, STR]), big=0.004)
        steps.append(E(it))
        if i % every == 0: steps += [dict(X), D(it[0], it[1], it[2])] if every == 1 and it[0] not in (BYTES, STR) else []
        steps.append(dict(R))
    its = [item(r) for _ in range(4)]
    return mk(inits(r), steps + [E(x) for x in its] + [dict(X)] + attempts(r, its) + [dict(Z)])

def f_roundtrip(r, n):
    if first(r):
        for k in KINDS:
            vs = [be(x, WIDTH[k]) for x in POOL[k]] if k in POOL else \
                 [[]] if k == NIL else [text(r, m) for m in range(0, 270, 3)] + [[-b] for b in BLOBS]
            for i in range(0, len(vs), 40):
                yield rt([(k, r.choice(KINDS) if k in (SLICE, MAP) else 0, r.choice(KINDS) if k == MAP else 0, v) for v in vs[i:i + 40]])
        for k in (BYTES, STR, ERR):
            yield rt([(k, 0, 0, [-z]) for z in HUGE] + [(U8, 0, 0, [7])])
            c = rt([(k, 0, 0, [-(1 << 28) - 5]), (U8, 0, 0, [7])]); c["impls"] = GO
            yield c
    for _ in range(160 * n): yield rt([item(r, big=0.06) for _ in range(r.randrange(1, 10))], inits(r))
    for _ in range(60 * n): yield rt([item(r, r.choice([BYTES, STR, ERR]), raw=True, big=0.1) for _ in range(r.randrange(1, 6))], inits(r))
    for _ in range(40 * n): yield rt([item(r, r.choice([BYTES, STR, ERR]), nul=True, big=0.3) for _ in range(r.randrange(1, 6))], inits(r))
    for _ in range(60 * n): yield rt((nested(r) + nested(r))[:60], inits(r))
    for _ in range(60 * n): yield rt([item(r, r.choice(VARINTS + [F32, F64, U8])) for _ in range(r.randrange(10, 40))], inits(r))
    for _ in range(80 * n): yield reuse(r)
    for _ in range(5 * n): yield wear(r)
    for its in gen.edges(r): yield rt(its, inits(r))
    yield from fam_similar(r, 60 * n)
    its = [item(r, r.choice([NIL, BOOL, U8, U16, I32])) for _ in range(1300)]
    yield mk(inits(r), [E(x) for x in its] + [dict(X)] + attempts(r, its) + [dict(Z)])
    for _ in range(6 * n):
        its = [item(r, big=0.02) for _ in range(r.randrange(100, 260))]
        yield mk(inits(r), [E(x) for x in its] + [dict(X)] + attempts(r, its) + [dict(Z)])

HUGE = [65535, 65536, 1 << 20, 2097151, 2097152, 2097153, (1 << 22) + 1, 3 << 20]

def f_canonical(r, n):
    for k in KINDS + [ANY]:
        if not first(r): break
        vs = [be(x, WIDTH[k]) for x in POOL[k]] if k in POOL else \
             [[]] if k in (NIL, ANY) else [text(r, m) for m in LENS] + [[-b] for b in BLOBS + HUGE]
        for i in range(0, len(vs), 30):
            yield wr([(k, r.choice(KINDS) if k in (SLICE, MAP) else 0, r.choice(KINDS) if k == MAP else 0, v) for v in vs[i:i + 30]])
    for a in KINDS + [ANY]:
        yield wr([(SLICE, a, 0, be(r.choice(POOL[U32]), 4))] + [(MAP, a, b, be(r.choice(POOL[U32]), 4)) for b in KINDS + [ANY]])
    for k in (BYTES, STR, ERR):
        if not first(r): break
        c = wr([(k, 0, 0, [-(1 << 28)]), (U8, 0, 0, [7])]); c["impls"] = GO
        yield c
    for its in gen.edges(r): yield wr(its, inits(r))
    for _ in range(250 * n): yield wr([item(r, big=0.06) for _ in range(r.randrange(1, 14))], inits(r))
    for _ in range(60 * n): yield wr([item(r, r.choice([BYTES, STR, ERR]), raw=True, nul=True) for _ in range(r.randrange(1, 8))], inits(r))
    for _ in range(30 * n):
        a, b = [item(r) for _ in range(4)], [item(r) for _ in range(4)]
        yield mk(inits(r), [E(x) for x in a] + [dict(R)] + [E(x) for x in b] + [dict(Z)])

def small_strings(r, n):
    """short strings over the bytes that matter, in bulk: one script per string
    and a fresh decoder for every kind of attempt"""
    tags = list(range(16)) + [10, 10, 127, 128, 129, 255, 16, 17, 31, 64, 192]
    for a in list(range(18)) + [127, 128, 255]:
        yield [a]
        for b in (0, 1, 2, 3, 5, 10, 127, 128, 255): yield [a, b]
    for _ in range(n):
        yield [r.choice(tags) if r.random() < 0.9 else r.randrange(256) for _ in range(r.randrange(0, 9))]

def f_decode(r, n):
    src = list(fam_sizes(r, 60 * n)) + list(fam_truncate(r, 40 * n)) + list(fam_mutate(r, 90 * n)) + list(fam_junk(r, 90 * n)) + list(fam_matrix(r)) + list(fam_headers(r, 1200 * n))
    src += [mk({}, [L(s)] + battery(r, s, 0)) for s in small_strings(r, 120 * n)]
    for _ in range(6 * n):       # long values, whole or with too little left
        k, z = r.choice([BYTES, STR, ERR]), r.choice([blob(r), blob(r), r.choice(HUGE)])
        d = r.choice([0, 0, 1, 2, 129, 1 << 20])
        src.append(mk({}, [L(([ERR] if k == ERR else []) + [STR if k == ERR else k, U32] + uvar(z + d) + [pattern(r.randrange(5), z)] + ([7] if d == 0 else [])), D(k), D(k)]))
    for _ in range(12 * n):      # long strings, valid or not, at any offset
        k, p = r.choice([STR, ERR]), r.randrange(5)
        src.append(mk({}, [L([NIL] * r.randrange(0, 3) + enc(k, 0, 0, [pattern(p, blob(r))]) + [BOOL, 1])] + [D(NIL)] * 3 + [D(k), D(BYTES), D(BOOL)]))
    for its in gen.edges(r):     # texts as others may have written them, also such as are none
        for k, _, _, x in its:
            if r.random() < 0.5: src.append(mk({}, [L(enc(k, 0, 0, x) + [BOOL, 1]), D(k), D(BOOL)]))
            if r.random() < 0.1: src.append(mk({}, [L(enc(r.choice([STR, ERR]), 0, 0, x[:-1]) + [NIL]), D(STR), D(ERR), D(NIL)]))
    v = list(fam_varint(r)); r.shuffle(v)
    src += v[:250 * n]
    for c in src: yield isolate(c)

def f_durable(r, n):
    yield from fam_sizes(r, 70 * n); yield from fam_truncate(r, 50 * n); yield from fam_mutate(r, 80 * n)
    yield from fam_junk(r, 80 * n); yield from fam_matrix(r); yield from fam_headers(r, None if first(r) else 1000 * n)
    v = list(fam_varint(r)); r.shuffle(v)
    yield from v[:200 * n]
    yield from fam_roundtrip(r, 70 * n, wrong=0.8)
    yield from fam_similar(r, 30 * n)
    for _ in range(12 * n):      # long strings among others, valid or not
        its = [item(r, r.choice([STR, ERR, BYTES]), big=0.5, raw=True) for _ in range(r.randrange(2, 5))]
        yield mk({}, [L(sum((enc(*x) for x in its), []))] + sum(([D(x[0]), D(x[0]), D(U8)] for x in its), []))

def f_mismatch(r, n):
    for c in list(fam_matrix(r)) + list(fam_headers(r, 1200 * n)): yield isolate(c)
    for _ in range(150 * n):
        it = item(r); s = enc(*it)
        yield isolate(mk({}, [L(s)] + wrong_ops(r, it, 6)))
    for _ in range(80 * n):      # among other values
        its = [item(r) for _ in range(4)]
        s = sum((enc(*x) for x in its), [])
        ops = []
        for x in its: ops += wrong_ops(r, x, 3) + [D(x[0], x[1], x[2])]
        yield isolate(mk({}, [L(s)] + ops + battery(r, [], 0)))
    for s in small_strings(r, 60 * n): yield isolate(mk({}, [L(s)] + battery(r, s, 0)))

def f_varint(r, n):
    if first(r):
        for c in fam_varint(r, 1): yield isolate(c)
    else:
        v = list(fam_varint(r, 1)); r.shuffle(v)
        for c in v[:300 * n]: yield isolate(c)
    for _ in range(300 * n):
        k = r.choice(VARINTS); w = WIDTH[k]
        body = uvar(r.choice(POOL[k]))
        x = r.random()
        if x < 0.4: body = body[:-1] + [body[-1] | 128] + [0] * r.randrange(0, 3) + [r.choice([0, 1, 0, 2])]   # padded
        elif x < 0.6: body = body[:r.randrange(0, len(body))]
        elif x < 0.8: body = [r.randrange(128, 256) for _ in range(MAXVAR[w] - 1)] + [r.randrange(128)]
        s = [k] + body + r.choice([[], [], [5, 10, 0], [r.randrange(256)]])
        yield isolate(mk({}, [L(s), D(k)] + battery(r, s, 0)[:3]))

def f_growth(r, n):
    for c in list(fam_growth(r, 150 * n)) + list(fam_boundary(r, range(0, 13))) + list(fam_boundary(r, [r.randrange(13, 80) for _ in range(4 * n)])):
        yield mk(c["init"], [s for s in c["s"] if s["o"] in ("E", "Z")] + ([] if c["s"][-1]["o"] == "Z" else [dict(Z)]))
    for _ in range(50 * n):      # longer than the storage ever was, in one go
        z = r.choice([0, 1, 5, 16, 100, 512])
        its = [item(r, r.choice([BYTES, STR, ERR]), big=0) for _ in range(2)] + [(r.choice([BYTES, STR, ERR]), 0, 0, [pattern(r.choice([0, 0, 1]), r.choice(BLOBS + [z * 2 + 257, z + 300]))])] + [item(r) for _ in range(3)]
        yield wr(its, {"m": "size", "n": z})
    yield from fam_self(r, 50 * n)
    for _ in range(10 * n):      # one byte at a time through many growths
        k = r.choice([NIL, BOOL, U8, U16, F32, F64, I64, SLICE])
        yield wr([item(r, k) for _ in range(r.choice([300, 700]) if k == NIL else 90)], {"m": "size", "n": r.choice([0, 1, 3, 7, 64])})

def f_buffer(r, n):
    yield from fam_buffer(r, 500 * n)
    yield from fam_self(r, 60 * n, True)
    for _ in range(60 * n):
        z = r.randrange(0, 40); m = r.randrange(0, 90)
        yield mk(r.choice([{"m": "size", "n": z}, {"m": "from", "n": z, "cap": z + r.randrange(0, 20), "off": 0}, {}]),
                 [{"o": "W", "v": [r.randrange(256) for _ in range(r.randrange(0, z + 1))]}, {"o": "W", "v": [r.randrange(256) for _ in range(m)]}, dict(Z)])

def f_own(r, n):
    yield from fam_own(r, 260 * n)
    yield from fam_twins(r, n)
    yield from fam_similar(r, 30 * n)

def f_memory(r, n):
    for c in list(fam_sizes(r, 150 * n)): yield isolate(c)
    v = list(fam_varint(r, kinds=(BYTES, STR, ERR, SLICE, MAP))); r.shuffle(v)
    for c in v[:300 * n]: yield isolate(c)
    for c in fam_junk(r, 60 * n): yield isolate(c)

def f_many(r, n):
    """short uses of one encoder and decoder each"""
    for _ in range(120 * n): yield rt([item(r, big=0.08) for _ in range(r.randrange(1, 6))], inits(r))
    for _ in range(40 * n): yield rt([item(r, r.choice([BYTES, STR, ERR]), raw=True, big=0.1) for _ in range(r.randrange(1, 5))], inits(r))
    for _ in range(40 * n): yield reuse(r, big=0.02)
    yield from fam_similar(r, 40 * n, 6)
    base = [(k, 0, 0, [r.randrange(97, 123) for _ in range(m)]) for k in (STR, STR, BYTES, ERR) for m in (3, 8, 16, 24, 33, 70)]
    for _ in range(60 * n): yield rt([similar(r, r.choice(base)) for _ in range(r.randrange(2, 7))], inits(r))
    for _ in range(30 * n): yield rt([item(r, r.choice(VARINTS + [F32, F64])) for _ in range(r.randrange(4, 12))], inits(r))
    for c in list(fam_sizes(r, 20 * n)) + list(fam_truncate(r, 20 * n)) + list(fam_mutate(r, 20 * n)) + list(fam_own(r, 30 * n)): yield c

G = "MCCodecGen"
def codec_prop(fams, judge, models, impls=ALL, memory=False, gens=(), shape=None):
    def f(chk):
        only = os.environ.get("VERIF_ONLY")          # development: some implementations only
        codec.run(chk, [i for i in impls if not only or i in only.split(",")], fams, judge, models if chk.tier == "quick" else DEEP, memory,
                  gens=gens, shape=shape)
    return f

ASSUME = ["TLC and the CommunityModules evaluate the specification correctly",
          "the drivers report what the public API returned"]

PROPS = {
 "C01": codec_prop(f_roundtrip, J(len=True), [MODEL], impls=ALL32, gens=[G + "Round", "MCCodecSim"]),
 "C02": codec_prop(f_canonical, J(), [MODEL], impls=ALL32, gens=[G + "Grow"]),
 "C03": codec_prop(f_decode, J(), [JUNK], impls=ALL32, gens=[G + "Damage", G + "Foreign", "MCCodecSim"], shape=isolate),
 "C04": codec_prop(f_durable, J(len=True), [JUNK], impls=ALL32, gens=[G + "Damage", G + "Foreign", "MCCodecSim"]),
 "C05": codec_prop(f_mismatch, J(err=True), [JUNK], gens=[G + "Damage", G + "Foreign"], shape=isolate),
 "C06": codec_prop(f_varint, J(), [JUNK], impls=ALL32, gens=[G + "Foreign"], shape=isolate),
 "C07": codec_prop(f_growth, J(), [MODEL], gens=[G + "Grow"]),
 "C08": codec_prop(f_buffer, J(), [MODEL], impls=GO, gens=[G + "Buf", "MCCodecSimBuf"]),
 "C09": codec_prop(f_own, J(), [MODEL], gens=[G + "Own", "MCCodecSimOwn"]),
 "C10": pool.run,
 "C11": lambda chk: capi.run(chk, False),
 "C12": lambda chk: capi.run(chk, True),
 "C13": msg.run("C13"),
 "C14": msg.run("C14"),
 "C15": msg.run("C15"),
 "C16": msg.run("C16"),
 "C17": codec_prop(f_memory, J(mem=True), [JUNK], impls=ALL32, memory=True),
 "C18": msg.run("C18"),
 "C19": lambda chk: many.run(chk, [i for i in ALL if not os.environ.get("VERIF_ONLY") or i in os.environ["VERIF_ONLY"].split(",")], f_many, J(len=True)),
 "C20": rsgen.run,
}

TRACE = "TLA+ specification checked with TLC; trace validation of recorded executions of the real code against it"
NOTE = ("The TLA+ codec specification is exhaustively checked over a scaled-down alphabet; %s are run through the public API of "
        "%s, and every recorded call must be a step of the specification (TLC decides). Bounded by the executions generated.")
IN5 = "all five implementations"
IN7 = IN5 + " (the Go ones also where int has 32 bits)"
ABOUT = {
 "C01": (TRACE, NOTE % ("round trips over every kind, boundary values, texts, storages and reuse", IN7)),
 "C02": (TRACE, NOTE % ("encoding histories (all kinds, boundary values, lengths to 256 MiB in Go)", IN7)),
 "C03": (TRACE, NOTE % ("decoding attempts of every kind on truncated, mutated, hostile and random inputs", IN7)),
 "C04": (TRACE, NOTE % ("failing decodes followed by further decodes on the same decoder", IN7)),
 "C05": (TRACE, NOTE % ("requested/present kind and element-kind matrices", IN5)),
 "C06": (TRACE, NOTE % ("well-formed, padded, truncated, overlong and out-of-range varints in every integer position", IN7)),
 "C07": (TRACE, NOTE % ("encodings whose growth falls on every byte boundary, from every kind of storage with guarded surroundings", IN5)),
 "C08": (TRACE, NOTE % ("histories of buffer operations", "both Go buffers")),
 "C09": (TRACE, NOTE % ("decodes into kept and reused destinations while the input is overwritten", IN5)),
 "C10": ("TLA+ specification of the pools checked with TLC (refinement, every interleaving); TLC-enumerated histories replayed into the real pools and recorded concurrent executions validated against it",
         "The step-level model of take and return refines the abstract pool for 3 takers and 3 objects, with wrong orders refuted. All TLC-enumerated histories of 6 operations are replayed, "
         "and concurrent executions (race-detector and plain builds) are validated. Schedules of the real runtime are sampled, not enumerated."),
 "C11": ("TLA+ specification of the C interface checked with TLC; TLC-enumerated and simulated behaviours and null/failure matrices replayed through the C header, recorded calls validated against it",
         "The specification of handles, values and statuses is exhaustively checked (4-bit bytes, two handles of each sort). All enumerated call sequences of depth 5 (sampled in the quick run), simulated ones of 60 calls "
         "and matrices of every function with null and valid pointers under every prior status are replayed, and every status, result and effect must be a step of the specification. A null status pointer and kinds outside the enum are outside the contract."),
 "C12": ("TLA+ specification of the C interface checked with TLC; its behaviours replayed through the C library under a memory checker (valgrind), recorded calls and the memory account validated against it",
         "Ownership-respecting histories (TLC-enumerated, simulated, random with several live handles) run under memcheck; the specification requires held values to keep their content, no memory error, nothing unreachable, and nothing left once "
         "everything was given back. Bounded by the histories generated."),
 "C17": (TRACE, NOTE % ("hostile sizes with allocation measured per call", IN7)),
}
ABOUT["C19"] = ("TLA+ specification of several codecs at once checked with TLC (every interleaving); recorded interleaved and parallel executions of the real code validated against it",
         "Many.tla is exhaustively checked: each user's share of any interleaving is a behaviour of Codec (a variant with shared scratch state is refuted). Groups of 2-16 scripts run step by step interleaved in all five implementations, "
         "and in parallel in Go (plain and race-detector builds) and Rust; each share must be a behaviour of the specification. Interleavings and runtime schedules are sampled.")
GEN = "TLA+ specification of messages checked with TLC; generated code for TLC-enumerated, fixed and random schemas compiled and run, its recorded behaviour validated against it"
GNOTE = ("The specification of layout, encoding and decoding of messages is exhaustively checked over all small schemas and values (with the ambiguous cases it must exclude refuted). "
         "Both Go generators are run on TLC-enumerated, fixed and random schemas; %s. Bounded by the schemas and values generated (one or several files of a package, proto2 or proto3, oneofs, services, parameters; no groups, no imports from other Go packages).")
ABOUT.update({
 "C13": (GEN, GNOTE % "messages encoded among other values and decoded into new and used messages must read back as the specification says"),
 "C14": (GEN, GNOTE % "truncated, damaged, hostile and foreign encodings must be decoded to the value the specification gives or be errors, within the allocation it allows"),
 "C15": (GEN, GNOTE % "every encoding must be one the specification allows for that message, and encodings made by the specification must be read"),
 "C16": (GEN, GNOTE % "absent messages and errors in every place, decoded into new, used and absent messages, must be written and read as the specification says"),
 "C18": (GEN, GNOTE % "generation must succeed twice alike, compile, and declare the types, fields and enum values the specification's schema has"),
})
ABOUT["C20"] = (GEN.replace("generated code", "generated Rust code"), "The specification of layout, encoding and decoding of messages is exhaustively checked over all small schemas and values, also in the dialect of Rust (no absent inner message, enum values checked). "
         "Both Rust generators are run on TLC-enumerated, fixed and random schemas with every privacy parameter; their output is compiled and its encodings, decodings, cursor positions and allocation validated against the specification. "
         "A stand-in replaces the derive macro of the crate num_enum, which is not available offline. Bounded by the schemas and values generated; one file per schema, no imports, oneof, groups or custom fields.")
NOT = {}
