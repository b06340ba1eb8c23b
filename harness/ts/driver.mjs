// Drives the TypeScript implementation (bundled by esbuild; path in argv[2]):
// one script per line on stdin, one trace per line on stdout.
import { createInterface } from "node:readline";
import { writeSync } from "node:fs";
import { pathToFileURL } from "node:url";
import { getHeapStatistics } from "node:v8";

const P = await import(pathToFileURL(process.argv[2]).href);
const { Encoder, Decoder } = P;

// see BlobPat in Wire.tla
const blobLen = (m) => m < 17 << 24 ? m : m & 0xffffff;
const UNIT = [0xc3, 0xa9, 0xe2, 0x82, 0xac, 0xf0, 0x9f, 0x98, 0x80];
const pat = (m) => {
  const n = blobLen(m), p = m < 17 << 24 ? 0 : (m >> 24) - 16, b = new Uint8Array(n);
  for (let i = 0; i < n; i++) b[i] = 97 + ((i * 7 + n + (i >> 8)) % 26);
  if (p === 1 || p === 2) for (let i = n % 9, j = 0; i < n; i += 9, j += 1) {
    b.set(UNIT, i);
    b[i + 1] = b[i + 4] = b[i + 8] = 0x80 + ((j * 7 + n) % 64);
  }
  if (p === 2) b[n >> 1] = 0xff;
  if (p === 3) b[n - 1] = 0xc3;
  if (p === 4) b[n >> 1] = 0;
  return b;
};
const expand = (v) => {
  let n = 0; for (const x of v) n += x < 0 ? blobLen(-x) : 1;
  const b = new Uint8Array(n); let p = 0;
  for (const x of v) { if (x < 0) { b.set(pat(-x), p); p += blobLen(-x); } else b[p++] = x; }
  return b;
};
const eq = (a, b) => a.length === b.length && Buffer.compare(Buffer.from(a.buffer, a.byteOffset, a.length), Buffer.from(b.buffer, b.byteOffset, b.length)) === 0;
const patOf = (b) => {
  if (b.length < 1 << 24) for (let p = 1; p < 5; p++) if (eq(b, pat((16 + p) << 24 | b.length))) return (16 + p) << 24 | b.length;
  return b.length;
};
const compress = (b, blob) => {
  const n = blobLen(blob);
  if (blob > 0 && b.length >= n && eq(b.subarray(b.length - n), pat(blob))) return [...b.subarray(0, b.length - n), -blob];
  if (b.length > 2048) return [...b.subarray(0, 64), -1];
  return [...b];
};
const big = (p) => { let n = 0n; for (const x of p) n = (n << 8n) | BigInt(x); return n; };
const be = (n, w) => { const r = []; for (let i = 0; i < w; i++) { r.unshift(Number(n & 255n)); n >>= 8n; } return r; };
const dv = (p) => new DataView(Uint8Array.from(p).buffer);
const names = ["", "Array", "Map", "", "Uint8Array", "String", "Error", "Boolean", "Uint8", "Uint16", "Uint32", "Uint64", "Int32", "Int64", "Float32", "Float64"];
const ekind = (e) => { for (let i = 0; i < 16; i++) if (names[i] && e instanceof P[`Invalid${names[i]}Error`]) return i; return -2; };
const str = (p) => new TextDecoder("utf-8", { ignoreBOM: true }).decode(p);

function encode(e, k, a, b, p) {
  switch (k) {
    case 0: return e.null();
    case 1: return e.array(Number(big(p)), a);
    case 2: return e.map(Number(big(p)), a, b);
    case 3: return e.any();
    case 4: return e.uint8Array(p);
    case 5: return e.string(str(p));
    case 6: return e.error(new Error(str(p)));
    case 7: return e.boolean(p[0] !== 0);
    case 8: return e.uint8(p[0]);
    case 9: return e.uint16(Number(big(p)));
    case 10: return e.uint32(Number(big(p)));
    case 11: return e.uint64(big(p));
    case 12: return e.int32(dv(p).getInt32(0));
    case 13: return e.int64(dv(p).getBigInt64(0));
    case 14: return e.float32(dv(p).getFloat32(0));
    case 15: return e.float64(dv(p).getFloat64(0));
  }
  throw new Error("kind");
}
// the value in the trace's representation; a result that is not of the kind's
// type or range is reported as such (an empty value with r = "badvalue")
class BadValue extends Error {}
const int = (n, w, lo, hi) => {
  if (typeof n === "number") { if (!Number.isInteger(n)) throw new BadValue(String(n)); n = BigInt(n); }
  if (typeof n !== "bigint" || n < lo || n > hi) throw new BadValue(String(n));
  return be(n & ((1n << BigInt(8 * w)) - 1n), w);
};
const B = (n) => 1n << BigInt(n);
const enc8 = new TextEncoder();
function decode(d, k, a, b) {
  const wrong = (t) => { throw new BadValue(t); };
  switch (k) {
    case 0: return d.null() ? [] : undefined;
    case 1: return int(d.array(a), 4, 0n, B(32) - 1n);
    case 2: return int(d.map(a, b), 4, 0n, B(32) - 1n);
    case 3: return d.any() ? [] : undefined;
    case 4: { const v = d.uint8Array(); return v instanceof Uint8Array ? v : wrong("type"); }
    case 5: { const v = d.string(); return typeof v === "string" ? enc8.encode(v) : wrong("type"); }
    case 6: { const v = d.error(); return v instanceof Error ? enc8.encode(v.message) : wrong("type"); }
    case 7: { const v = d.boolean(); return typeof v === "boolean" ? [v ? 1 : 0] : wrong("type"); }
    case 8: return int(d.uint8(), 1, 0n, 255n);
    case 9: return int(d.uint16(), 2, 0n, 65535n);
    case 10: return int(d.uint32(), 4, 0n, B(32) - 1n);
    case 11: { const v = d.uint64(); return typeof v === "bigint" ? int(v, 8, 0n, B(64) - 1n) : wrong("type"); }
    case 12: return int(d.int32(), 4, -B(31), B(31) - 1n);
    case 13: { const v = d.int64(); return typeof v === "bigint" ? int(v, 8, -B(63), B(63) - 1n) : wrong("type"); }
    case 14: { const v = new DataView(new ArrayBuffer(4)); v.setFloat32(0, d.float32()); return [...new Uint8Array(v.buffer)]; }
    case 15: { const v = new DataView(new ArrayBuffer(8)); v.setFloat64(0, d.float64()); return [...new Uint8Array(v.buffer)]; }
  }
  throw new Error("kind");
}

// (slice of a Buffer is no copy)
const copy = (b) => new Uint8Array(b);
const MEM = process.env.DRV_MEM === "1";
const used = () => { const m = getHeapStatistics(); return m.used_heap_size + m.external_memory; };
const attempt = (d, s) => { try { return decode(d, s.k || 0, s.a || 0, s.b || 0); } catch (x) { return x; } };
// memory taken by a call
const measured = (mk, s) => { const d = mk(), m = used(), r = attempt(d, s), n = used() - m; return r === measured ? 0 : Math.max(0, n); };

function* steps(c) {
  const init = c.init || {};
  let mk = () => new Encoder();
  let guard = () => true;               // nothing around the storage was touched
  if (init.m === "size") mk = () => new Encoder(new Uint8Array(init.n));
  if (init.m === "from") mk = () => {   // a view into the middle of a larger buffer
    const t = new Uint8Array(init.cap + init.off + 16).fill(0xcd);
    const more = guard;                 // of this storage and of those before a reset
    guard = () => more() && t.every((x, i) => (i >= init.off && i < init.off + init.n) || x === 0xcd);
    return new Encoder(((c.id >> 1 & 1) === 1 ? Buffer.from(t.buffer) : t).subarray(init.off, init.off + init.n));
  };
  let since = [];                       // decoding calls made on dec
  let enc = mk(), before = new Uint8Array(0), dec, input = new Uint8Array(0), input0 = input;
  const evs = [], holds = [];
  let views = [];                       // of the output, since the last reset
  const ev = (s) => ({ o: s.o, k: s.k || 0, a: s.a || 0, b: s.b || 0, v: [], d: [], n: 0, r: "ok", e: -1, p: -1, c: -1, ok: true, mem: -1, x: "" });
  const same = () => holds.every(([live, was]) => eq(live, was));
  evs.push(ev({ o: "N" }));
  for (const s of c.s) {
    yield;
    const e = ev(s), v = s.v || [];
    switch (s.o) {
      case "E": {
        let p = expand(v), arg = copy(p), wide;
        if (arg.length && evs.length % 3) { // a part of something larger
          wide = new Uint8Array(arg.length + 14).fill(0x3c);
          wide.set(arg, 5);
          arg = evs.length % 3 === 1 ? wide.subarray(5, 5 + arg.length) : Buffer.from(wide.buffer, 5, arg.length);
        }
        e.v = v;
        if (s.dc > 0) {                   // the argument is a part of what was written
          arg = enc.bytes.subarray(s.dl, s.dl + s.dc);
          p = copy(arg);
          e.v = [...p];
        }
        try { const r = encode(enc, e.k, e.a, e.b, arg); if (evs.length % 4) enc = r; }   // most calls are chained
         catch (x) { e.r = "panic"; e.x = String(x); evs.push(e); return evs; }
        e.ok = s.dc > 0 || (eq(arg, p) && (!wide || wide.every((x, i) => (i >= 5 && i < 5 + p.length) || x === 0x3c)));
        if (!s.dc) arg.fill(0xa5);
        const o = enc.bytes;
        e.n = o.length;
        if (o.length < before.length || !eq(o.subarray(0, before.length), before)) e.ok = false;
        if (o.length >= before.length) e.d = compress(o.subarray(before.length), -(v.find((x) => x < 0) || 0));
        if (!guard()) e.ok = false;
        if (o.length <= 4096) {           // what was handed out earlier still reads the same
          for (const w of views) if (w.length !== w.was || !eq(w, o.subarray(0, w.length))) e.ok = false;
          if (views.length < 4) { o.was = o.length; views.push(o); }
        }
        before = copy(o);
        break;
      }
      case "R": enc = mk(); before = new Uint8Array(0); views = []; break;
      case "W": case "G": case "M": continue;
      case "L": case "X":
        if (s.o === "L") { const t = expand(v); e.v = v;
          // half of the inputs are views into the middle of a larger buffer
          if ((c.id & 1) === 1) { const big = new Uint8Array(t.length + 24).fill(0x07); big.set(t, 9); input = big.subarray(9, 9 + t.length); } else input = t;
          // and half of them are Buffers, which are Uint8Arrays too
          if ((c.id >> 1 & 1) === 1) input = Buffer.from(input.buffer, input.byteOffset, input.byteLength);
        } else { input = Uint8Array.from(enc.bytes); e.n = input.length; }
        input0 = copy(input); dec = new Decoder(input); e.p = dec.length; since = []; break;
      case "C": input.fill(s.n); input0 = copy(input); e.n = s.n; e.ok = same(); break;
      case "S": {                       // the owner of the byte string returned last writes all over it
        if (holds.length === 0) continue;
        const h = holds[holds.length - 1];
        h[0].fill(s.n); h[1].fill(s.n);
        e.n = s.n; e.ok = same() && eq(input, input0) && eq(enc.bytes, before) && guard();
        break;
      }
      case "D": {
        let r;
        if (MEM) {
          e.mem = measured(() => dec, s);
          // what is the runtime's own does not come back every time
          for (let i = 0; i < 5 && e.mem > 4096; i++) e.mem = Math.min(e.mem, measured(() => { const d = new Decoder(input); for (const x of since) attempt(d, x); return d; }, s));
          since.push(s);
          dec = new Decoder(input);
          for (const x of since.slice(0, -1)) attempt(dec, x);
        }
        try { r = decode(dec, e.k, e.a, e.b);
          if (r === undefined) { e.r = "no"; e.e = e.k; }
        } catch (x) {
          if (x instanceof BadValue) { e.r = "badvalue"; e.x = x.message; }
          else { e.r = "no"; e.e = ekind(x); e.x = String(x); }
        }
        if (e.r === "ok") {
          if (r instanceof Uint8Array) { holds.push([r, copy(r)]); e.v = r.length > 256 ? compress(r, patOf(r)) : [...r]; } else e.v = r;
        }
        e.p = dec.length;
        e.ok = eq(input, input0);
        break;
      }
      case "Z": { const o = enc.bytes; e.n = o.length; e.ok = eq(o, before) && same() && guard(); break; }
      default: e.r = "badop";
    }
    evs.push(e);
  }
  return evs;
}

const finish = (g) => { for (;;) { const r = g.next(); if (r.done) return r.value; } };
// a group of cases that run together: c.t says whose step is next
function group(c) {
  const gs = c.g.map(steps), res = gs.map(() => null);
  const step = (i) => { if (res[i] === null) { const r = gs[i].next(); if (r.done) res[i] = r.value; } };
  for (const i of c.t) step(i);
  gs.forEach((_, i) => { while (res[i] === null) step(i); });
  return res;
}

const emit = (s) => { const b = Buffer.from(s); let p = 0; while (p < b.length) { try { p += writeSync(1, b, p); } catch (x) { if (x.code !== "EAGAIN") throw x; } } };
for await (const line of createInterface({ input: process.stdin, crlfDelay: Infinity })) {
  if (!line) continue;
  const c = JSON.parse(line);
  emit(`BEGIN ${c.id}\n`);
  emit(JSON.stringify({ id: c.id, ev: c.g ? group(c) : finish(steps(c)) }) + "\n");
}
