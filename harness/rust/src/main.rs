//! Drives the Rust implementation: one script per line on stdin, one trace
//! per line on stdout (same protocol as the Go drivers).
use polyglot_rs::{Decoder, DecodingError, Encoder, Kind};
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{BufRead, Cursor, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

struct Counting;
static BYTES: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BYTES.fetch_add(l.size() as u64, Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        BYTES.fetch_add(l.size() as u64, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        BYTES.fetch_add(n as u64, Relaxed);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

// see BlobPat in Wire.tla
fn blob_len(m: usize) -> usize { if m < 17 << 24 { m } else { m & ((1 << 24) - 1) } }
fn pat(m: usize) -> Vec<u8> {
    let (n, p) = (blob_len(m), if m < 17 << 24 { 0 } else { (m >> 24) - 16 });
    let mut b: Vec<u8> = (0..n).map(|i| b'a' + ((i * 7 + n + (i >> 8)) % 26) as u8).collect();
    if p == 1 || p == 2 {
        let (mut i, mut j) = (n % 9, 0);
        while i < n {
            b[i..i + 9].copy_from_slice("\u{e9}\u{20ac}\u{1f600}".as_bytes());
            let x = 0x80 + ((j * 7 + n) % 64) as u8;
            b[i + 1] = x; b[i + 4] = x; b[i + 8] = x;
            i += 9; j += 1;
        }
    }
    match p { 2 => b[n / 2] = 0xff, 3 => b[n - 1] = 0xc3, 4 => b[n / 2] = 0, _ => () }
    b
}
fn pat_of(b: &[u8]) -> usize {
    if b.len() < 1 << 24 { for p in 1..5 { let m = (16 + p) << 24 | b.len(); if b == &pat(m)[..] { return m } } }
    b.len()
}
fn expand(v: &[i64]) -> Vec<u8> {
    let mut b = Vec::new();
    for &x in v {
        if x < 0 { b.extend(pat((-x) as usize)) } else { b.push(x as u8) }
    }
    b
}
fn ints(b: &[u8]) -> Vec<i64> { b.iter().map(|&x| x as i64).collect() }
fn compress(b: &[u8], blob: usize) -> Vec<i64> {
    let n = blob_len(blob);
    if blob > 0 && b.len() >= n && b[b.len() - n..] == pat(blob)[..] {
        let mut r = ints(&b[..b.len() - n]);
        r.push(-(blob as i64));
        return r;
    }
    if b.len() > 2048 {
        let mut r = ints(&b[..64]);
        r.push(-1);
        return r;
    }
    ints(b)
}
fn u(b: &[u8]) -> u64 { b.iter().fold(0, |n, &x| n << 8 | x as u64) }
fn be(n: u64, w: usize) -> Vec<u8> { n.to_be_bytes()[8 - w..].to_vec() }
fn kd(i: i64) -> Kind { Kind::from(i as u8) }

fn ekind(e: &DecodingError) -> i64 {
    use DecodingError::*;
    match e {
        InvalidArray => 1, InvalidMap => 2, InvalidBytes => 4, InvalidString => 5, InvalidError => 6,
        InvalidBool => 7, InvalidU8 => 8, InvalidU16 => 9, InvalidU32 => 10, InvalidU64 => 11,
        InvalidI32 => 12, InvalidI64 => 13, InvalidF32 => 14, InvalidF64 => 15,
        _ => -2,
    }
}

fn encode(c: &mut Cursor<Vec<u8>>, k: i64, a: i64, b: i64, p: &[u8], alt: bool) -> bool {
    let s = || String::from_utf8(p.to_vec()).unwrap();
    match k {
        0 => c.encode_none(),
        1 => c.encode_array(u(p) as usize, kd(a)),
        2 => c.encode_map(u(p) as usize, kd(a), kd(b)),
        4 => c.encode_bytes(p),
        5 => if alt { c.encode_str(&s()) } else { c.encode_string(&s()) },
        6 => c.encode_error(s().into()),
        7 => c.encode_bool(p[0] != 0),
        8 => c.encode_u8(p[0]),
        9 => c.encode_u16(u(p) as u16),
        10 => c.encode_u32(u(p) as u32),
        11 => c.encode_u64(u(p)),
        12 => c.encode_i32(u(p) as u32 as i32),
        13 => c.encode_i64(u(p) as i64),
        14 => c.encode_f32(f32::from_bits(u(p) as u32)),
        15 => c.encode_f64(f64::from_bits(u(p))),
        _ => panic!("kind"),
    }
    .is_ok()
}

fn decode(c: &mut Cursor<Vec<u8>>, k: i64, a: i64, b: i64) -> Result<Vec<u8>, i64> {
    let e = |x: DecodingError| ekind(&x);
    match k {
        0 => if c.decode_none() { Ok(vec![]) } else { Err(0) },
        1 => c.decode_array(kd(a)).map(|n| be(n as u64, 4)).map_err(e),
        2 => c.decode_map(kd(a), kd(b)).map(|n| be(n as u64, 4)).map_err(e),
        4 => c.decode_bytes().map_err(e),
        5 => c.decode_string().map(|s| s.into_bytes()).map_err(e),
        6 => c.decode_error().map(|s| s.to_string().into_bytes()).map_err(e),
        7 => c.decode_bool().map(|v| vec![v as u8]).map_err(e),
        8 => c.decode_u8().map(|v| vec![v]).map_err(e),
        9 => c.decode_u16().map(|v| be(v as u64, 2)).map_err(e),
        10 => c.decode_u32().map(|v| be(v as u64, 4)).map_err(e),
        11 => c.decode_u64().map(|v| be(v, 8)).map_err(e),
        12 => c.decode_i32().map(|v| be(v as u32 as u64, 4)).map_err(e),
        13 => c.decode_i64().map(|v| be(v as u64, 8)).map_err(e),
        14 => c.decode_f32().map(|v| be(v.to_bits() as u64, 4)).map_err(e),
        15 => c.decode_f64().map(|v| be(v.to_bits(), 8)).map_err(e),
        _ => panic!("kind"),
    }
}

fn arr(v: &Value) -> Vec<i64> {
    v.as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default()
}

/// One script being run.
struct Run {
    enc: Cursor<Vec<u8>>,
    base: usize, // where in the storage the output starts
    odd: bool,
    resets: usize,
    before: Vec<u8>,
    dec: Cursor<Vec<u8>>,
    input: Vec<u8>,
    evs: Vec<Value>,
    nstr: usize,
    steps: Vec<Value>,
    next: usize,
    dead: bool,
}

fn ev(o: &str, k: i64, a: i64, b: i64) -> Value {
    json!({"o": o, "k": k, "a": a, "b": b, "v": [], "d": [], "n": 0, "r": "ok", "e": -1, "p": -1,
           "c": -1, "ok": true, "mem": -1, "x": ""})
}

impl Run {
    fn new(case: &Value) -> Run {
        let init = &case["init"];
        let mut base = 0;
        let enc = match init["m"].as_str().unwrap_or("") {
            "size" => Cursor::new(Vec::with_capacity(init["n"].as_u64().unwrap() as usize)),
            // storage with an earlier content, written to from somewhere in it
            "from" => {
                let (n, off) = (init["n"].as_u64().unwrap() as usize, init["off"].as_u64().unwrap() as usize);
                let mut v = Vec::with_capacity(init["cap"].as_u64().unwrap() as usize);
                v.resize(n, 0xcdu8);
                base = off.min(n);
                let mut c = Cursor::new(v);
                c.set_position(base as u64);
                c
            }
            _ => Cursor::new(Vec::new()),
        };
        Run { enc, base, odd: case["id"].as_i64().unwrap_or(0) & 1 == 1, resets: 0, before: vec![], dec: Cursor::new(vec![]), input: vec![], evs: vec![ev("N", 0, 0, 0)], nstr: 0,
              steps: case["s"].as_array().unwrap().clone(), next: 0, dead: false }
    }

    /// What has been written so far: from where the output starts to where the encoder is.
    fn out(&self) -> &[u8] {
        let v = self.enc.get_ref();
        let p = (self.enc.position() as usize).min(v.len());
        if p < self.base { &[] } else { &v[self.base..p] }
    }
    /// Nothing in front of the output was touched, and the position is inside the storage.
    fn clean(&self) -> bool {
        let v = self.enc.get_ref();
        self.enc.position() as usize <= v.len() && v.len() >= self.base && v[..self.base].iter().all(|x| *x == 0xcd)
    }
    /// A decoder over i, which half of the time stands in the middle of a larger storage.
    fn open(&mut self, i: Vec<u8>) {
        let n = if self.odd { 9 } else { 0 };
        let mut t = vec![7u8; n];
        t.extend(i);
        self.input = t.clone();
        self.dec = Cursor::new(t);
        self.dec.set_position(n as u64);
    }

    fn over(&self) -> bool { self.dead || self.next >= self.steps.len() }

    fn step(&mut self) {
        let s = self.steps[self.next].clone();
        self.next += 1;
        let o = s["o"].as_str().unwrap();
        let g = |f: &str| s[f].as_i64().unwrap_or(0);
        let (k, a, b) = (g("k"), g("a"), g("b"));
        let v = arr(&s["v"]);
        let mut e = ev(o, k, a, b);
        match o {
            "E" => {
                let p = expand(&v);
                self.nstr += 1;
                let alt = self.nstr % 2 == 0;
                let enc = &mut self.enc;
                let r = catch_unwind(AssertUnwindSafe(|| encode(enc, k, a, b, &p, alt)));
                match r {
                    Ok(true) => {}
                    Ok(false) => e["r"] = json!("no"),
                    Err(_) => { e["r"] = json!("panic"); self.dead = true; self.evs.push(e); return; }
                }
                let out = self.out();
                let before = &self.before;
                let blob = v.iter().find(|x| **x < 0).map(|x| (-x) as usize).unwrap_or(0);
                e["v"] = json!(v);
                e["n"] = json!(out.len());
                e["ok"] = json!(out.len() >= before.len() && out[..before.len()] == before[..] && self.clean());
                if out.len() >= before.len() {
                    e["d"] = json!(compress(&out[before.len()..], blob));
                }
                self.before = out.to_vec();
            }
            "R" => {   // a new storage, the old one emptied, or the old one written over
                self.resets += 1;
                match self.resets % 3 {
                    1 => self.enc.set_position(self.base as u64),
                    2 => { self.enc.get_mut().clear(); self.enc.set_position(0); self.base = 0; }
                    _ => { self.enc = Cursor::new(Vec::new()); self.base = 0; }
                }
                self.before.clear();
            }
            "W" | "G" | "M" | "C" | "S" => return,
            "L" => { let i = expand(&v); e["p"] = json!(i.len()); e["v"] = json!(v); self.open(i); }
            "X" => { let i = self.out().to_vec(); e["n"] = json!(i.len()); e["p"] = json!(i.len()); self.open(i); }
            "D" => {
                let dec = &mut self.dec;
                let m0 = BYTES.load(Relaxed);
                let r = catch_unwind(AssertUnwindSafe(|| decode(dec, k, a, b)));
                let m1 = BYTES.load(Relaxed);
                e["mem"] = json!(m1 - m0);
                match r {
                    Ok(Ok(val)) => {
                        e["v"] = if (4..=6).contains(&k) && val.len() > 256 { json!(compress(&val, pat_of(&val))) } else { json!(ints(&val)) };
                    }
                    Ok(Err(x)) => { e["r"] = json!("no"); e["e"] = json!(x); }
                    Err(_) => { e["r"] = json!("panic"); self.dead = true; self.evs.push(e); return; }
                }
                e["p"] = json!(self.dec.get_ref().len() as i64 - self.dec.position() as i64);
                e["ok"] = json!(*self.dec.get_ref() == self.input);
            }
            "Z" => { e["n"] = json!(self.out().len()); e["ok"] = json!(self.clean() && *self.out() == self.before[..]); }
            _ => { e["r"] = json!("badop"); }
        }
        self.evs.push(e);
    }

    fn all(case: &Value) -> Vec<Value> {
        let mut r = Run::new(case);
        while !r.over() { r.step(); }
        r.evs
    }
}

/// The cases of a group run together: "t" says whose step is next, and without
/// it they run in parallel.
fn group(case: &Value) -> Vec<Vec<Value>> {
    let cs = case["g"].as_array().unwrap();
    let t = arr(&case["t"]);
    if t.is_empty() {
        return std::thread::scope(|sc| {
            let hs: Vec<_> = cs.iter().map(|c| sc.spawn(move || Run::all(c))).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
    }
    let mut rs: Vec<Run> = cs.iter().map(Run::new).collect();
    for i in t { let r = &mut rs[i as usize]; if !r.over() { r.step(); } }
    for r in rs.iter_mut() { while !r.over() { r.step(); } }
    rs.into_iter().map(|r| r.evs).collect()
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        if line.is_empty() { continue; }
        let case: Value = serde_json::from_str(&line).unwrap();
        let mut w = out.lock();
        writeln!(w, "BEGIN {}", case["id"]).unwrap();
        w.flush().unwrap();
        let evs = if case["g"].is_array() { json!(group(&case)) } else { json!(Run::all(&case)) };
        writeln!(w, "{}", json!({"id": case["id"], "ev": evs})).unwrap();
        w.flush().unwrap();
    }
}
