//! The message driver for generated Rust code: encodes and decodes messages of
//! the generated modules through the glue in reg.rs, which is written for the
//! schemas at hand.  Same protocol as msgdrv.
use polyglot_rs::{Encoder, Kind};
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{BufRead, Cursor, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

struct Counting;
static BYTES: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BYTES.fetch_add(l.size() as u64, Relaxed); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { BYTES.fetch_add(l.size() as u64, Relaxed); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { BYTES.fetch_add(n as u64, Relaxed); System.realloc(p, l, n) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Counting = Counting;

/// Conversions between the values of traces and of Rust, for the glue.
pub mod conv {
    use serde_json::{json, Value};
    use std::sync::atomic::Ordering::Relaxed;
    pub fn bytes(v: &Value) -> Vec<u8> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect() }
    pub fn num(v: &Value) -> u64 { bytes(v).iter().fold(0, |n, &x| n << 8 | x as u64) }
    pub fn ints(b: &[u8]) -> Value { json!(b) }
    pub fn be(n: u64, w: usize) -> Value { json!(n.to_be_bytes()[8 - w..].to_vec()) }
    pub fn list<T>(v: &Value, f: impl Fn(&Value) -> T) -> Vec<T> { v.as_array().unwrap().iter().map(f).collect() }
    pub fn map<K: std::hash::Hash + Eq, V>(v: &Value, f: impl Fn(&Value) -> K, g: impl Fn(&Value) -> V) -> std::collections::HashMap<K, V> {
        v.as_array().unwrap().iter().map(|e| (f(&e[0]), g(&e[1]))).collect()
    }
    pub fn ulist<T>(l: &[T], f: impl Fn(&T) -> Value) -> Value { Value::Array(l.iter().map(f).collect()) }
    pub fn umap<K: std::hash::Hash + Eq, V>(l: &std::collections::HashMap<K, V>, f: impl Fn(&K) -> Value, g: impl Fn(&V) -> Value) -> Value {
        let mut es: Vec<Value> = l.iter().map(|(k, v)| json!([f(k), g(v)])).collect();
        es.sort_by_key(|e| e[0].to_string());
        Value::Array(es)
    }
    pub fn used() -> u64 { super::BYTES.load(Relaxed) }
}

/// What the glue of one module offers.
pub struct Reg {
    /// encodes, and says whether the message is as it was
    pub enc: fn(usize, &Value, &mut Cursor<Vec<u8>>) -> (bool, bool),
    /// decodes: the message, or none, or an error; and the memory that took
    pub dec: fn(usize, &mut Cursor<&mut Vec<u8>>) -> (Result<Option<Value>, String>, u64),
    pub enums: fn(usize) -> Vec<u32>,
}

mod reg;

fn arr(v: &Value) -> Vec<u8> { v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default() }

fn run(case: &Value) -> Vec<Value> {
    let reg = reg::get(case["pkg"].as_i64().unwrap());
    let mut buf: Cursor<Vec<u8>> = Cursor::new(Vec::new());
    let mut encs: Vec<(usize, usize)> = vec![];
    let mut evs = vec![];
    for s in case["s"].as_array().unwrap() {
        let g = |f: &str| s[f].as_i64().unwrap_or(0);
        let (o, m, k) = (s["o"].as_str().unwrap(), g("m") as usize, g("k"));
        let mut e = json!({"o": o, "m": m, "k": k, "v": [], "d": [], "n": 0, "at": 0, "slot": 0, "r": "ok", "ok": true, "mem": -1, "x": ""});
        let before = buf.get_ref().clone();
        let r = catch_unwind(AssertUnwindSafe(|| match o {
            "U" => e["d"] = json!((reg.enums)(m)),
            "R" => { buf = Cursor::new(Vec::new()); encs.clear(); }
            "K" | "E" | "X" => {
                let mut fine = true;
                match o {
                    "K" => fine = match k {
                        0 => buf.encode_none().is_ok(),
                        5 => buf.encode_string(&"other".to_string()).is_ok(),
                        10 => buf.encode_u32(77).is_ok(),
                        _ => buf.encode_array(3, Kind::Bool).is_ok(),
                    },
                    "E" => {
                        let (a, b) = (reg.enc)(m, &s["v"], &mut buf);
                        if !a { e["r"] = json!("no"); }
                        fine = b;
                        e["v"] = s["v"].clone();
                    }
                    _ => {
                        fine = buf.encode_error(String::from_utf8(arr(&s["in"])).unwrap().into()).is_ok();
                        e["v"] = s["in"].clone();
                    }
                }
                let out = buf.get_ref();
                e["ok"] = json!(fine && out.len() >= before.len() && out[..before.len()] == before[..] && buf.position() as usize == out.len());
                let from = before.len().min(out.len());
                e["d"] = json!(out[from..].to_vec());
                e["n"] = json!(out.len());
                if o != "K" { encs.push((from, out.len())); }
            }
            "D" | "P" => {
                let at = g("at") as usize;
                let mut input = if o == "P" {
                    let mut x = arr(&s["in"]).repeat(k as usize);
                    x.push(0);
                    e["d"] = s["in"].clone();
                    x
                } else if at > 0 {
                    let (a, z) = encs[at - 1];
                    let out = buf.get_ref();
                    let cut = g("cut");
                    e["at"] = json!(at);
                    if cut >= 0 && z + cut as usize <= out.len() { out[a..z + cut as usize].to_vec() } else { out[a..].to_vec() }
                } else {
                    arr(&s["in"])
                };
                let was = input.clone();
                if o == "D" { e["d"] = json!(was); }
                let (r, mem, pos) = {
                    let mut c = Cursor::new(&mut input);
                    let (r, mem) = (reg.dec)(m, &mut c);
                    (r, mem, c.position())
                };
                e["ok"] = json!(input == was);
                if o == "D" { e["mem"] = json!(mem); }
                match r {
                    Ok(v) => { if o == "D" { e["n"] = json!(pos); e["v"] = v.unwrap_or(json!([])); } }
                    Err(_) => e["r"] = json!("no"),
                }
            }
            "Z" => e["n"] = json!(buf.get_ref().len()),
            _ => e["r"] = json!("badop"),
        }));
        let dead = r.is_err();
        if dead { e["r"] = json!("panic"); }
        evs.push(e);
        if dead { break; }
    }
    evs
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        if line.is_empty() { continue; }
        let case: Value = serde_json::from_str(&line).unwrap();
        let mut w = out.lock();
        writeln!(w, "BEGIN {}", case["id"]).unwrap();
        w.flush().unwrap();
        let evs = run(&case);
        writeln!(w, "{}", json!({"id": case["id"], "ev": evs})).unwrap();
        w.flush().unwrap();
    }
}
