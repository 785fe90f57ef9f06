//! ndjson input / output, panic capture.
use serde_json::Value;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn read_lines(path: &str) -> Vec<Value> {
    let f = std::fs::File::open(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
    std::io::BufReader::new(f).lines().map(|l| l.unwrap()).filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(&l).unwrap()).collect()
}
pub struct Out(std::io::BufWriter<std::fs::File>);
impl Out {
    pub fn new(path: &str) -> Out { Out(std::io::BufWriter::new(std::fs::File::create(path).unwrap())) }
    pub fn put(&mut self, v: &Value) { serde_json::to_writer(&mut self.0, v).unwrap(); self.0.write_all(b"\n").unwrap(); }
}
impl Drop for Out { fn drop(&mut self) { self.0.flush().unwrap(); } }

pub fn quiet_panics() { std::panic::set_hook(Box::new(|_| {})); }

/// run code under test; a panic is data
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { format!("panic: {}", s) }
        else if let Some(s) = e.downcast_ref::<String>() { format!("panic: {}", s) }
        else { "panic".to_string() }
    })
}
pub fn args() -> Vec<String> { std::env::args().collect() }
pub fn seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1) }
pub fn thorough() -> bool { std::env::var("VERIF_TIER").map(|s| s == "thorough").unwrap_or(false) }
pub trait J { fn us(&self, k: &str) -> usize; fn st(&self, k: &str) -> &str; fn ints(&self, k: &str) -> Vec<i64>; fn arr(&self, k: &str) -> &Vec<Value>; }
impl J for Value {
    fn us(&self, k: &str) -> usize { self[k].as_u64().unwrap_or_else(|| panic!("field {} in {}", k, self)) as usize }
    fn st(&self, k: &str) -> &str { self[k].as_str().unwrap_or_else(|| panic!("field {} in {}", k, self)) }
    fn arr(&self, k: &str) -> &Vec<Value> { self[k].as_array().unwrap_or_else(|| panic!("field {} in {}", k, self)) }
    fn ints(&self, k: &str) -> Vec<i64> { self.arr(k).iter().map(|x| x.as_i64().unwrap()).collect() }
}
/// view a serialized mock-field object as its 64-bit words (elements and length prefixes)
pub fn words(b: &[u8]) -> Vec<u64> {
    b.chunks(8).map(|c| { let mut x = [0u8; 8]; x[..c.len()].copy_from_slice(c); u64::from_le_bytes(x) }).collect()
}
pub fn unwords(w: &[u64]) -> Vec<u8> { w.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect() }
