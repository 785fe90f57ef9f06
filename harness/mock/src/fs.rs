//! Observes the verifier's challenges while one part of the statement or proof is altered.
use crate::io::*;
use crate::log;
use serde_json::{json, Value};

pub type Name = (String, usize, usize);
pub fn nm(n: &str, i: usize, j: usize) -> Name { (n.to_string(), i, j) }
fn jn(v: &[Name]) -> Value { Value::Array(v.iter().map(|(n, i, j)| json!([n, i, j])).collect()) }
/// a named alteration of a T
pub type Alt<T> = (Vec<Name>, &'static str, Box<dyn Fn(&mut T)>);
pub fn alt<T>(n: Vec<Name>, k: &'static str, f: impl Fn(&mut T) + 'static) -> Alt<T> { (n, k, Box::new(f)) }

pub struct Fs<'o> { pub out: &'o mut Out, pub inst: usize, honest: Vec<u64> }
impl<'o> Fs<'o> {
    /// run the honest verification; prover = what the prover drew (its own randomness and its challenges)
    pub fn new(out: &'o mut Out, inst: usize, proto: &str, sz: Value, prover: &[u64], run: impl Fn() -> &'static str) -> Fs<'o> {
        log::start();
        let res = guarded(run).unwrap_or("panic");
        let honest = log::stop();
        let s = |v: &[u64]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
        out.put(&json!({"ev": "honest", "inst": inst, "proto": proto, "sz": sz, "v": s(&honest), "p": s(prover), "res": res}));
        Fs { out, inst, honest }
    }
    pub fn alter(&mut self, elems: &[Name], kind: &str, run: impl Fn() -> &'static str) {
        log::start();
        let res = guarded(run).unwrap_or("panic");
        let got = log::stop();
        let eq: Vec<usize> = got.iter().zip(&self.honest).enumerate().filter(|(_, (a, b))| a == b).map(|(i, _)| i + 1).collect();
        self.out.put(&json!({"ev": "alter", "inst": self.inst, "elems": jn(elems), "kind": kind, "seen": got.len(), "eq": eq, "res": res}));
    }
}
