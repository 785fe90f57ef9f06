//! How the elements of a proof depend on the prover's randomness and on the witness (P29).
//! The verifier's coins are fixed; every word of randomness used as a field element is moved by one,
//! and so is every part of the witness.
use crate::io::*;
use crate::log;
use crate::rng::{rng, ScriptRng};
use crate::Fp;
use rand::Rng;
use serde_json::json;

/// an element of the proof: its name and the word it is in
pub type At = (String, usize);
/// word positions changed by an alteration
pub fn changed(a: &[u8], b: &[u8]) -> Vec<usize> { words(a).iter().zip(words(b)).enumerate().filter(|(_, (x, y))| *x != y).map(|(i, _)| i).collect() }
/// `prove(rng, variant)`: serialized proof for the variant-th witness; groups: named sets of words that are to be blinded together
pub fn run<const P: u64>(out: &mut Out, inst: usize, scheme: &str, sd: u64, variants: usize, groups: &dyn Fn(&[u8]) -> Vec<(&'static str, Vec<At>)>,
    prove: &dyn Fn(&mut ScriptRng, usize) -> Option<Vec<u8>>)
{
    let mut r = rng(sd);
    let script: Vec<u64> = (0..6000).map(|_| r.gen::<u64>() % P).collect();
    let coins: Vec<u64> = (0..6000).map(|_| 1 + r.gen::<u64>() % (P - 1)).collect();
    let once = |s: &Vec<u64>, v: usize| -> (Option<Vec<u64>>, Vec<u8>, Vec<usize>) {
        log::script(Some(coins.clone()));
        let _ = log::draws();
        let mut g = ScriptRng::new(s.clone(), sd);
        let b = guarded(|| prove(&mut g, v)).ok().and_then(|x| x);
        log::script(None);
        let d = log::draws();
        (b.as_ref().map(|b| words(b)), b.unwrap_or(vec![]), d)
    };
    let (base, bytes, used) = match once(&script, 0) { (Some(w), b, u) => (w, b, u), _ => { out.put(&json!({"ev": "skip", "inst": inst, "scheme": scheme})); return; } };
    let diff = |w: &Vec<u64>, i: usize| -> u64 { (Fp::<P>::from_raw(w[i] % P) - Fp::<P>::from_raw(base[i] % P)).raw() };
    let mut cols = vec![];
    for i in &used {
        let mut s = script.clone();
        s[*i] = (s[*i] + 1) % P;
        match once(&s, 0) { (Some(w), _, _) if w.len() == base.len() => cols.push(w), _ => {} }
    }
    let vars: Vec<Vec<u64>> = (1..variants).filter_map(|v| once(&script, v).0).filter(|w| w.len() == base.len()).collect();
    for (g, at) in groups(&bytes) {
        let at: Vec<&At> = at.iter().filter(|a| vars.iter().any(|w| diff(w, a.1) != 0) || cols.iter().any(|w| diff(w, a.1) != 0)).collect();
        let cs: Vec<&Vec<u64>> = cols.iter().filter(|w| at.iter().any(|a| diff(w, a.1) != 0)).collect();
        out.put(&json!({"ev": "group", "inst": inst, "scheme": scheme, "p": P, "group": g, "draws": used.len(),
            "rows": at.iter().map(|a| &a.0).collect::<Vec<_>>(),
            "J": at.iter().map(|a| cs.iter().map(|w| diff(w, a.1)).collect::<Vec<_>>()).collect::<Vec<_>>(),
            "D": at.iter().map(|a| vars.iter().map(|w| diff(w, a.1)).collect::<Vec<_>>()).collect::<Vec<_>>()}));
    }
}
/// witnesses: the given one, then each coordinate moved by one
pub fn variants(w: &[i64]) -> Vec<Vec<i64>> {
    let mut v = vec![w.to_vec()];
    for i in 0..w.len() { let mut u = w.to_vec(); u[i] += 1; v.push(u); }
    v
}
/// groups out of named alterations: all named words; then the words that are no first message of a sub-proof
/// together with the unnamed words (the responses)
pub fn groups(names: Vec<At>, first: &dyn Fn(&str) -> bool, skip: &dyn Fn(&str) -> bool, n: usize) -> Vec<(&'static str, Vec<At>)> {
    let named: Vec<usize> = names.iter().map(|a| a.1).collect();
    let a: Vec<At> = names.iter().filter(|a| !skip(&a.0)).cloned().collect();
    let mut b: Vec<At> = a.iter().filter(|a| !first(&a.0)).cloned().collect();
    for i in 0..n { if !named.contains(&i) { b.push((format!("word{}", i), i)); } }
    vec![("commitments", a), ("responses", b)]
}
