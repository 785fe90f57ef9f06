//! Transcripts built by the specification, shown to the real verifier under the same coins.
use crate::io::*;
use crate::log;
use crate::rng::rng;
use rand::Rng;
use serde_json::{json, Value};
/// verifier's coins (none of them 0, 1 or 1/2) and the words the specification chooses freely
pub fn randomness(p: u64, sd: u64, coins: usize, free: usize) -> (Vec<u64>, Vec<u64>) {
    let mut r = rng(sd);
    let mut c = vec![];
    while c.len() < coins { let x = r.gen::<u64>() % p; if x > 1 && x != (p + 1) / 2 && x != p - 1 { c.push(x) } }
    (c, (0..free).map(|_| r.gen::<u64>() % (1 << 30)).collect())
}
/// adds p, coins and rnd to a description of keys and instance
pub fn setting(out: &mut Out, p: u64, sd: u64, mut v: Value) {
    let (c, f) = randomness(p, sd, 700, 1500);
    v["p"] = json!(p); v["coins"] = json!(c); v["rnd"] = json!(f);
    out.put(&v)
}
/// verdicts on the simulated transcripts of one setting (`inst` counts from 1)
pub fn judge(out: &mut Out, n: usize, coins: &[i64], sims: &[Value], verify: &dyn Fn(&[u64]) -> Result<bool, String>) {
    for s in sims.iter().filter(|s| s.us("inst") == n + 1) {
        let w: Vec<u64> = s.ints("words").iter().map(|x| *x as u64).collect();
        log::script(Some(coins.iter().map(|x| *x as u64).collect()));
        let r = guarded(|| verify(&w));
        log::script(None);
        let res = match &r { Ok(Ok(true)) => "accept", _ => "reject" };
        out.put(&json!({"ev": "sim", "inst": n, "hit": s["hit"], "eqs": s["eqs"], "res": res, "why": match r { Ok(Err(e)) | Err(e) => e, Ok(Ok(b)) => b.to_string() }}));
    }
}
