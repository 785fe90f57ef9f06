//! Objects of this scheme as bytes (P27).
use super::*;
use mock::codec::*;
fn sh<T: std::fmt::Debug>(r: Result<T, String>) -> String { match r { Ok(v) => format!("{:?}", v), Err(_) => "panic".into() } }
use ark_ec::PairingEngine;
fn objects<E: PairingEngine>(c: &Circ, x: &[i64], w: &[i64], sd: u64, out: &mut Out, n: usize, streams: &[Value]) {
    let srs = match universal_setup::<E, _>(64, &mut rng(sd)) { Ok(s) => s, _ => return };
    let (pk, vk) = match guarded(|| index(&srs, c.with(None, None))) { Ok(Ok(k)) => k, _ => return };
    let proof = match guarded(|| create_random_proof(&pk, c.with(Some(x), Some(w)), &mut rng(sd + 1))) { Ok(Ok(p)) => p, _ => return };
    let xs: Vec<E::Fr> = x.iter().map(|v| fi(*v)).collect();
    let mut ys = xs.clone();
    if let Some(y) = ys.last_mut() { *y += <E::Fr as ark_ff::One>::one(); }
    let ver = |k: &IndexVerifierKey<E>, p: &Proof<E>| sh(guarded(|| { let f = |x| matches!(verify_proof(k, p, x), Ok(true)); (f(&xs), f(&ys), dig(&ark_ff::to_bytes![k].unwrap())) }));
    let items: Items = vec![
        item("marlin.vk", vk.clone(), |k: &IndexVerifierKey<E>| ver(k, &proof)),
        item("marlin.proof", proof.clone(), |p: &Proof<E>| ver(&vk, p)),
        item("marlin.ck", pk.committer_key.clone(), |k| format!("{:?}", k)),
    ];
    check(out, n, &items, streams);
    for i in 0..proof.evaluations.len() { let mut q = proof.clone(); q.evaluations[i] += <E::Fr as ark_ff::One>::one(); altered(out, n, "evaluations", &*items[1], &*item("", q, |_| String::new())); }
    for i in 0..3 { let mut q = proof.clone(); q.commitments[i].pop(); altered(out, n, "commitments", &*items[1], &*item("", q, |_| String::new())); }
}
pub fn main(insts: &[Value], streams: &[Value], out: &mut Out) {
    for (n, inst) in insts.iter().enumerate() {
        let sd = seed() * 1_000_003 + n as u64 * 1009;
        let s = &streams[(n * 6) % streams.len()..];
        let s = &s[..s.len().min(6)];
        let c = Circ::from_json(inst);
        let (x, w) = (inst.ints("x"), inst.ints("w"));
        objects::<Eng<GOLD>>(&c, &x, &w, sd, out, n, s);
        if n < 2 || thorough() && n < 10 { objects::<ark_bls12_381::Bls12_381>(&c, &x, &w, sd, out, n, s); }
    }
}
