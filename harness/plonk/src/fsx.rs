//! Challenge recordings of the PLONK verifier (P26).
use super::*;
use mock::fs::*;

pub fn run(insts: &[Value], out: &mut Out) {
    for (n, inst) in insts.iter().enumerate() {
        let calls = inst.arr("calls").clone();
        let vals = inst.ints("vals");
        let sd = seed().wrapping_mul(1_000_003) + n as u64 * 1009;
        let (cs, pk, vk) = match guarded(|| { let cs = composer(&calls, &vals, &[]); keygen(&cs, sd).map(|k| (cs, k.0, k.1)) }) { Ok(Ok(k)) => k, _ => continue };
        log::start();
        let p = guarded(|| PL::prove(&pk, &cs, &mut rng(sd + 1)));
        let drawn = log::stop();
        let p = match p { Ok(Ok(p)) => p, _ => continue };
        let pi = cs.public_inputs().to_vec();
        let run = |p: Proof<F, PC>, x: &[F]| match PL::verify(&vk, x, p) { Ok(true) => "accept", Ok(false) => "reject", Err(_) => "error" };
        let cl = |i: usize| p.commitments.get(i).map(|c| c.len()).unwrap_or(0);
        let sz = json!({"x": pi.len(), "c1": cl(0), "c2": cl(1), "c3": cl(2), "ev": p.evaluations.len()});
        let mut f = Fs::new(out, n, "plonk", sz, &drawn, || run(copy(&p), &pi));
        for i in 0..pi.len() { f.alter(&[nm("x", 0, i + 1)], "inc", || { let mut y = pi.clone(); y[i] += F::one(); run(copy(&p), &y) }); }
        for r in 0..p.commitments.len() {
            for i in 0..cl(r) {
                let mut b = vec![];
                p.commitments[r][i].serialize(&mut b).unwrap();
                f.alter(&[nm("com", r + 1, i + 1)], "inc", || { let mut b = b.clone(); b[0] ^= 1; let mut q = copy(&p);
                    match CanonicalDeserialize::deserialize(&b[..]) { Ok(c) => q.commitments[r][i] = c, Err(_) => return "malformed" }
                    run(q, &pi) });
            }
        }
        for i in 0..p.evaluations.len() {
            f.alter(&[nm("eval", 0, i + 1)], "inc", || { let mut q = copy(&p); q.evaluations[i] += F::one(); run(q, &pi) });
        }
    }
}
