//! Challenge recordings of the Marlin verifier (P26).
use super::*;
use mock::fs::*;
type F<const P: u64> = Fp<P>;
type E<const P: u64> = Eng<P>;

pub fn run<const P: u64>(insts: &[Value], out: &mut Out) {
    for (n, inst) in insts.iter().enumerate() {
        let sd = seed() * 1_000_003 + n as u64 * 1009;
        let c = Circ::from_json(inst);
        let (x, w) = (inst.ints("x"), inst.ints("w"));
        let (pk, vk) = match guarded(|| M::<P>::setup(&c, sd)) { Ok(Ok(k)) => k, _ => continue };
        log::start();
        let p = guarded(|| M::<P>::prove(&pk, &c, &x, &w, sd + 1));
        let drawn = log::stop();
        let p = match p { Ok(Ok(p)) => p, _ => continue };
        let xs: Vec<F<P>> = x.iter().map(|v| F::i(*v)).collect();
        let run = |vk: &IndexVerifierKey<E<P>>, p: &Proof<E<P>>, x: &[F<P>]| match verify_proof(vk, p, x) { Ok(true) => "accept", Ok(false) => "reject", Err(_) => "error" };
        let cl = |i: usize| p.commitments.get(i).map(|c| c.len()).unwrap_or(0);
        let sz = json!({"x": x.len(), "c1": cl(0), "c2": cl(1), "c3": cl(2), "ev": p.evaluations.len()});
        let mut f = Fs::new(out, n, "marlin", sz, &drawn, || run(&vk, &p, &xs));
        for i in 0..vk.index_comms.len() {
            f.alter(&[nm("ivk", 0, 0)], "comm", || { let mut k = vk.clone(); let o = vk.index_comms[(i + 1) % vk.index_comms.len()].clone();
                if to(&o) == to(&k.index_comms[i]) { return "same" } k.index_comms[i] = o; run(&k, &p, &xs) });
        }
        // the other shapes of the statement, given as another key: numbers of the index
        let kb = to(&vk);
        for i in 0..kb.len().min(24) / 8 {
            f.alter(&[nm("ivk", 0, 0)], "info", || { let mut b = kb.clone(); b[8 * i] ^= 1;
                match IndexVerifierKey::<E<P>>::deserialize(&b[..]) { Ok(k) => run(&k, &p, &xs), Err(_) => "malformed" } });
        }
        for i in 0..x.len() { f.alter(&[nm("x", 0, i + 1)], "inc", || { let mut y = xs.clone(); y[i] += F::<P>::i(1); run(&vk, &p, &y) }); }
        for r in 0..p.commitments.len() {
            for i in 0..cl(r) {
                let b = to(&p.commitments[r][i]);
                for j in [0usize, 8, 9].iter().cloned().filter(|j| *j < b.len()) {
                    f.alter(&[nm("com", r + 1, i + 1)], "inc", || { let mut b = b.clone(); b[j] ^= 1; let mut q = p.clone();
                        match CanonicalDeserialize::deserialize(&b[..]) { Ok(c) => q.commitments[r][i] = c, Err(_) => return "malformed" }
                        run(&vk, &q, &xs) });
                }
            }
        }
        for i in 0..p.evaluations.len() {
            f.alter(&[nm("eval", 0, i + 1)], "inc", || { let mut q = p.clone(); q.evaluations[i] += F::<P>::i(1); run(&vk, &q, &xs) });
        }
    }
}
fn to<T: CanonicalSerialize>(t: &T) -> Vec<u8> { let mut b = vec![]; t.serialize(&mut b).unwrap(); b }
